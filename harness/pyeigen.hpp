// Conversions between Eigen matrices and Python lists, in place of numpy_eigen's (to numpy arrays), which is not
// part of the repository: a column is a list of numbers, any other matrix a list of rows.
#pragma once
#include <Eigen/Core>
#include <boost/python.hpp>
namespace pyeigen {
namespace bp = boost::python;
template <class M> struct Conv {
  enum { R = M::RowsAtCompileTime, C = M::ColsAtCompileTime };
  static PyObject* convert(const M& m) {
    bp::list rows;
    for (Eigen::Index i = 0; i < m.rows(); ++i) {
      if (C == 1) { rows.append(m(i, 0)); continue; }
      bp::list row;
      for (Eigen::Index j = 0; j < m.cols(); ++j) row.append(m(i, j));
      rows.append(row);
    }
    return bp::incref(rows.ptr());
  }
  static bool number(PyObject* o) { return PyFloat_Check(o) || PyLong_Check(o); }
  static void* convertible(PyObject* o) {
    if (!PyList_Check(o)) return nullptr;
    Py_ssize_t n = PyList_Size(o);
    if (R != Eigen::Dynamic && n != R) return nullptr;
    Py_ssize_t cols = -1;
    for (Py_ssize_t i = 0; i < n; ++i) {
      PyObject* e = PyList_GetItem(o, i);
      if (C == 1) { if (!number(e)) return nullptr; continue; }
      if (!PyList_Check(e)) return nullptr;
      Py_ssize_t m = PyList_Size(e);
      if ((C != Eigen::Dynamic && m != C) || (cols >= 0 && m != cols)) return nullptr;
      cols = m;
      for (Py_ssize_t j = 0; j < m; ++j) if (!number(PyList_GetItem(e, j))) return nullptr;
    }
    return o;
  }
  static void construct(PyObject* o, bp::converter::rvalue_from_python_stage1_data* data) {
    void* storage = ((bp::converter::rvalue_from_python_storage<M>*)data)->storage.bytes;
    Py_ssize_t n = PyList_Size(o);
    M* m = new (storage) M;
    m->resize(n, C == 1 ? 1 : n ? PyList_Size(PyList_GetItem(o, 0)) : C == Eigen::Dynamic ? 0 : C);
    for (Py_ssize_t i = 0; i < n; ++i)
      for (Py_ssize_t j = 0; j < m->cols(); ++j) (*m)(i, j) = PyFloat_AsDouble(C == 1 ? PyList_GetItem(o, i) : PyList_GetItem(PyList_GetItem(o, i), j));
    data->convertible = storage;
  }
  Conv() {
    bp::to_python_converter<M, Conv<M>>();
    bp::converter::registry::push_back(&convertible, &construct, bp::type_id<M>());
  }
};
template <int R, int C> using Mat = Eigen::Matrix<double, R, C>;
inline void registerAll() {
  Conv<Mat<1, 1>>(); Conv<Mat<2, 1>>(); Conv<Mat<3, 1>>(); Conv<Mat<4, 1>>(); Conv<Mat<5, 1>>(); Conv<Mat<6, 1>>(); Conv<Mat<-1, 1>>();
  Conv<Mat<2, 2>>(); Conv<Mat<3, 3>>(); Conv<Mat<4, 4>>(); Conv<Mat<5, 5>>(); Conv<Mat<6, 6>>(); Conv<Mat<3, 4>>(); Conv<Mat<4, 3>>(); Conv<Mat<3, 6>>(); Conv<Mat<4, 6>>(); Conv<Mat<-1, -1>>();
}
}  // namespace pyeigen
