// Stand-in for the header of numpy_eigen, which is not part of the repository.
#pragma once
#include <Eigen/Core>
#include <boost/python.hpp>
