set(WRAP_SYNC -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
  -Wl,--wrap=pthread_cond_wait -Wl,--wrap=pthread_cond_signal -Wl,--wrap=pthread_cond_broadcast)
add_monitor(b01 DEPS sm_boost SOURCES sched.cpp LIBS ${WRAP_SYNC})
add_monitor(b03 DEPS sm_boost sm_common LIBS Boost::serialization Boost::filesystem Boost::system)
add_monitor(c01 DEPS sm_common LIBS Boost::serialization)
add_monitor(c02 DEPS sm_common)
add_monitor(c03 DEPS sm_common SOURCES c03_rel.cpp LIBS quadmath)
add_monitor(c04 DEPS sm_common sm_eigen sm_logging SOURCES c04_dbg.cpp c04_rel.cpp c04_always.cpp)
add_monitor(c05 DEPS sm_common)
add_monitor(r01 DEPS sm_random sm_eigen)
add_monitor(t01 DEPS sm_timing)
add_monitor(t02 DEPS sm_timing SOURCES sched.cpp LIBS ${WRAP_SYNC})
add_monitor(t03 DEPS sm_timing sm_boost)
add_monitor(t03ns DEPS sm_timing sm_boost)
add_monitor(t04 DEPS sm_timing sm_common)
add_monitor(e01 DEPS sm_eigen LIBS Boost::serialization)
add_monitor(e02 DEPS sm_eigen)
add_monitor(e03 DEPS sm_eigen sm_property_tree)
add_monitor(m01 DEPS sm_matrix_archive SOURCES lsma_main.cpp LIBS Boost::filesystem Boost::system)
set_source_files_properties(lsma_main.cpp PROPERTIES COMPILE_DEFINITIONS "LSMA_SOURCE=\"${REPO}/sm_matrix_archive/src/lsma.cpp\"")
add_monitor(p01 DEPS sm_property_tree LIBS Boost::filesystem Boost::system)
add_monitor(v01 DEPS sm_value_store sm_property_tree LIBS Boost::filesystem Boost::system)
add_monitor(l01 DEPS sm_logging SOURCES l01_all.cpp l01_warn.cpp l01_once.cpp sched.cpp LIBS ${WRAP_SYNC})
add_monitor(k01 DEPS sm_kinematics sm_eigen LIBS Boost::serialization)
add_monitor(k03 DEPS sm_kinematics sm_eigen sm_property_tree LIBS Boost::serialization)
add_monitor(k04 DEPS sm_kinematics sm_eigen LIBS Boost::serialization)
add_monitor(k07 DEPS sm_kinematics sm_eigen LIBS Boost::serialization)
add_monitor(k06 DEPS sm_kinematics sm_eigen LIBS Boost::serialization)
# The Python module, built into the monitors that embed Python.
function(add_python_monitor ID)
  if(NOT TARGET smpy)
    find_package(Boost REQUIRED COMPONENTS python312)
    file(GLOB sources CONFIGURE_DEPENDS "${REPO}/sm_python/src/*.cpp")
    add_library(smpy STATIC EXCLUDE_FROM_ALL ${sources})
    # Boost.Python uses dynamic_cast<void*> on a holder it has just destroyed, whose vptr this sanitizer clears.
    target_compile_options(smpy PUBLIC -fno-sanitize=vptr)
    target_include_directories(smpy PUBLIC "${CMAKE_SOURCE_DIR}/pystub" "${REPO}/sm_python/include" /usr/include/python3.12)
    target_link_libraries(smpy PUBLIC sm_kinematics sm_timing sm_property_tree sm_eigen sm_matrix_archive sm_logging sm_random sm_boost sm_value_store
      Boost::python312 Boost::serialization Boost::filesystem python3.12)
  endif()
  add_monitor(${ID} DEPS smpy)
  target_compile_definitions(${ID} PRIVATE SM_REPO="${REPO}")
endfunction()
add_python_monitor(y01)
add_python_monitor(y02)
# sm_matlab and sm_opencv on stand-ins for the libraries that are not installed.
file(GLOB matlab_sources CONFIGURE_DEPENDS "${REPO}/sm_matlab/src/*.cpp")
add_monitor(g01 DEPS sm_common SOURCES matlab_standin.cpp ${matlab_sources} LIBS Eigen3::Eigen)
target_include_directories(g01 PRIVATE "${CMAKE_SOURCE_DIR}/matlabstub" "${REPO}/sm_matlab/include")
add_monitor(o01 DEPS sm_common LIBS Boost::serialization)
target_include_directories(o01 PRIVATE "${CMAKE_SOURCE_DIR}/opencvstub" "${REPO}/sm_opencv/include")
add_monitor(s02 DEPS sm_kinematics sm_eigen sm_property_tree sm_value_store sm_matrix_archive sm_boost sm_timing sm_common LIBS Boost::serialization Boost::filesystem Boost::system)
add_monitor(f01 DEPS sm_kinematics sm_eigen sm_boost sm_common LIBS Boost::serialization Boost::filesystem Boost::system)
target_include_directories(f01 PRIVATE "${CMAKE_SOURCE_DIR}/opencvstub" "${REPO}/sm_opencv/include")
add_monitor(e04 DEPS sm_eigen sm_common LIBS gtest)
