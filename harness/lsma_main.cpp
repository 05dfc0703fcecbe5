// The command line lister, callable within the monitor.
#include <iostream>
#include <sm/MatrixArchive.hpp>
#define main lsma_main
#include LSMA_SOURCE  // of the tree under test
