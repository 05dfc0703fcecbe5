#define COVARIANCES
#include "k04.cpp"
