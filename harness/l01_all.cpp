#define SITES sitesAll
#define SETS 4
#include "l01_sites.inc"
