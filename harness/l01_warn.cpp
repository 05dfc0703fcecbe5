#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_WARN
#define SITES sitesWarn
#define SETS 1
#include "l01_sites.inc"
