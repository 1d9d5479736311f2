#define UNIT unit_c
#define NAMES NAMES_C

#include "c37_unit.inc"
