#define UNIT unit_a
#define NAMES NAMES_A

#include "c37_unit.inc"
