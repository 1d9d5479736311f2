#define UNIT unit_b
#define NAMES NAMES_B
#define WITH_RARE
#include "c37_unit.inc"
