#include "C08.h"
namespace {
TW(MATRIX, int, int, PTR, float, true, MEM)
TW(DIGRAPH, int, int, VEC, double, true, EL)
TW(DIGRAPH, int16_t, int8_t, SP, int, true, MEM, int16_t, int64_t, PTR, int)
TW(MATRIX, int64_t, int16_t, PTR, float, true, MM)
TW(DIGRAPH, int8_t, int, PTR, float, false, DGBIN)
}
