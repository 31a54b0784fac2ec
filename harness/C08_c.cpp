#include "C08.h"
namespace {
TW(MATRIX, uint16_t, uint32_t, VEC, double, true, MEM, uint32_t, uint64_t, SP, float)
TW(DIGRAPH, uint64_t, uint64_t, SP, float, true, MEM, uint16_t, uint16_t, PTR, int)
TW(MATRIX, uint32_t, uint32_t, PTR, float, true, CSRBIN)
TW(DIGRAPH, uint16_t, uint16_t, VEC, double, true, CSRBIN)
TW(DIGRAPH, uint32_t, uint16_t, PTR, float, false, COOBIN)
TW(DIGRAPH, uint16_t, uint32_t, VEC, double, true, DGBIN)
}
