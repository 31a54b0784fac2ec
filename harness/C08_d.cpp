#include "C08.h"
namespace {
TW(MATRIX, uint8_t, uint32_t, PTR, uint8_t, true, MEM)
TW(DIGRAPH, uint8_t, uint8_t, VEC, float, false, MEM, uint8_t, uint32_t, PTR, float)
TW(DIGRAPH, uint8_t, uint32_t, PTR, int, true, EL)
TW(DIGRAPH, uint8_t, uint16_t, SP, double, true, DGBIN)
TW(MATRIX, uint8_t, uint64_t, PTR, float, true, MM)
}
