#include "C08.h"
namespace {
TW(MATRIX, uint32_t, uint32_t, PTR, float, false, MEM)
TW(MATRIX, uint32_t, uint64_t, PTR, float, true, EL)
TW(MATRIX, uint32_t, uint32_t, VEC, double, true, MM)
TW(MATRIX, uint64_t, uint64_t, SP, int, true, COOBIN)
}
