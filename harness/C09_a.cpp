#include "C09.h"
namespace {
ALLK(Sort<uint32_t, uint32_t, PTR, float, false>)
ALLK(Sort<uint32_t, uint64_t, VEC, double, true>)
ALLK(Sort<uint64_t, uint32_t, SP, int, true>)
ALLK(Sort<uint16_t, uint16_t, VEC, float, false>)
ALLK(Sort<uint8_t, uint16_t, PTR, uint8_t, true>)
ALLK(Sort<uint16_t, uint32_t, SP, float, false>)
}
