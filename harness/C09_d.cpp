#include "C09.h"
namespace {
ALLK(Dedup<uint8_t, uint32_t, PTR, float, true, uint8_t, uint32_t, PTR, float>)
ALLK(Dedup<uint8_t, uint64_t, VEC, float, false, uint8_t, uint64_t, VEC, float>)
ALLK(Dedup<uint8_t, uint8_t, PTR, int, true, uint16_t, uint8_t, PTR, int>)
ALLK(Sort<uint8_t, uint32_t, PTR, float, false>)
ALLK(Sort<uint8_t, uint8_t, SP, double, true>)
}
