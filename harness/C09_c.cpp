#include "C09.h"
namespace {
ALLK(Dedup<uint8_t, uint16_t, PTR, uint8_t, true, uint32_t, uint32_t, VEC, float>)
ALLK(Dedup<uint16_t, uint32_t, VEC, float, false, uint64_t, uint64_t, SP, float>)
ALLK(Dedup<uint64_t, uint64_t, SP, int, true, uint32_t, uint16_t, PTR, double>)
}
