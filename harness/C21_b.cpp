#include "C21.h"
namespace {
ALLK(Tens<uint32_t, uint32_t, PTR, float, false>)
ALLK(Tens<uint8_t, uint8_t, VEC, double, true>)
ALLK(Tens<uint64_t, uint16_t, SP, int, true>)
ALLK(Tens<uint16_t, uint64_t, PTR, float, true>)
ALLK(Tens<uint8_t, uint32_t, PTR, float, true>)
}
