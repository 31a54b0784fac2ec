#include "C21.h"
namespace {
ALLK(Coos<uint32_t, uint32_t, PTR, float, false>)
ALLK(Coos<uint32_t, uint64_t, VEC, double, true>)
ALLK(Coos<uint16_t, uint16_t, SP, int, true, true>)
ALLK(Coos<uint64_t, uint32_t, PTR, uint8_t, true>)
ALLK(Coos<int, int, VEC, float, false>)
ALLK(Coos<uint8_t, uint32_t, PTR, float, true>)
ALLK(Coos<uint8_t, uint8_t, SP, uint8_t, true>)
}
