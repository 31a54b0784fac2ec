#include "C14.h"
namespace {
TNS(uint8_t, uint16_t, VEC, int, false)
TNS(uint64_t, uint64_t, SP, double, true)
MNY(uint16_t, uint8_t, PTR, int, false)
MNY(uint8_t, uint32_t, VEC, uint8_t, true)
}
