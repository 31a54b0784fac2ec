#include "C26.h"
namespace {
GR(uint64_t, uint64_t, PTR, float, true)
GR(uint16_t, uint64_t, SP, int, true)
GR(uint8_t, uint16_t, VEC, uint8_t, false)
GR(uint8_t, uint32_t, PTR, float, false)
GR(uint8_t, uint8_t, SP, float, true)
}
