#include "C15.h"
namespace {
TNW(uint8_t, uint16_t, SP, int, true)
TNW(uint16_t, uint8_t, VEC, uint8_t, false)
TNW(uint64_t, uint32_t, SP, int64_t, true)
}
