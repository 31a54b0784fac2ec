#include "C12.h"
namespace {
WRS(uint8_t, uint16_t, SP, int, true)
WRS(uint16_t, uint8_t, VEC, uint8_t, true)
WRS(uint64_t, uint32_t, SP, int64_t, true)
}
