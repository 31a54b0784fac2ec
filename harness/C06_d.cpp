#include "C06.h"
namespace {
CV(uint8_t, uint32_t, PTR, uint8_t, uint8_t, uint32_t, VEC, uint8_t, true)
CV(uint8_t, uint8_t, SP, float, uint16_t, uint8_t, PTR, float, false)
CV(uint8_t, uint64_t, VEC, int, uint8_t, uint16_t, PTR, int, true)
CV(uint16_t, uint32_t, PTR, float, uint8_t, uint64_t, PTR, float, false)
}
