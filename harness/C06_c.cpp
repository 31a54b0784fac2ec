#include "C06.h"
namespace {
CV(uint64_t, uint64_t, VEC, float, uint16_t, uint32_t, SP, float, false)
CV(uint16_t, uint16_t, PTR, int64_t, uint32_t, uint32_t, VEC, int64_t, true)
CV(uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, false, true)
}
