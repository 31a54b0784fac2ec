#include "C06.h"
namespace {
CV(uint32_t, uint32_t, VEC, float, uint32_t, uint32_t, VEC, float, true)
CV(uint32_t, uint32_t, SP, double, uint32_t, uint64_t, SP, int, true)
CV(uint32_t, uint64_t, PTR, float, uint32_t, uint64_t, PTR, float, false)
}
