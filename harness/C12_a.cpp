#include "C12.h"
namespace {
WRS(uint32_t, uint32_t, PTR, float, false)
WRS(uint32_t, uint32_t, PTR, float, true)
WRS(uint64_t, uint64_t, VEC, double, true)
}
