#include "C15.h"
namespace {
TNW(uint32_t, uint32_t, PTR, float, false)
TNW(uint32_t, uint32_t, PTR, float, true)
TNW(uint64_t, uint64_t, VEC, double, true)
}
