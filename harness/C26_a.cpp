#include "C26.h"
namespace {
GR(uint32_t, uint32_t, PTR, float, false)
GR(uint64_t, uint32_t, VEC, double, true)
}
