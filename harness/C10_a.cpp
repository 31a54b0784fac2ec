#include "C10.h"
namespace {
BINS(uint32_t, uint32_t, PTR, float, false)
BINS(uint32_t, uint64_t, VEC, double, true)
}
