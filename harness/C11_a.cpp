#include "C11.h"
namespace {
REFS(uint32_t, uint32_t, PTR, float, false)
REFS(uint64_t, uint64_t, VEC, double, true)
}
