#include "C25.h"
namespace {
LK(uint32_t, uint64_t, VEC, double, true)
}
