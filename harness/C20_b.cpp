#include "C20.h"
namespace {
FT(uint32_t, uint64_t, VEC, double, true)
}
