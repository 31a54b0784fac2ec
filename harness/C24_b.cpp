#include "C24.h"
namespace {
PP(uint32_t, uint64_t, VEC, double, true)
}
