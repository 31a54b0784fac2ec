#include "C17.h"
namespace {
RC(uint32_t, uint64_t, VEC, double, true)
}
