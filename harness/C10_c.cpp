#include "C10.h"
namespace {
BINS(uint64_t, uint64_t, VEC, float, false)
BINS(uint32_t, uint16_t, SP, float, true)
}
