#include "C11.h"
namespace {
REFS(uint8_t, uint16_t, VEC, float, false)
REFS(uint64_t, uint64_t, SP, float, false)
OMC_ADD(Cross())
}
