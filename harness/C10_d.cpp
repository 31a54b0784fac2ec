#include "C10.h"
namespace {
BINS(uint8_t, uint32_t, VEC, uint8_t, true)
BINS(uint8_t, uint8_t, PTR, double, true)
BINS(uint8_t, uint16_t, SP, float, false)
}
