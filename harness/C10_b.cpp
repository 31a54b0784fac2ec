#include "C10.h"
namespace {
BINS(uint64_t, uint16_t, SP, int, true)
BINS(uint16_t, uint64_t, PTR, uint8_t, true)
}
