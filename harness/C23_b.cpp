#include "conf.h"
namespace {
CONF("u8 u16 vectors", uint8_t, uint16_t, 1, float, true)
CONF("u64 shared pointers", uint64_t, uint64_t, 2, double, true)
CONF("u16 u64 pointers", uint16_t, uint64_t, 0, double, true)
}
