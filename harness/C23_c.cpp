#include "conf.h"
namespace {
CONF("i32 vectors", int, int, 1, float, true)
CONF("u64 u8 pointers", uint64_t, uint8_t, 0, float, true)
CONF("u8 u8 shared pointers", uint8_t, uint8_t, 2, double, true)
}
