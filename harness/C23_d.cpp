#include "conf.h"
namespace {
CONF("u32 pointers, unweighted", uint32_t, uint32_t, 0, float, false)
CONF("u8 u64 vectors, unweighted", uint8_t, uint64_t, 1, float, false)
CONF("i64 shared pointers, unweighted", int64_t, int64_t, 2, float, false)
}
