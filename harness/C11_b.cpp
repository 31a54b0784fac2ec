#include "C11.h"
namespace {
REFS(uint16_t, uint64_t, SP, int, true)
REFS(uint64_t, uint32_t, PTR, uint8_t, true)
}
