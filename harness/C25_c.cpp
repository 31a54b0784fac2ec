#include "C25.h"
namespace {
LK(uint64_t, uint32_t, SP, int, true)
}
