#include "C20.h"
namespace {
FT(uint64_t, uint32_t, SP, int, true)
}
