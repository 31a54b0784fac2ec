#include "C17.h"
namespace {
RC(uint64_t, uint32_t, SP, int, true)
}
