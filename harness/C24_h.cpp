#include "stay.h"
namespace {
STAY(uint64_t, uint16_t, SP, float, false)
}
