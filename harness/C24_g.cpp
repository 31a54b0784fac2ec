#include "stay.h"
namespace {
STAY(uint16_t, uint32_t, VEC, double, true)
}
