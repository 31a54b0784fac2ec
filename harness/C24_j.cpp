#include "stay.h"
namespace {
STAY(uint8_t, uint8_t, VEC, float, true)
}
