#include "stay.h"
namespace {
STAY(uint32_t, uint32_t, PTR, float, true)
}
