#include "C25.h"
namespace {
LK(uint16_t, uint32_t, PTR, float, false)
}
