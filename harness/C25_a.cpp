#include "C25.h"
namespace {
LK(uint32_t, uint32_t, PTR, float, true)
}
