#include "C20.h"
namespace {
FT(uint16_t, uint32_t, PTR, float, false)
}
