#include "C20.h"
namespace {
FT(uint32_t, uint32_t, PTR, float, true)
}
