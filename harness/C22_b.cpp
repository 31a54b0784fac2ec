#include "C22.h"
namespace {
OMC_ADD(Auto<uint16_t, uint32_t, VEC, int, true>())
}
