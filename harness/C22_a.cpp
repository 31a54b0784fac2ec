#include "C22.h"
namespace {
OMC_ADD(Auto<uint32_t, uint32_t, PTR, float, false>())
OMC_ADD(Auto<uint32_t, uint64_t, SP, double, true>())
}
