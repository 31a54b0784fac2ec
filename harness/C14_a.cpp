#include "C14.h"
namespace {
TNS(uint32_t, uint32_t, PTR, float, false)
TNS(uint32_t, uint32_t, PTR, float, true)
MNY(uint8_t, uint8_t, SP, float, true)
MNY(uint8_t, uint64_t, PTR, float, false)
}
