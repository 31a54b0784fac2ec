#include "C06.h"
namespace {
CV(uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, false)
CV(uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, true)
CV(uint32_t, uint32_t, PTR, int, uint64_t, uint64_t, PTR, double, true)
}
