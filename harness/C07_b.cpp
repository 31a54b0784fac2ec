#include "C07.h"
namespace {
BKF(MEM, uint32_t, uint64_t, VEC, int, uint64_t, uint64_t, VEC, double, true)
BKF(MEM, uint16_t, uint32_t, SP, double, uint32_t, uint16_t, PTR, int64_t, true)
BK1(MEM, uint64_t, uint32_t, VEC, float, uint32_t, uint32_t, SP, float, false, false, false, false)
}
