#include "C07.h"
namespace {
BKF(BIN, uint32_t, uint64_t, PTR, float, uint32_t, uint64_t, PTR, float, false)
BKF(BINAUTO, uint16_t, uint32_t, PTR, double, uint16_t, uint32_t, VEC, double, true)
BK1(OPENFILE, uint64_t, uint16_t, PTR, int, uint64_t, uint16_t, SP, int, true, false, false, false)
BKR(BIN, uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, false)
}
