#include "C07.h"
namespace {
BKF(MEM, int, int, VEC, float, int, int, PTR, float, true)
BKF(MEM, int8_t, int8_t, PTR, int8_t, int8_t, int16_t, SP, int8_t, true)
BKF(BIN, int16_t, int64_t, PTR, float, int16_t, int64_t, VEC, float, false)
BKF(MEM, int64_t, int16_t, SP, double, int, int, PTR, double, true)
}
