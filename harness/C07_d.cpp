#include "C07.h"
namespace {
BKF(MEM, uint8_t, uint32_t, PTR, uint8_t, uint8_t, uint32_t, VEC, uint8_t, true)
BKF(MEM, uint8_t, uint8_t, SP, float, uint16_t, uint8_t, PTR, float, false)
BKF(MEM, uint8_t, uint64_t, VEC, int, uint8_t, uint16_t, PTR, int, true)
BKF(MEM, uint32_t, uint8_t, PTR, float, uint8_t, uint32_t, PTR, float, false)
BKF(MEM, uint8_t, uint16_t, VEC, int, uint16_t, uint32_t, SP, int, true)
BKF(BINAUTO, uint8_t, uint16_t, PTR, float, uint8_t, uint16_t, PTR, float, true)
}
