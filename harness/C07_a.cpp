#include "C07.h"
namespace {
BKF(MEM, uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, false)
BKF(MEM, uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, true)
BKR(MEM, uint32_t, uint32_t, PTR, float, uint32_t, uint32_t, PTR, float, true)
}
