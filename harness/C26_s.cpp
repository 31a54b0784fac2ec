#include "C26.h"
namespace {
GR(int, int, PTR, float, true)
GR(int8_t, int8_t, SP, float, false)
GR(int64_t, int16_t, VEC, double, true)
}
