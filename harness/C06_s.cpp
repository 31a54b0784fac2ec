#include "C06.h"
namespace {
CV(int, int, VEC, float, int, int, PTR, float, true)
CV(int8_t, int8_t, PTR, int8_t, int8_t, int8_t, SP, int8_t, true)
CV(int16_t, int64_t, SP, float, int16_t, int, VEC, float, false)
CV(int64_t, int16_t, PTR, double, int, int8_t, PTR, double, true)
}
