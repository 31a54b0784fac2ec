#include "C15.h"
namespace {
TNW(int, int, PTR, float, true)
TNW(int8_t, int16_t, VEC, int8_t, true)
TNW(int64_t, int64_t, SP, int16_t, false)
}
