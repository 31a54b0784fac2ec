#include "C12.h"
namespace {
WRS(int, int, VEC, float, true)
WRS(int8_t, int16_t, PTR, int8_t, true)
WRS(int64_t, int64_t, SP, int16_t, false)
}
