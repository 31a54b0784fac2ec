#include "C21.h"
namespace {
ALLK(Coos<int8_t, int8_t, PTR, float, true>)
ALLK(Coos<int64_t, int16_t, SP, int, true, true>)
ALLK(Tens<int, int, VEC, float, true>)
ALLK(Tens<int8_t, int16_t, PTR, int8_t, true>)
}
