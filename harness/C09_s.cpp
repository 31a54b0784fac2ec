#include "C09.h"
namespace {
ALLK(Sort<int, int, VEC, float, true>)
ALLK(Sort<int8_t, int16_t, PTR, int8_t, true>)
ALLK(Dedup<int, int, PTR, float, true, int, int, VEC, float>)
ALLK(Dedup<int8_t, int8_t, SP, int, true, int16_t, int64_t, PTR, int>)
}
