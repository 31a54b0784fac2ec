#include "C10.h"
namespace {
BINS(int, int, VEC, float, true)
BINS(int8_t, int16_t, PTR, int8_t, true)
BINS(int16_t, int64_t, SP, double, false)
}
