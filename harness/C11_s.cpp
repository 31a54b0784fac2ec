#include "C11.h"
namespace {
REFS(int, int, PTR, float, true)
REFS(int64_t, int64_t, VEC, double, false)
REFS(int16_t, int8_t, SP, int, true)
}
