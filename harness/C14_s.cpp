#include "C14.h"
namespace {
TNS(int, int, VEC, float, true)
MNY(int8_t, int8_t, PTR, float, true)
MNY(int64_t, int16_t, SP, float, false)
MNY(int16_t, int64_t, PTR, int, true)
}
