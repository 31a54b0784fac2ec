#include "C24.h"
namespace {
PP(int, int, VEC, float, true)
PP(int8_t, int16_t, PTR, int, true)
}
