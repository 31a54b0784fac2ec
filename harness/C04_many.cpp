// C04 narrow types
#include "many.h"
namespace {
using namespace h;
#define MT(...) OMC_ADD(ManyText<__VA_ARGS__>())
MT(uint8_t, uint32_t, PTR, false, false, false, true, float, true)
MT(uint8_t, uint16_t, VEC, false, false, false, false, float, true)
MT(uint8_t, uint8_t, PTR, false, false, false, true, double, true)
MT(uint8_t, uint8_t, SP, true, false, false, false, float, true)
MT(uint8_t, uint64_t, PTR, false, true, false, true, int, true)
MT(uint16_t, uint8_t, PTR, false, false, true, true, float, true)
MT(uint32_t, uint16_t, VEC, true, true, false, true, float, true)
MT(uint64_t, uint64_t, PTR, false, false, false, false, float, true)
MT(int, int, VEC, false, false, false, true, float, true)
MT(int8_t, int8_t, PTR, false, false, false, true, double, true)
MT(int16_t, int64_t, SP, true, false, false, false, float, true)
MT(int64_t, int8_t, PTR, false, true, true, true, int, true)
}
