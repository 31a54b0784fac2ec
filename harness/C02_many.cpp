// C02 narrow types
#include "many.h"
namespace {
using namespace h;
#define MT(...) OMC_ADD(ManyText<__VA_ARGS__>())
MT(uint8_t, uint32_t, PTR, true, false, false, true, float, false)
MT(uint8_t, uint16_t, VEC, true, true, true, true, uint8_t, false)
MT(uint8_t, uint8_t, PTR, false, true, false, false, float, false)
MT(uint8_t, uint8_t, SP, true, false, true, true, double, false)
MT(uint8_t, uint64_t, PTR, false, true, true, true, int, false)
MT(uint8_t, uint32_t, SP, false, false, true, false, float, false)
MT(uint16_t, uint8_t, PTR, true, true, false, true, float, false)
MT(uint16_t, uint16_t, VEC, true, false, false, false, float, false)
MT(uint64_t, uint16_t, PTR, true, true, false, false, float, false)
MT(uint32_t, uint8_t, PTR, true, false, false, true, float, true)
MT(uint8_t, uint32_t, PTR, true, true, true, true, float, true)
MT(int, int, VEC, true, false, true, true, float, false)
MT(int8_t, int8_t, PTR, false, true, false, false, float, false)
MT(int16_t, int8_t, SP, true, true, false, true, int, false)
MT(int64_t, int64_t, PTR, true, false, false, true, double, false)
MT(int, uint32_t, PTR, true, true, true, true, float, true)
MT(int8_t, int16_t, PTR, true, false, true, false, float, true)
}
