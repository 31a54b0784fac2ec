#include "C09.h"
namespace {
ALLK(Dedup<uint32_t, uint32_t, PTR, float, false, uint32_t, uint32_t, PTR, float>)
ALLK(Dedup<uint32_t, uint64_t, VEC, double, true, uint32_t, uint64_t, VEC, double>)
ALLK(Dedup<uint64_t, uint32_t, SP, int, true, uint64_t, uint32_t, SP, int>)
}
