#include "C08.h"
namespace {
TW(DIGRAPH, uint32_t, uint32_t, PTR, float, false, MEM)
TW(DIGRAPH, uint32_t, uint32_t, PTR, double, true, EL)
TW(DIGRAPH, uint64_t, uint64_t, SP, int, true, MM)
TW(DIGRAPH, uint32_t, uint64_t, PTR, float, true, DGBIN)
}
