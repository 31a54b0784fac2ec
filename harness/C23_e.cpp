// FLAGS: -fno-openmp
#define pigo pigo_without_openmp
#include "conf.h"
#ifdef _OPENMP
#error "this unit has to be compiled without OpenMP"
#endif
namespace {
CONF("no OpenMP: u32 pointers", uint32_t, uint32_t, 0, float, true)
CONF("no OpenMP: u16 u64 vectors", uint16_t, uint64_t, 1, double, true)
CONF("no OpenMP: u64 u8 shared pointers, unweighted", uint64_t, uint8_t, 2, float, false)
}
