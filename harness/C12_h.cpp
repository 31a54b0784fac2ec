#include "stay.h"
namespace {
OMC_ADD(StayCoo<uint32_t, uint32_t, PTR, float, true>({C_CHANGE, C_TRANSPOSE, C_WRITE, C_ASSIGN}));
OMC_ADD(StayCoo<uint16_t, uint32_t, VEC, double, true>({C_CHANGE, C_TRANSPOSE, C_WRITE, C_ASSIGN}));
OMC_ADD(StayCoo<uint64_t, uint16_t, SP, float, false>({C_CHANGE, C_TRANSPOSE, C_WRITE, C_ASSIGN}));
OMC_ADD(StayCoo<int, int, PTR, int, true>({C_CHANGE, C_TRANSPOSE, C_WRITE, C_ASSIGN}));
}
