#include "stay.h"
namespace {
OMC_ADD(StayCoo<uint32_t, uint32_t, PTR, float, true>({C_CHANGE, C_TRANSPOSE, C_COPY, C_ASSIGN, C_BACK}));
OMC_ADD(StayCoo<uint16_t, uint32_t, VEC, double, true>({C_CHANGE, C_TRANSPOSE, C_COPY, C_ASSIGN, C_BACK}));
OMC_ADD(StayCoo<uint64_t, uint16_t, SP, float, false>({C_CHANGE, C_TRANSPOSE, C_COPY, C_ASSIGN, C_BACK}));
OMC_ADD(StayCoo<int, int, PTR, int, true>({C_CHANGE, C_TRANSPOSE, C_COPY, C_ASSIGN, C_BACK}));
OMC_ADD(StayTns<uint32_t, uint32_t, PTR, float, true>({T_CHANGE, T_COPY, T_ASSIGN, T_BACK}));
OMC_ADD(StayTns<uint16_t, uint32_t, VEC, double, true>({T_CHANGE, T_COPY, T_ASSIGN, T_BACK}));
OMC_ADD(StayTns<uint64_t, uint16_t, SP, float, false>({T_CHANGE, T_COPY, T_ASSIGN, T_BACK}));
OMC_ADD(StayTns<int, int, PTR, int, true>({T_CHANGE, T_COPY, T_ASSIGN, T_BACK}));
}
