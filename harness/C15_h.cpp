#include "stay.h"
namespace {
OMC_ADD(StayTns<uint32_t, uint32_t, PTR, float, true>({T_CHANGE, T_WRITE, T_MAX, T_ASSIGN}));
OMC_ADD(StayTns<uint16_t, uint32_t, VEC, double, true>({T_CHANGE, T_WRITE, T_MAX, T_ASSIGN}));
OMC_ADD(StayTns<uint64_t, uint16_t, SP, float, false>({T_CHANGE, T_WRITE, T_MAX, T_ASSIGN}));
OMC_ADD(StayTns<int, int, PTR, int, true>({T_CHANGE, T_WRITE, T_MAX, T_ASSIGN}));
}
