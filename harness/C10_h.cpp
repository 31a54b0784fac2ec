#include "stay.h"
namespace {
OMC_ADD(StayCoo<uint32_t, uint32_t, PTR, float, true>({C_CHANGE, C_SAVE, C_RELOAD, C_ASSIGN}));
OMC_ADD(StayCoo<uint16_t, uint32_t, VEC, double, true>({C_CHANGE, C_SAVE, C_RELOAD, C_ASSIGN}));
OMC_ADD(StayCoo<uint64_t, uint16_t, SP, float, false>({C_CHANGE, C_SAVE, C_RELOAD, C_ASSIGN}));
OMC_ADD(StayCsr<uint32_t, uint32_t, PTR, float, true>({R_CHANGE, R_MOVE, R_SAVE, R_TWICE, R_RELOAD}));
OMC_ADD(StayCsr<uint16_t, uint32_t, VEC, double, true>({R_CHANGE, R_MOVE, R_SAVE, R_TWICE, R_RELOAD}));
OMC_ADD(StayCsr<uint64_t, uint16_t, SP, float, false>({R_CHANGE, R_MOVE, R_SAVE, R_TWICE, R_RELOAD}));
OMC_ADD(StayTns<uint32_t, uint32_t, PTR, float, true>({T_CHANGE, T_SAVE, T_RELOAD, T_ASSIGN}));
OMC_ADD(StayTns<uint16_t, uint32_t, VEC, double, true>({T_CHANGE, T_SAVE, T_RELOAD, T_ASSIGN}));
OMC_ADD(StayTns<uint64_t, uint16_t, SP, float, false>({T_CHANGE, T_SAVE, T_RELOAD, T_ASSIGN}));
}
