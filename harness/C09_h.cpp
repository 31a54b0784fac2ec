#include "stay.h"
namespace {
OMC_ADD(StayCsr<uint32_t, uint32_t, PTR, float, true>({R_CHANGE, R_MOVE, R_SORT, R_DEDUP}));
OMC_ADD(StayCsr<uint16_t, uint32_t, VEC, double, true>({R_CHANGE, R_MOVE, R_SORT, R_DEDUP}));
OMC_ADD(StayCsr<uint64_t, uint16_t, SP, float, false>({R_CHANGE, R_MOVE, R_SORT, R_DEDUP}));
OMC_ADD(StayCsr<int, int, PTR, int, true>({R_CHANGE, R_MOVE, R_SORT, R_DEDUP}));
}
