#include "C16.h"
namespace {
BOTH(EL, "coo", l_coo<U, U, PTR, false, false, false, false, float>)
DEEP(EL, "coo", l_coo<U, U, PTR, false, false, false, false, float>)
BOTH(EL, "coo_wf", l_coo<Q, Q, VEC, false, false, false, true, float>)
BOTH(EL, "coo_wi", l_coo<U, U, SP, false, false, false, true, int>)
BOTH(EL, "coo_sym_wf", l_coo<U, U, PTR, true, false, false, true, double>)
BOTH(EL, "coo_ut_wu", l_coo<U, U, PTR, false, true, false, true, uint8_t>)
BOTH(EL, "coo_sl_wf", l_coo<U, U, PTR, false, false, true, true, float>)
BOTH(EL, "coo_all_wi", l_coo<U, U, PTR, true, true, true, true, int64_t>)
DEEP(EL, "coo_symsl", l_coo<U, U, PTR, true, false, true, false, float>)
OMC_ADD(Narrow(EL, "coo8", l_coo<B8, B8, PTR, false, false, false, true, float>));
OMC_ADD(Narrow(EL, "coo8_sym", l_coo<uint16_t, B8, VEC, true, false, false, true, float>));
}
