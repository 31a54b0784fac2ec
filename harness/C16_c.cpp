#include "C16.h"
namespace {
BOTH(GR, "csr", l_csr<U, U, PTR, false, float>)
DEEP(GR, "csr", l_csr<U, U, PTR, false, float>)
BOTH(GR, "csr_v", l_csr<B8, Q, VEC, false, float>)
BOTH(GR, "digraph", l_dig<B8, U, SP, false, float>)
OMC_ADD(Narrow(GR, "csr8", l_csr<B8, B8, PTR, false, float>));
OMC_ADD(Narrow(GR, "coo8", l_coo<B8, uint16_t, PTR, false, false, false, false, float>));
BOTH(EL, "tensor", l_tns<U, U, PTR, false, float>)
DEEP(EL, "tensor", l_tns<U, U, PTR, false, float>)
BOTH(EL, "tensor_wf", l_tns<B8, U, VEC, true, float>)
BOTH(EL, "tensor_wi", l_tns<Q, U, SP, true, int>)
DEEP(EL, "tensor_w", l_tns<U, U, PTR, true, int>)
}
