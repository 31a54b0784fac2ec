#include "C16.h"
namespace {
BOTH(MM, "coo", l_coo<U, U, PTR, false, false, false, false, float>)
DEEP(MM, "coo", l_coo<U, U, PTR, false, false, false, false, float>)
BOTH(MM, "coo_wf", l_coo<U, U, VEC, false, false, false, true, float>)
BOTH(MM, "coo_sym_wi", l_coo<U, U, SP, true, false, true, true, int>)
BOTH(MM, "csr_wf", l_csr<B8, uint16_t, PTR, true, float>)
BOTH(MM, "digraph", l_dig<B8, U, VEC, false, float>)
OMC_ADD(Narrow(MM, "coo8", l_coo<B8, B8, PTR, false, false, false, true, float>));
OMC_ADD(Narrow(MM, "csr8", l_csr<B8, B8, PTR, true, float>));
OMC_ADD(Narrow(MM, "matrix8", l_mat<B8, B8, PTR, true, float>));
OMC_ADD(Narrow(EL, "csr8", l_csr<B8, B8, VEC, true, int>));
OMC_ADD(Narrow(EL, "digraph8", l_dig<B8, uint16_t, PTR, false, float>));
OMC_ADD(Narrow(EL, "tensor8", l_tns<B8, B8, PTR, true, float>));
}
