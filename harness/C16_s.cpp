#include "C16.h"
namespace {
typedef int8_t I8;
BOTH(EL, "coo_i32", l_coo<int, int, PTR, false, false, false, true, int>)
BOTH(GR, "csr_i32", l_csr<int, int, PTR, false, float>)
BOTH(EL, "tensor_i16", l_tns<int16_t, int16_t, VEC, true, int16_t>)
OMC_ADD(Pieces(MM, "csr_i64", l_csr<int64_t, int64_t, SP, true, double>)) OMC_ADD(Pieces(EL, "coo_i16_sym", l_coo<int16_t, int, PTR, true, false, true, true, float>)) OMC_ADD(Pieces(EL, "coo_i8", l_coo<I8, I8, PTR, false, false, false, false, float>))
OMC_ADD(Pieces(EL, "coo_u16_i64", l_coo<uint16_t, int64_t, VEC, false, true, false, true, int64_t>)) OMC_ADD(Pieces(MM, "dig_i32", l_dig<int, int, PTR, true, float>))
OMC_ADD(Narrow(EL, "coo_i8", l_coo<I8, I8, PTR, false, false, false, true, float>, 112));
OMC_ADD(Narrow(EL, "coo_i8_sym", l_coo<int16_t, I8, VEC, true, false, false, true, float>, 112)); OMC_ADD(Narrow(EL, "coo_i8_sym2", l_coo<int16_t, I8, VEC, true, false, false, true, float>, 50));
OMC_ADD(Narrow(EL, "csr_i8", l_csr<I8, I8, VEC, true, int>, 112)); OMC_ADD(Narrow(EL, "digraph_i8", l_dig<I8, int16_t, PTR, false, float>, 112));
OMC_ADD(Narrow(EL, "tensor_i8", l_tns<I8, I8, PTR, true, float>, 112)); OMC_ADD(Narrow(MM, "coo_i8", l_coo<I8, I8, PTR, false, false, false, true, float>, 112));
OMC_ADD(Narrow(MM, "matrix_i8", l_mat<I8, I8, PTR, true, float>, 112)); OMC_ADD(Narrow(MM, "csr_i16_i8", l_csr<int16_t, I8, PTR, true, float>, 112));
OMC_ADD(Narrow(GR, "csr_i8", l_csr<I8, I8, PTR, false, float>, 112)); OMC_ADD(Narrow(GR, "coo_i8", l_coo<I8, int16_t, PTR, false, false, false, false, float>, 112)); OMC_ADD(Narrow(GR, "csr_i16_i8", l_csr<int16_t, I8, SP, false, float>, 112)); OMC_ADD(Narrow(GR, "csr_i8_i16", l_csr<I8, int16_t, VEC, false, float>, 112));
}
