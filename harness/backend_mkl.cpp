// Products through the Intel MKL functors, the library replaced by a contract-checking reference.
#define WITH_INTELMKL 1
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "backend.h"
#include "backend_product.h"
#include "large.h"
namespace BlasBooster {
void BlasInterface<IntelMKL, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<IntelMKL, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<IntelMKL, dcsrmm>::operator()(const char* a, const int* b, const int* c, const int* d, const double* e, const char* f, const double* g, const int* h, const int* i, const int* j, const double* k, const int* l, const double* m, double* n, const int* o) const { refCsrmm(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o); }
void BlasInterface<IntelMKL, scsrmm>::operator()(const char* a, const int* b, const int* c, const int* d, const float* e, const char* f, const float* g, const int* h, const int* i, const int* j, const float* k, const int* l, const float* m, float* n, const int* o) const { refCsrmm(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o); }
void BlasInterface<IntelMKL, dcsrmultcsr>::operator()(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, double* g, int* h, int* i, double* j, int* k, int* l, double* m, int* n, int* o, const int* p, int* q) const { refCsrmultcsr(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q); }
void BlasInterface<IntelMKL, scsrmultcsr>::operator()(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, float* g, int* h, int* i, float* j, int* k, int* l, float* m, int* n, int* o, const int* p, int* q) const { refCsrmultcsr(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q); }
}
HARNESS(mkl_dd) { product<DD, DD, IntelMKL>(0, LIM(2, 3), 0, LIM(3, 4)); } HARNESS(mkl_ff) { product<DF, DF, IntelMKL>(0, LIM(2, 3), 0, LIM(2, 3)); }
HARNESS(mkl_sd) { product<SD, DD, IntelMKL>(1, 2, 1, 2); } HARNESS(mkl_sf) { product<SF, DF, IntelMKL>(1, 2, 1, 2); } HARNESS(mkl_sd_empty) { product<SD, DD, IntelMKL>(0, 1, 0, 1); }
HARNESS(best_dd) { product<DD, DD, TheBestPolicy>(0, LIM(2, 3), 0, LIM(2, 3)); } HARNESS(best_ff) { product<DF, DF, TheBestPolicy>(0, LIM(2, 3), 0, LIM(2, 3)); }
HARNESS(best_fd) { smallElements(); product<DF, DD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_df) { smallElements(); product<DD, DF, TheBestPolicy>(0, 2, 1, 2); } HARNESS(best_sd) { product<SD, DD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_ds) { product<DD, SD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_zd) { product<ZM, DD, TheBestPolicy>(0, 2, 0, 2); }
HARNESS(reused_d) { reused<Dense, double, IntelMKL>(); } HARNESS(reused_f) { reused<Dense, float, IntelMKL>(); } HARNESS(reused_sd) { reused<Sparse, double, IntelMKL>(); }
HARNESS(dynamic_best) { dynamicBest(); }
template <class S> void sparse2(size_t R, size_t K, size_t C)
{
    size_t r = sv_size("rows", R ? 1 : 0, R), k = sv_size("inner", K ? 1 : 0, K), c = sv_size("cols", C ? 1 : 0, C); Grid<double> ga, gb, gx; S a = Sym<S>::make("a", r, k, ga), b = Sym<S>::make("b", k, c, gb), x = Sym<S>::make("x", 1, 2, gx);
    MultiplicationFunctor<Sparse, typename S::value_type, typename S::parameter, Sparse, typename S::value_type, typename S::parameter, Sparse, typename S::value_type, typename S::parameter, IntelMKL>()(a, b, x);
    structure(x, r, c); same(gridOf(x), mul(ga, gb), "element of a sparse product"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(mkl_ss_222) { sparse2<SD>(2, 2, 2); } HARNESS(mkl_ss_123) { sparse2<SD>(1, 2, LIM(2, 3)); } HARNESS(mkl_ss_321) { sparse2<SD>(LIM(2, 3), 2, 1); } HARNESS(mkl_ss_f) { sparse2<SF>(2, 1, 2); }
HARNESS(mkl_ss_empty) { size_t z = sv_size("empty", 0, 2); sparse2<SD>(z == 0 ? 0 : 2, z == 1 ? 0 : 2, z == 2 ? 0 : 2); }
HARNESS(mkl_ss_expr) { product<SD, SD, IntelMKL>(1, 1, 1, 2); }
HARNESS(large_dd) { prod<DD, DD, IntelMKL>(); } HARNESS(large_ff) { prod<DF, DF, IntelMKL>(); } HARNESS(large_sd) { prod<SD, DD, IntelMKL>(); } HARNESS(large_sdr) { prod<SDR, DDR, IntelMKL>(); } HARNESS(large_ss) { prod<SD, SD, IntelMKL>(); }
