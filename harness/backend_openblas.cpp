// Products through the OpenBLAS functors, the library replaced by a contract-checking reference.
#define WITH_OPENBLAS 1
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "backend.h"
#include "backend_product.h"
#include "large.h"
namespace BlasBooster {
void BlasInterface<OpenBLAS, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<OpenBLAS, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
}
HARNESS(ob_dd) { product<DD, DD, OpenBLAS>(0, LIM(2, 3), 0, LIM(3, 4)); } HARNESS(ob_ff) { product<DF, DF, OpenBLAS>(0, LIM(2, 3), 0, LIM(2, 3)); }
HARNESS(best_dd) { product<DD, DD, TheBestPolicy>(0, LIM(2, 3), 0, LIM(2, 3)); } HARNESS(best_ff) { product<DF, DF, TheBestPolicy>(0, LIM(2, 3), 0, LIM(2, 3)); }
HARNESS(best_fd) { product<DF, DD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_sd) { product<SD, DD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_ds) { product<DD, SD, TheBestPolicy>(1, 2, 1, 2); } HARNESS(best_zd) { product<ZM, DD, TheBestPolicy>(0, 2, 0, 2); }
HARNESS(reused_d) { reused<Dense, double, OpenBLAS>(); } HARNESS(reused_f) { reused<Dense, float, OpenBLAS>(); } HARNESS(reused_best) { reused<Dense, double, TheBestPolicy>(); }
HARNESS(dynamic_best) { dynamicBest(); }
HARNESS(large_dd) { prod<DD, DD, OpenBLAS>(); } HARNESS(large_ff) { prod<DF, DF, OpenBLAS>(); } HARNESS(large_best) { prod<DD, DD, TheBestPolicy>(); } HARNESS(large_best_sd) { prod<SD, DD, TheBestPolicy>(); }
