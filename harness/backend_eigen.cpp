// Products through the Eigen functors, Eigen itself is executed as installed.
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#define EIGEN_NO_IO
#define EIGEN_NO_CPUID
#define EIGEN_ASM_COMMENT(X)
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "backend_product.h"
#include "large.h"
HARNESS(eig_dd) { product<DD, DD, EigenI>(0, LIM(2, 3), 0, LIM(2, 3)); } HARNESS(eig_ff) { product<DF, DF, EigenI>(0, LIM(2, 3), 0, LIM(2, 3)); }
template <class A, class B> void mixed(int lo, int hi)
{
    size_t r = sv_size("rows", lo, hi), k = sv_size("inner", lo, hi), c = sv_size("cols", lo, hi); Grid<double> ga, gb, gx; A a = Sym<A>::make("a", r, k, ga); B b = Sym<B>::make("b", k, c, gb); DD x = Sym<DD>::make("x", 1, 2, gx);
    x = (a * b).template execute<EigenI>(); same(gridOf(x), mul(ga, gb), "element of a product"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(eig_fd) { mixed<DF, DD>(0, 2); } HARNESS(eig_df) { mixed<DD, DF>(0, 2); }
HARNESS(reused_d) { reused<Dense, double, EigenI>(); } HARNESS(reused_f) { reused<Dense, float, EigenI>(); }
HARNESS(large_dd) { prod<DD, DD, EigenI>(); } HARNESS(large_ff) { prod<DF, DF, EigenI>(); }
