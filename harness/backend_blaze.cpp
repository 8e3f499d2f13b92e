// Products through the Blaze functors, the library replaced by a stand-in (stubs/blaze/Math.h).
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Blaze.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "backend_product.h"
#include "large.h"
HARNESS(blz_dd) { product<DD, DD, Blaze>(0, LIM(2, 3), 0, LIM(2, 3)); } HARNESS(blz_ff) { product<DF, DF, Blaze>(0, LIM(2, 3), 0, LIM(2, 3)); }
template <class A, class B> void mixed(int lo, int hi)
{
    size_t r = sv_size("rows", lo, hi), k = sv_size("inner", lo, hi), c = sv_size("cols", lo, hi); Grid<double> ga, gb, gx; A a = Sym<A>::make("a", r, k, ga); B b = Sym<B>::make("b", k, c, gb); DD x = Sym<DD>::make("x", 1, 2, gx);
    x = (a * b).template execute<Blaze>(); same(gridOf(x), mul(ga, gb), "element of a product"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(blz_fd) { mixed<DF, DD>(0, 2); } HARNESS(blz_df) { mixed<DD, DF>(0, 2); }
HARNESS(large_dd) { prod<DD, DD, Blaze>(); } HARNESS(large_ff) { prod<DF, DF, Blaze>(); }
