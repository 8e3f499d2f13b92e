// Matrix products through the expression interface against the textbook sum.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#define N LIM(2, 3)
#define NS 2
static Grid<double> mul(Grid<double> const& a, Grid<double> const& b)
{
    Grid<double> g(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { double s = 0; for (size_t k = 0; k < a.c; ++k) s = s + a.v[i][k] * b.v[k][j]; g.v[i][j] = s; } return g;
}
template <class A, class B, class I = Native> void product(int lo, int hi, int lok, int hik)
{
    size_t r = sv_size("rows", lo, hi), k = sv_size("inner", lok, hik), c = sv_size("cols", lo, hi); Grid<double> ga, gb; A a = Sym<A>::make("a", r, k, ga); B b = Sym<B>::make("b", k, c, gb);
    auto x = (a * b).template execute<I>(); structure(x, r, c); same(gridOf(x), mul(ga, gb), "element of a product"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); obs("x", gridOf(x)); sv_reach("end");
}
HARNESS(dd_dd) { product<DD, DD>(0, N, 0, N); } HARNESS(df_dd) { product<DF, DD>(0, N, 0, N); } HARNESS(dd_df) { product<DD, DF>(0, 2, 0, 2); } HARNESS(df_df) { product<DF, DF>(0, N, 0, N); }
HARNESS(dd_sd) { product<DD, SD>(0, 2, 0, 2); } HARNESS(df_sd) { product<DF, SD>(1, 2, 1, 2); } HARNESS(dd_sf) { product<DD, SF>(1, 2, 1, 2); }
HARNESS(sd_dd) { product<SD, DD>(0, 2, 0, 2); } HARNESS(sf_dd) { product<SF, DD>(1, 2, 1, 2); } HARNESS(sd_df) { product<SD, DF>(1, 2, 1, 2); }
HARNESS(sd_sd) { product<SD, SD>(1, 2, 1, 2); } HARNESS(sf_sd) { product<SF, SD>(1, 1, 0, 2); } HARNESS(sd_sd_empty) { product<SD, SD>(0, 1, 0, 1); }
HARNESS(zd) { product<ZM, DD>(0, 2, 0, 2); } HARNESS(dz) { product<DD, ZM>(0, 2, 0, 2); } HARNESS(zs) { product<ZM, SD>(0, 2, 0, 2); } HARNESS(sz) { product<SD, ZM>(0, 2, 0, 2); } HARNESS(zz) { product<ZM, ZM>(0, 2, 0, 2); }
HARNESS(ddr_dd) { product<DDR, DD>(0, 2, 0, 2); } HARNESS(dd_ddr) { product<DD, DDR>(0, 2, 0, 2); } HARNESS(ddr_ddr) { product<DDR, DDR>(0, 2, 0, 2); }
HARNESS(sdr_dd) { product<SDR, DD>(1, 2, 1, 2); } HARNESS(sdr_sdr) { product<SDR, SDR>(1, 2, 1, 1); } HARNESS(ddr_sdr) { product<DDR, SDR>(1, 2, 1, 2); }
HARNESS(best_dd) { product<DD, DD, TheBestPolicy>(0, 2, 0, 2); } HARNESS(best_sd) { product<SD, DD, TheBestPolicy>(1, 2, 1, 2); }
extern "C" void hvt_sd_sd13() { product<SD, SD>(1, 1, 1, 3); } extern "C" void hvt_sd_sd31() { product<SD, SD>(1, 3, 1, 1); } extern "C" void hvt_sd_dd3() { product<SD, DD>(1, 3, 1, 3); } extern "C" void hvt_dd_sd3() { product<DD, SD>(1, 3, 1, 3); }
/// the cursor based variant
HARNESS(cursor)
{
    size_t r = sv_size("rows", 0, 2), k = sv_size("inner", 0, 2), c = sv_size("cols", 0, 2); Grid<double> ga, gb; DD a = Sym<DD>::make("a", r, k, ga); DD b = Sym<DD>::make("b", k, c, gb); DD x;
    GeneralDenseMultiplicationFunctorUsingCursor<double, PC, double, PC, double, PC>()(a, b, x); same(gridOf(x), mul(ga, gb), "element of a product (cursor variant)"); sv_reach("end");
}
/// a result matrix that held something else before
HARNESS(reused_result)
{
    size_t r = sv_size("rows", 1, 2), k = sv_size("inner", 1, 2), c = sv_size("cols", 1, 2); Grid<double> ga, gb, gc; DD a = Sym<DD>::make("a", r, k, ga); DD b = Sym<DD>::make("b", k, c, gb); DD x = Sym<DD>::make("x", 2, 2, gc);
    MultiplicationFunctor<Dense, double, PC, Dense, double, PC, Dense, double, PC, Native>()(a, b, x); same(gridOf(x), mul(ga, gb), "product into a used matrix"); sv_reach("end");
}
// ---- split and dynamic operands
HARNESS(dd_m1) { product<DD, M1>(1, 1, 1, 2); } HARNESS(m1_dd) { product<M1, DD>(1, 1, 1, 2); } HARNESS(dd_m2) { product<DD, M2>(1, 2, 1, 2); } HARNESS(m2_dd) { product<M2, DD>(1, 2, 1, 2); } HARNESS(sd_m1) { product<SD, M1>(1, 1, 2, 2); } HARNESS(m2_sd) { product<M2, SD>(1, 1, 1, 2); }
HARNESS(m1_m1) { product<M1, M1>(1, 1, 1, 1); } HARNESS(m1_m2) { product<M1, M2>(1, 1, 1, 2); } HARNESS(m2_m1) { product<M2, M1>(1, 1, 1, 2); } HARNESS(m2_m2) { product<M2, M2>(1, 2, 1, 1); }
HARNESS(dynamic)
{
    size_t wa = sv_size("A", 0, 6), wb = sv_size("B", 0, 6), r = sv_size("rows", 1, 2), c = 1, k = 1; Grid<double> ga, gb; DynamicMatrix a = dyn(wa, "a", r, k, ga), b = dyn(wb, "b", k, c, gb);
    DynamicMatrix x = (a * b).execute<Native>(); sv_assert(getNbRows(x) == r && getNbColumns(x) == c, "dimensions of a dynamic product"); same(gridDyn(x), mul(ga, gb), "element of a dynamic product"); same(gridDyn(a), ga, "operand unchanged"); same(gridDyn(b), gb, "operand unchanged");
    sv_assert(wa == 0 || wb == 0 ? x->getTypeIndex() == 0 : x->getTypeIndex() != 0, "a product with a zero matrix is a zero matrix"); sv_reach("end");
}
