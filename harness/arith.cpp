// Sums and differences of every pair of matrix kinds.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#define N LIM(2, 3)
#define NS 2
Grid<double> sum(Grid<double> a, Grid<double> const& b, int sign) { for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) a.v[i][j] = sign > 0 ? a.v[i][j] + b.v[i][j] : a.v[i][j] - b.v[i][j]; return a; }
template <class A, class B> void addsub(int lo = 0, int lim = N)
{
    size_t r = sv_size("rows", lo, lim), c = sv_size("cols", lo, lim); Grid<double> ga, gb; A a = Sym<A>::make("a", r, c, ga); B b = Sym<B>::make("b", r, c, gb);
    bool plus = sv_concretize(sv_int("plus", 0, 1)) != 0;
    if (plus) { auto x = a + b; structure(x, r, c); same(gridOf(x), sum(ga, gb, 1), "element of a sum"); obs("x", gridOf(x)); }
    else { auto x = a - b; structure(x, r, c); same(gridOf(x), sum(ga, gb, -1), "element of a difference"); obs("x", gridOf(x)); }
    same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
template <class A, class B> void inplace(int lo = 0, int lim = N)
{
    size_t r = sv_size("rows", lo, lim), c = sv_size("cols", lo, lim); Grid<double> ga, gb; A a = Sym<A>::make("a", r, c, ga); B b = Sym<B>::make("b", r, c, gb);
    bool plus = sv_concretize(sv_int("plus", 0, 1)) != 0; A* p = plus ? &(a += b) : &(a -= b); sv_assert(p == &a, "in-place operation returns its target");
    structure(a, r, c); same(gridOf(a), sum(ga, gb, plus ? 1 : -1), plus ? "element of an in-place sum" : "element of an in-place difference"); same(gridOf(b), gb, "operand unchanged"); obs("a", gridOf(a)); sv_reach("end");
}
HARNESS(dd_dd) { addsub<DD, DD>(); } HARNESS(df_df) { addsub<DF, DF>(); } HARNESS(dd_df) { addsub<DD, DF>(); } HARNESS(df_dd) { addsub<DF, DD>(); } HARNESS(ddr_dfr) { addsub<DDR, DFR>(); }
HARNESS(sd_sd) { addsub<SD, SD>(0, NS); } HARNESS(sf_sd) { addsub<SF, SD>(1, NS); } HARNESS(sdr_sdr) { addsub<SDR, SDR>(0, NS); } HARNESS(sd_sf) { addsub<SD, SF>(1, NS); }
HARNESS(dd_sd) { addsub<DD, SD>(); } HARNESS(df_sd) { addsub<DF, SD>(); } HARNESS(dd_sf) { addsub<DD, SF>(); } HARNESS(ddr_sdr) { addsub<DDR, SDR>(); }
HARNESS(sd_dd) { addsub<SD, DD>(); } HARNESS(sf_dd) { addsub<SF, DD>(); } HARNESS(sd_df) { addsub<SD, DF>(); } HARNESS(sdr_ddr) { addsub<SDR, DDR>(); }
HARNESS(dd_z) { addsub<DD, ZM>(); } HARNESS(z_dd) { addsub<ZM, DD>(); } HARNESS(sd_z) { addsub<SD, ZM>(); } HARNESS(z_sd) { addsub<ZM, SD>(); } HARNESS(z_z) { addsub<ZM, ZM>(); } HARNESS(z_df) { addsub<ZM, DF>(); } HARNESS(zr_ddr) { addsub<ZMR, DDR>(); }
HARNESS(in_dd_dd) { inplace<DD, DD>(); } HARNESS(in_df_df) { inplace<DF, DF>(); } HARNESS(in_dd_df) { inplace<DD, DF>(); } HARNESS(in_ddr_ddr) { inplace<DDR, DDR>(); } HARNESS(in_dd_sd) { inplace<DD, SD>(); } HARNESS(in_dd_sf) { inplace<DD, SF>(); } HARNESS(in_ddr_sdr) { inplace<DDR, SDR>(); } HARNESS(in_dd_z) { inplace<DD, ZM>(); } HARNESS(in_sd_z) { inplace<SD, ZM>(); } HARNESS(in_z_z) { inplace<ZM, ZM>(); }
HARNESS(di_di)
{
    size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N); Grid<int> g = symGrid<int>("a", r, c, 1000), h = symGrid<int>("b", r, c, 1000); MK_DENSE(DI, a, g); MK_DENSE(DI, b, h); auto x = a + b; auto y = a - b;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { sv_assert(x(i, j) == g.v[i][j] + h.v[i][j], "element of a sum"); sv_assert(y(i, j) == g.v[i][j] - h.v[i][j], "element of a difference"); } sv_reach("end");
}
HARNESS(si_si)
{
    size_t r = sv_size("rows", 1, NS), c = sv_size("cols", 1, NS); Grid<int> g = symGrid<int>("a", r, c, 1000), h = symGrid<int>("b", r, c, 1000); Pat<int> p = symPat<int>("pa", r, c), q = symPat<int>("pb", r, c); SI a = mkSparse<SI>(g, p), b = mkSparse<SI>(h, q); g = masked(g, p); h = masked(h, q); auto x = a + b; auto y = a - b; checkSparse(x, r, c); checkSparse(y, r, c); Grid<int> gx = gridOf(x), gy = gridOf(y);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { sv_assert(gx.v[i][j] == g.v[i][j] + h.v[i][j], "element of a sum"); sv_assert(gy.v[i][j] == g.v[i][j] - h.v[i][j], "element of a difference"); } sv_reach("end");
}
// ---- split matrices
HARNESS(dd_m1) { addsub<DD, M1>(1, 2); } HARNESS(m1_dd) { addsub<M1, DD>(1, 2); } HARNESS(dd_m2) { addsub<DD, M2>(1, 2); } HARNESS(m2_dd) { addsub<M2, DD>(1, 2); } HARNESS(sd_m2) { addsub<SD, M2>(1, NS - 1); } HARNESS(m2_sd) { addsub<M2, SD>(1, NS - 1); }
template <class A, class B> void split()
{
    size_t r = sv_size("rows", 1, 2), c = 1; Grid<double> ga, gb; A a = Sym<A>::make("a", r, c, ga); B b = Sym<B>::make("b", r, c, gb);
    auto x = a + b; auto y = a - b; same(gridOf(x), sum(ga, gb, 1), "sum of two split matrices"); same(gridOf(y), sum(ga, gb, -1), "difference of two split matrices"); sv_reach("end");
}
HARNESS(m1_m1) { split<M1, M1>(); } HARNESS(m1_m2) { split<M1, M2>(); } HARNESS(m2_m1) { split<M2, M1>(); } HARNESS(m2_m2) { split<M2, M2>(); }
HARNESS(in_dd_m1) { inplace<DD, M1>(1, 2); } HARNESS(in_dd_m2) { inplace<DD, M2>(1, 2); }
// ---- dynamic matrices: every pair of the type list
HARNESS(dynamic)
{
    size_t wa = sv_size("A", 0, 6), wb = sv_size("B", 0, 6), r = LIM(1, 2), c = 1; Grid<double> ga, gb; DynamicMatrix a = dyn(wa, "a", r, c, ga), b = dyn(wb, "b", r, c, gb);
    DynamicMatrix x = a + b, y = a - b; sv_assert(getNbRows(x) == r && getNbColumns(x) == c, "dimensions of a dynamic sum");
    same(gridDyn(x), sum(ga, gb, 1), "element of a dynamic sum"); same(gridDyn(y), sum(ga, gb, -1), "element of a dynamic difference"); same(gridDyn(a), ga, "operand unchanged"); same(gridDyn(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(dynamic_inplace)
{
    size_t wa = sv_size("A", 0, 1) ? 6 : 2, wb = sv_size("B", 0, 6), r = LIM(1, 2), c = 1; if (wa == 2) smallElements(); Grid<double> ga, gb; DynamicMatrix a = dyn(wa, "a", r, c, ga), b = dyn(wb, "b", r, c, gb);
    bool plus = sv_concretize(sv_int("plus", 0, 1)) != 0; DynamicMatrix x = plus ? a += b : a -= b; sv_assert(x.get() == a.get(), "in-place dynamic operation returns its target");
    same(gridDyn(a), sum(ga, gb, plus ? 1 : -1), "element of an in-place dynamic operation"); same(gridDyn(b), gb, "operand unchanged"); sv_reach("end");
}
// ---- in-place on a split matrix with dense summands
typedef MultipleMatrix<DD, DF> MDD;
template <class B> void inplaceSplit()
{
    size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, LIM(1, 2)); Grid<double> ga, gb; MDD a = Sym<MDD>::make("a", r, c, ga); B b = Sym<B>::make("b", r, c, gb);
    bool plus = sv_concretize(sv_int("plus", 0, 1)) != 0; MDD* p = plus ? &(a += b) : &(a -= b); sv_assert(p == &a, "in-place operation returns its target");
    same(gridOf(a), sum(ga, gb, plus ? 1 : -1), plus ? "in-place sum on a split matrix" : "in-place difference on a split matrix"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(in_mdd_dd) { inplaceSplit<DD>(); } HARNESS(in_mdd_sd) { inplaceSplit<SD>(); } HARNESS(in_mdd_z) { inplaceSplit<ZM>(); } HARNESS(in_mdd_mdd) { inplaceSplit<MDD>(); } HARNESS(in_mdd_m2) { inplaceSplit<M2>(); }
