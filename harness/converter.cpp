// Threshold settings and the selection of the matrix type by significance and occupation.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/Threshold.h"
#include <cmath>
/// one independent value per setting: v[type][0] single, v[type][1] double precision; types in the order of `dyn`
struct Vals { double sigF, sigD, occ[7][2]; };
static ThresholdSettings record(Vals const& v)
{
    ThresholdSettings s;
    s.significanceThresholdSinglePrecision = v.sigF; s.significanceThresholdDoublePrecision = v.sigD;
    s.occupationThresholdMatrixZeroSinglePrecision = v.occ[0][0]; s.occupationThresholdMatrixZeroDoublePrecision = v.occ[0][1];
    s.occupationThresholdMatrixSparseFloatSinglePrecision = v.occ[1][0]; s.occupationThresholdMatrixSparseFloatDoublePrecision = v.occ[1][1];
    s.occupationThresholdMatrixDenseFloatSinglePrecision = v.occ[2][0]; s.occupationThresholdMatrixDenseFloatDoublePrecision = v.occ[2][1];
    s.occupationThresholdMatrixSparseDoubleSinglePrecision = v.occ[3][0]; s.occupationThresholdMatrixSparseDoubleDoublePrecision = v.occ[3][1];
    s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = v.occ[4][0]; s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision = v.occ[4][1];
    s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = v.occ[5][0]; s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision = v.occ[5][1];
    s.occupationThresholdMatrixDenseDoubleSinglePrecision = v.occ[6][0]; s.occupationThresholdMatrixDenseDoubleDoublePrecision = v.occ[6][1];
    return s;
}
template <class M> void routed(Threshold const& t, Vals const& v, int k)
{
    sv_assert(sv_same(t.getOccupationThreshold<M, float>(), v.occ[k][0]), "occupation threshold in single precision is the setting of its matrix type");
    sv_assert(sv_same(t.getOccupationThreshold<M, double>(), v.occ[k][1]), "occupation threshold in double precision is the setting of its matrix type");
}
static void routedAll(Threshold const& t, Vals const& v)
{
    sv_assert(sv_same(t.getSignificanceThreshold<float>(), v.sigF), "significance threshold of single precision"); sv_assert(sv_same(t.getSignificanceThreshold<double>(), v.sigD), "significance threshold of double precision");
    routed<ZM>(t, v, 0); routed<SF>(t, v, 1); routed<DF>(t, v, 2); routed<SD>(t, v, 3); routed<M1>(t, v, 4); routed<M2>(t, v, 5); routed<DD>(t, v, 6);
}
static Vals rawVals(const char* n) { Vals v; v.sigF = sv_rawd(n); v.sigD = sv_rawd(n); for (int k = 0; k < 7; ++k) { v.occ[k][0] = sv_rawd(n); v.occ[k][1] = sv_rawd(n); } return v; }
HARNESS(settings)
{
    Vals v = rawVals("v"), w = rawVals("w"); ThresholdSettings s = record(v); int a = sv_i32("min"), b = sv_i32("max"); s.min_block_size = a; s.max_block_size = b;
    Threshold t(s); routedAll(t, v); sv_assert(t.get_min_block_size() == a && t.get_max_block_size() == b, "block sizes are the settings");
    Threshold u(t), x(record(w)); routedAll(u, v); x = t; routedAll(x, v); sv_assert(x.get_min_block_size() == a && x.get_max_block_size() == b, "block sizes are copied"); Threshold y(record(w)); routedAll(y, w); t = y; routedAll(t, w); routedAll(u, v); Threshold& r = u; u = r; routedAll(u, v); sv_reach("end");
}
static double mag(double d) { return d < 0 ? -d : d; }
static int kindOf(DynamicMatrix const& d)
{
    const MatrixBase* p = d.get(); return dynamic_cast<const ZM*>(p) ? 0 : dynamic_cast<const SF*>(p) ? 1 : dynamic_cast<const DF*>(p) ? 2 : dynamic_cast<const SD*>(p) ? 3 : dynamic_cast<const M1*>(p) ? 4 : dynamic_cast<const M2*>(p) ? 5 : dynamic_cast<const DD*>(p) ? 6 : 7;
}
template <class M> void structured(DynamicMatrix const& d, size_t r, size_t c) { structure(static_cast<const M&>(*d), r, c); }
static void judge(DynamicMatrix const& d, Grid<double> const& g, Vals const& v, int want)
{
    int k = kindOf(d); sv_assert(k == want, "the first matrix type whose occupation thresholds admit the matrix is selected"); if (k != want) return;
    sv_assert(getNbRows(d) == g.r && getNbColumns(d) == g.c, "converted matrix has the dimensions of the source");
    if (k == 1) structured<SF>(d, g.r, g.c); if (k == 3) structured<SD>(d, g.r, g.c);
    Grid<double> out = gridDyn(d);
    for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) {
        bool single = k == 1 || k == 2 || ((k == 4 || k == 5) && mag(g.v[i][j]) <= v.sigF); double x = single ? double(float(g.v[i][j])) : g.v[i][j], e = k == 0 ? 0 : (k == 2 || k == 6) ? x : mag(g.v[i][j]) > v.sigD ? x : 0;
        sv_assert(out.v[i][j] == e, "converted matrix keeps exactly the significant elements");
    }
    if (k == 4 || k == 5) { auto h = k == 4 ? gridOf(static_cast<const M1&>(*d).getMatrix1()) : gridOf(static_cast<const M2&>(*d).getMatrix1());
        for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) sv_assert(h.v[i][j] == (mag(g.v[i][j]) > v.sigF ? g.v[i][j] : 0), "the double precision summand holds the elements above the single precision threshold"); }
}
template <class M> void convertOne(M const& m, Grid<double> const& g, Vals const& v)
{
    size_t nd = 0, nf = 0, n = g.r * g.c; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) { nd += mag(g.v[i][j]) > v.sigD; nf += mag(g.v[i][j]) > v.sigF; }
    nd = sv_concretize(nd); nf = sv_concretize(nf); double od = n ? double(nd) / double(n) : 0, of = n ? double(nf) / double(n) : 0;
    int want = 7; for (int k = 6; k >= 0; --k) { int ok = (od <= v.occ[k][1]) & (of <= v.occ[k][0]); want += ok * (k - want); }
    bool threw = false; Threshold t(record(v));
    try { DynamicMatrix d = MatrixConverter()(m, t); judge(d, g, v, want); } catch (CoreException&) { threw = true; }
    sv_assert(threw == (want == 7), "conversion fails exactly when no type admits the matrix"); same(gridOf(m), g, "source unchanged");
}
/// thresholds in quarters, some of them below zero or above one
static Vals symVals(size_t lo, size_t hi)
{
    Vals v; v.sigD = sv_fd("sigD", 0, 20000001) / 4; v.sigF = sv_fd("sigF", 0, 20000001) / 4; sv_assume(v.sigD < v.sigF);
    for (size_t k = 0; k < 7; ++k) for (int p = 0; p < 2; ++p) v.occ[k][p] = k < lo ? -1.0 : k > hi ? 2.0 : sv_fd("occ", -1, 5) / 4; return v;
}
static void positive(Grid<double> const& g) { for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) sv_assume(g.v[i][j] >= 0); }
template <class M> void convert()
{
    size_t r = sv_size("rows", 0, LIM(1, 2)), c = sv_size("cols", 0, 1); Grid<double> g; M m = Sym<M>::make("m", r, c, g); if (r * c > 1) positive(g); Vals v = symVals(0, 6); convertOne(m, g, v); sv_reach("end");
}
HARNESS(convert_dd) { convert<DD>(); } HARNESS(convert_df) { convert<DF>(); } HARNESS(convert_ddr) { convert<DDR>(); }
/// bigger matrices for each target type on its own
template <class M> void target(bool neg) { size_t k = sv_size("target", 0, 6), r = sv_size("rows", 1, 2), c = neg ? 1 : r == 1 ? 4 : 2; Grid<double> g; M m = Sym<M>::make("m", r, c, g); if (!neg) positive(g); Vals v = symVals(k, k); if (LIM(!neg, false)) { sv_assume(g.v[0][0] > v.sigF); sv_assume(g.v[r - 1][c - 1] <= v.sigD); } convertOne(m, g, v); sv_reach("end"); }
HARNESS(target_dd) { target<DD>(false); } HARNESS(target_ddr) { target<DDR>(false); } HARNESS(target_sign_dd) { target<DD>(true); } HARNESS(target_sign_df) { target<DF>(true); }
/// the settings everybody starts with admit every matrix
HARNESS(defaults)
{
    Threshold t; size_t r = sv_size("rows", 0, 2), c = sv_size("cols", 0, LIM(1, 2)); Grid<double> g; DD m = Sym<DD>::make("m", r, c, g); DynamicMatrix d = MatrixConverter()(m, t); same(gridDyn(d), g, "default settings keep every integer element"); sv_reach("end");
}
/// block views convert like the block
HARNESS(convert_view)
{
    size_t br = sv_size("br", 0, 1), bc = sv_size("bc", 0, 1); Grid<double> e = symGrid<double>("e", 3, 2, 1000); MK_DENSE(DD, p, e); typedef Matrix<Dense, double, PCS> V; V m(p, 2, 1, br, bc); Grid<double> g(2, 1); g.v[0][0] = e.v[br][bc]; g.v[1][0] = e.v[br + 1][bc]; positive(g);
    size_t k = sv_size("target", 0, 6); Vals v = symVals(k, k); convertOne(m, g, v); sv_reach("end");
}
