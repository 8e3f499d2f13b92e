// Norms of every matrix kind; caches of norms and occupations over histories of whole-matrix operations.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include <cmath>
static double n1(Grid<double> const& g) { double s = 0; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) s += std::fabs(g.v[i][j]); return s; }
static double ss(Grid<double> const& g) { double s = 0; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) s += g.v[i][j] * g.v[i][j]; return s; }
static double n2(Grid<double> const& g) { return std::sqrt(ss(g)); }
static double nm(Grid<double> const& g) { double s = 0; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) { double a = std::fabs(g.v[i][j]); s = s < a ? a : s; } return s; }
template <class M> void norms(int lim = LIM(2, 3))
{
    size_t r = sv_size("rows", 0, lim), c = sv_size("cols", 0, lim); Grid<double> g; M m = Sym<M>::make("m", r, c, g);
    sv_assert(norm<NormOne>(m) == n1(g), "one-norm is the sum of magnitudes"); sv_assert(norm<NormTwo>(m) == n2(g), "two-norm is the root of the sum of squares"); sv_assert(norm<NormMax>(m) == nm(g), "maximum norm is the largest magnitude");
    same(gridOf(m), g, "matrix unchanged by its norms"); sv_obs_d("n", norm<NormOne>(m)); sv_reach("end");
}
HARNESS(norm_dd) { norms<DD>(); } HARNESS(norm_df) { norms<DF>(); } HARNESS(norm_ddr) { norms<DDR>(); } HARNESS(norm_dfr) { norms<DFR>(); }
HARNESS(norm_sd) { norms<SD>(2); } HARNESS(norm_sf) { norms<SF>(2); } HARNESS(norm_sdr) { norms<SDR>(2); } HARNESS(norm_z) { norms<ZM>(2); }
HARNESS(norm_view)
{
    size_t R = sv_size("R", 1, 3), C = sv_size("C", 1, 3), r = sv_size("r", 0, 3), c = sv_size("c", 0, 3), br = sv_size("br", 0, 2), bc = sv_size("bc", 0, 2); sv_assume(br + r <= R && bc + c <= C && br < R && bc < C);
    Grid<double> e = symGrid<double>("e", R, C, 1000); MK_DENSE(DD, p, e); Matrix<Dense, double, PCS> v(p, r, c, br, bc); Grid<double> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = e.v[br + i][bc + j];
    sv_assert(norm<NormOne>(v) == n1(g), "one-norm of a block view"); sv_assert(norm<NormTwo>(v) == n2(g), "two-norm of a block view"); sv_assert(norm<NormMax>(v) == nm(g), "maximum norm of a block view"); sv_reach("end");
}
template <class M> void splitNorms() { size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, LIM(1, 2)); Grid<double> g; M m = Sym<M>::make("m", r, c, g); sv_assert(norm<NormOne>(m) == n1(g), "one-norm of a split matrix"); sv_assert(norm<NormTwo>(m) == n2(g), "two-norm of a split matrix"); sv_assert(norm<NormMax>(m) == nm(g), "maximum norm of a split matrix"); sv_reach("end"); }
HARNESS(norm_m1) { splitNorms<M1>(); } HARNESS(norm_m2) { splitNorms<M2>(); }
HARNESS(norm_dynamic)
{
    size_t k = sv_size("kind", 0, 6), r = sv_size("rows", 1, 2), c = sv_size("cols", 1, LIM(1, 2)); Grid<double> g; DynamicMatrix m = dyn(k, "m", r, c, g);
    sv_assert(norm<NormOne>(m) == n1(g), "one-norm of a dynamic matrix"); sv_assert(norm<NormTwo>(m) == n2(g), "two-norm of a dynamic matrix"); sv_assert(norm<NormMax>(m) == nm(g), "maximum norm of a dynamic matrix"); sv_reach("end");
}
/// block-wise matrix of 2x1 blocks of different kinds
HARNESS(norm_blocked)
{
    size_t R = sv_size("R", 0, 2), C = sv_size("C", 0, 2), k = sv_size("kind", 0, 6); sv_assume(R * C <= LIM(2, 3) || k == 6); BlockedDenseMatrix b(R, C, 2 * R, C); double s1 = 0, s2 = 0, sq = 0, sm = 0; const size_t h = R * C > 2 ? 1 : 2;
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { Grid<double> g; b(i, j) = dyn((i || j) ? 6 : k, "b", h, 1, g); s1 += n1(g); double q = n2(g); s2 += q * q; sq += ss(g); double x = nm(g); sm = sm < x ? x : sm; }
    sv_assert(norm<NormOne>(b) == s1, "one-norm of a block-wise matrix"); double t2 = norm<NormTwo>(b); sv_assert((t2 == std::sqrt(s2)) | (t2 == std::sqrt(sq)), "two-norm of a block-wise matrix"); sv_assert(norm<NormMax>(b) == sm, "maximum norm of a block-wise matrix"); sv_reach("end");
}
// ---- norm and occupation requested between whole-matrix operations -------------------------------------------------------------
typedef AbsoluteValueRangeChecker<double> CK; typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> CKI;
template <class M> Grid<double> gd(M const& m) { auto e = gridOf(m); Grid<double> g(e.r, e.c); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) g.v[i][j] = e.v[i][j]; return g; }
static size_t above(Grid<double> const& g, double lo, double hi) { size_t n = 0; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) { double a = std::fabs(g.v[i][j]); n += (a > lo) & (a <= hi); } return n; }
template <class M> void query(M const& m, double lo, double hi)
{
    Grid<double> g = gd(m); size_t all = above(g, lo, 1e9), part = above(g, lo, hi);
    sv_assert(m.getNorm() == n2(g), "norm of the current elements");
    sv_assert(m.getNbOfSignificantElements(CK(lo)) == all, "number of significant elements of the current matrix"); sv_assert(m.getNbOfSignificantElements(CKI(lo, hi)) == part, "number of elements inside an interval of the current matrix");
    size_t n = g.r * g.c; double occ = m.getOccupation(CK(lo));
    if (n == 0) { sv_assert(occ == 0.0, "an empty matrix is not occupied"); return; }
    size_t k = (size_t)sv_concretize((int64_t)all); double want = double(k) / double(n);
    sv_assert(occ == want, "occupation is the fraction of significant elements"); sv_assert(!m.isOccupationLargerThan(want, CK(lo)) && !m.isOccupationSmallerThan(want, CK(lo)), "occupation compared with itself");
    if (k) sv_assert(m.isOccupationLargerThan(want - 0.01, CK(lo)), "occupation larger than a smaller value");
}
template <class M> void history(size_t ops, bool inplaceOps)
{
    size_t r = sv_size("rows", LIM(2, 0), 2), c = sv_size("cols", 1, 1); Grid<double> ga, gb; M a = Sym<M>::make("a", r, c, ga), b = Sym<M>::make("b", r, c, gb);
    double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi);
    query(a, lo, hi); if (LIM(1, sv_concretize(sv_int("qb", 0, 1)))) query(b, lo, hi);
    for (size_t n = 0; n < ops; ++n) {
        switch (sv_size("op", 0, inplaceOps ? 7 : 4)) {
        case 0: a = b; break;
        case 1: { M t(b); query(t, lo, hi); a = std::move(t); break; }
        case 2: swap(a, b); break;
        case 3: { M t(std::move(a)); query(t, lo, hi); a = t; break; }
        case 4: { M t(a); query(t, lo, hi); t = std::move(b); query(t, lo, hi); b = a; a = t; break; }
        default: if constexpr (std::is_same<typename M::matrix_type, Dense>::value) {
            size_t k = sv_size("dense op", 0, 3);
            if (k == 0) { a = (typename M::value_type)sv_fd("v", -1000, 1000); } else if (k == 1) a += b; else if (k == 2) a -= b;
            else { typename M::value_type v = (typename M::value_type)sv_fd("v", -1000, 1000); a.resize(2, 1, AllFiller<typename M::value_type>(v)); b.resize(2, 1, AllFiller<typename M::value_type>(v)); }
            n = ops; break; } }
        query(a, lo, hi); query(b, lo, hi);
    }
    sv_reach("end");
}
HARNESS(history_dd) { history<DD>(1, true); } HARNESS(history_dfr) { history<DFR>(1, true); } HARNESS(history_sd) { history<SD>(1, false); } HARNESS(history_sfr) { history<SFR>(1, false); }
/// a matrix whose elements were moved away reports what it holds now, nothing
template <class M> void history_moved()
{
    Grid<double> g, h; M a = Sym<M>::make("a", 2, 1, g), b = Sym<M>::make("b", 1, 1, h); double lo = sv_fd("lo", 0, 1000); CK ck(lo); a.getNorm(); a.getNbOfSignificantElements(ck); b.getNorm();
    size_t op = sv_size("op", 0, 2); if (op == 0) b = std::move(a); else if (op == 1) { M t(std::move(a)); swap(t, b); } else { std::vector<M> v; v.push_back(std::move(a)); swap(v[0], b); }
    sv_assert(a.begin() == a.end(), "a moved matrix holds nothing"); sv_assert(a.getNorm() == 0, "norm after the elements were moved away"); sv_assert(a.getNbOfSignificantElements(ck) == 0, "number of significant elements after the elements were moved away"); query(b, lo, lo + 1); sv_reach("end");
}
HARNESS(moved_dd) { history_moved<DD>(); } HARNESS(moved_dfr) { history_moved<DFR>(); } HARNESS(moved_sd) { history_moved<SD>(); } HARNESS(moved_sfr) { history_moved<SFR>(); }
/// empty matrices, and histories where only one of the operands has been asked before
template <class M> void history_empty()
{
    size_t k = sv_size("shape", 0, 2), ask = sv_size("ask", 0, 3); Grid<double> ga, gb; M a = Sym<M>::make("a", 1, 1, ga), b = Sym<M>::make("b", k == 0 ? 0 : k == 1 ? 2 : 0, k == 0 ? 0 : k == 1 ? 0 : 2, gb);
    double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi);
    if (ask & 1) query(a, lo, hi); if (ask & 2) query(b, lo, hi);
    switch (sv_size("op", 0, 4)) { case 0: a = b; break; case 1: b = a; break; case 2: swap(a, b); break; case 3: { M t(std::move(a)); a = std::move(b); b = t; break; } default: { M t(b); query(t, lo, hi); t = a; query(t, lo, hi); } }
    query(a, lo, hi); query(b, lo, hi); sv_reach("end");
}
HARNESS(history_empty_dd) { history_empty<DD>(); } HARNESS(history_empty_sd) { history_empty<SD>(); }
/// elements written through the matrix after norm and occupation were requested (see known_findings.json)
HARNESS(element_write)
{
    Grid<double> g; DD a = Sym<DD>::make("a", 2, 1, g); (void)a.getNorm(); (void)a.getNbOfSignificantElements(CK(1.0)); a(0, 0) = sv_fd("v", -1000, 1000); Grid<double> h = gd(a);
    sv_assert(a.getNorm() == n2(h), "norm after an element write"); sv_reach("end");
}
HARNESS(element_write_occupation)
{
    Grid<double> g; DD a = Sym<DD>::make("a", 2, 1, g); (void)a.getNbOfSignificantElements(CK(1.0)); a(0, 0) = sv_fd("v", -1000, 1000); Grid<double> h = gd(a);
    sv_assert(a.getNbOfSignificantElements(CK(1.0)) == above(h, 1.0, 1e9), "significant elements after an element write"); sv_reach("end");
}
/// the conversion to a sparse matrix does not rely on a count taken before the elements changed
HARNESS(convert_after_write)
{
    Grid<double> g; DD a = Sym<DD>::make("a", 2, LIM(1, 2), g); double lo = sv_fd("lo", 0, 1000); (void)a.getNbOfSignificantElements(CK(lo)); a(0, 0) = sv_fd("v", -1000, 1000); a(1, 0) = sv_fd("v", -1000, 1000); Grid<double> h = gd(a);
    SD s(a, CK(lo)); checkSparse(s, h.r, h.c); for (size_t i = 0; i < h.r; ++i) for (size_t j = 0; j < h.c; ++j) if (!(std::fabs(h.v[i][j]) > lo)) h.v[i][j] = 0; same(gridOf(s), h, "element of the sparse matrix"); sv_reach("end");
}
/// the dynamic front ends report the values of the matrix behind the pointer
HARNESS(dynamic_front)
{
    static const size_t kinds[5] = {0, 1, 2, 3, 6}; size_t k = kinds[sv_size("kind", 0, 4)], r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g; DynamicMatrix m = dyn(k, "m", r, c, g); double x = sv_fd("x", 0, 1000);
    sv_assert(getNbRows(m) == r && getNbColumns(m) == c && getSize(m) == r * c, "dimensions of a dynamic matrix"); sv_assert(getNorm(m) == n2(g), "norm of a dynamic matrix"); sv_assert(isNormLargerThan(m, x) == (n2(g) > x), "norm comparison of a dynamic matrix"); sv_reach("end");
}
HARNESS(dynamic_split) { size_t k = sv_size("kind", 4, 5), r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g; DynamicMatrix m = dyn(k, "m", r, c, g); sv_assert(getNbRows(m) == r && getNbColumns(m) == c && getSize(m) == r * c, "dimensions of a dynamic matrix"); sv_reach("end"); }
template <class M> bool m_equalBoth(M const& m, double x) { return m.isNormLargerThan(x) & m.isNormSmallerThan(x); }
/// the norm compared with a value, whether or not it has been requested before, and after the whole matrix has changed
template <class M> void normCompare()
{
    size_t r = sv_size("rows", 0, 2), c = sv_size("cols", 1, 1), first = sv_size("first", 0, 3); Grid<double> ga, gb; M a = Sym<M>::make("a", r, c, ga), b = Sym<M>::make("b", r, c, gb); double x = sv_fd("x", -10, 3000), n = n2(ga);
    auto ask = [&](M const& m, double n, size_t how) {
        if (how == 0) { sv_assert(m.isNormLargerThan(x) == (n > x), "norm larger than a value"); }
        else if (how == 1) { sv_assert(m.isNormSmallerThan(x) == (n < x), "norm smaller than a value"); }
        else if (how == 2) { sv_assert(m.getNorm() == n, "norm"); }
    };
    ask(a, n, first); sv_assert(!m_equalBoth(a, x), "norm both larger and smaller than a value");
    size_t op = sv_size("op", 0, 2); if (op == 0) a = b; else if (op == 1) a = std::move(b); else swap(a, b);
    ask(a, n2(gb), sv_size("second", 0, 2)); sv_reach("end");
}
HARNESS(norm_compare_dd) { normCompare<DD>(); } HARNESS(norm_compare_df) { normCompare<DFR>(); } HARNESS(norm_compare_sd) { normCompare<SD>(); }
HARNESS(zero_queries)
{
    size_t r = sv_size("rows", 0, 4), c = sv_size("cols", 0, 4); Matrix<Zero> z(r, c); double x = sv_fd("x", -10, 10), t = sv_fd("t", 0, 10);
    sv_assert(z.getNorm() == 0.0 && z.isNormLargerThan(x) == (0.0 > x) && z.isNormSmallerThan(x) == (0.0 < x), "norm of a zero matrix");
    sv_assert(z.getOccupation(t) == 0.0 && z.isOccupationLargerThan(x, t) == (0.0 > x) && z.isOccupationSmallerThan(x, t) == (0.0 < x), "occupation of a zero matrix"); sv_reach("end");
}
