// Conversions between matrix kinds keep every element (or exactly the significant ones).
#include "bb.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include <memory>
#define N LIM(3, 4)
#define NS LIM(2, 3)
// ---- dense -> dense
template <class A, class B> void d2d()
{
    typedef typename A::value_type T;
    size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N); Grid<T> g = symGrid<T>("e", r, c, 1000000); MK_DENSE(A, a, g);
    B b(a); Grid<typename B::value_type> h(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) h.v[i][j] = typename B::value_type(g.v[i][j]);
    sv_assert(b.getSize() == r * c, "size of a converted matrix"); same(gridOf(b), h, "converted dense element"); same(gridOf(a), g, "conversion leaves the source unchanged");
    B x(1, 1); x = B(a); same(gridOf(x), h, "assigned converted matrix"); obs("b", gridOf(b)); sv_reach("end");
}
HARNESS(dd_df) { d2d<DD, DF>(); } HARNESS(df_dd) { d2d<DF, DD>(); } HARNESS(ddr_dfr) { d2d<DDR, DFR>(); } HARNESS(dd_ddr) { d2d<DD, DDR>(); } HARNESS(ddr_dd) { d2d<DDR, DD>(); }
HARNESS(dd_dfr) { d2d<DD, DFR>(); } HARNESS(dfr_dd) { d2d<DFR, DD>(); } HARNESS(di_dd) { d2d<DI, DD>(); } HARNESS(dd_di) { d2d<DD, DI>(); } HARNESS(dir_dd) { d2d<DIR_, DD>(); }
/// bit exactness of copies (every IEEE value)
template <class A, class B> void bits()
{
    typedef typename A::value_type T; size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 3); Grid<T> g = rawGrid<T>("e", r, c); MK_DENSE(A, a, g);
    B b(a); A k(a); B d(r, c); copy(a, d);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(b(i, j), g.v[i][j]) && sv_same(k(i, j), g.v[i][j]) && sv_same(d(i, j), g.v[i][j]), "copied element has the same bits");
    sv_reach("end");
}
HARNESS(bits_dd) { bits<DD, DDR>(); } HARNESS(bits_dfr) { bits<DFR, DF>(); } HARNESS(bits_dd_dd) { bits<DD, DD>(); }
// ---- block view -> dense, with the threshold deciding which elements survive
template <class B> void fromView()
{
    size_t R = sv_size("R", 1, N), C = sv_size("C", 1, N), nr = sv_size("nr", 1, R), nc = sv_size("nc", 1, C), br = sv_size("br", 0, R - nr), bc = sv_size("bc", 0, C - nc);
    Grid<double> g = symGrid<double>("e", R, C, 1000000); MK_DENSE(DD, m, g); Matrix<Dense, double, PCS> v(m, nr, nc, br, bc);
    B b(v); sv_assert(b.getNbRows() == nr && b.getNbColumns() == nc && b.getSize() == nr * nc, "dimensions of a copied block");
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) sv_assert(double(b(i, j)) == g.v[br + i][bc + j], "element of a copied block");
    b(0, 0) = 1; same(gridOf(m), g, "a copied block is independent"); sv_reach("end");
}
HARNESS(view_dd) { fromView<DD>(); } HARNESS(view_df) { fromView<DF>(); }
/// explicit filters act on every dense conversion, no filter keeps every bit
template <class A, class B> void filtered()
{
    typedef typename A::value_type T; typedef typename B::value_type U; const int K = LIM(2, 3); size_t r = sv_size("rows", 0, K), c = sv_size("cols", 0, 2); Grid<T> g = symGrid<T>("a", r, c, 1000); MK_DENSE(A, a, g);
    double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi); bool range = sv_concretize(sv_int("range", 0, 1)) != 0;
    B b = range ? B(a, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi)) : B(a, AbsoluteValueRangeChecker<double>(lo));
    Grid<U> x = gridOf(b); sv_assert(x.r == r && x.c == c, "dimensions of a filtered copy");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double m = std::fabs(double(g.v[i][j])); bool keep = m > lo; if (range) keep = keep & (m <= hi); if (keep) sv_assert(x.v[i][j] == U(g.v[i][j]), "significant element kept by a filter"); else sv_assert(x.v[i][j] == U(0), "insignificant element becomes zero"); }
    same(gridOf(a), g, "source unchanged by a filtered copy"); obs("b", x); sv_reach("end");
}
HARNESS(filter_dd_df) { filtered<DD, DF>(); } HARNESS(filter_dd_dfr) { filtered<DD, DFR>(); } HARNESS(filter_dfr_dd) { filtered<DFR, DD>(); } HARNESS(filter_ddr_dfr) { filtered<DDR, DFR>(); }
HARNESS(bits_view)
{
    size_t R = sv_size("R", 1, 2), C = sv_size("C", 1, 2), r = sv_size("r", 0, 2), c = sv_size("c", 0, 2), br = sv_size("br", 0, 1), bc = sv_size("bc", 0, 1); sv_assume(br + r <= R && bc + c <= C);
    Grid<double> g = rawGrid<double>("a", R, C); MK_DENSE(DD, a, g); Matrix<Dense, double, PCS> v(a, r, c, br, bc); DD b(v); const double* p = b.getDataPointer();
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(p[i + j * r], g.v[br + i][bc + j]), "copy of a view keeps every bit"); sv_reach("end");
}
HARNESS(view_threshold)
{
    size_t nr = sv_size("nr", 1, 2), nc = sv_size("nc", 1, 2); Grid<double> g = symGrid<double>("e", 3, 3, 1000); MK_DENSE(DD, m, g); Matrix<Dense, double, PCS> v(m, nr, nc, 1, 1);
    double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi);
    DD b(v, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi));
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) { double e = g.v[1 + i][1 + j], a = e < 0 ? -e : e; sv_assert(b(i, j) == (a > lo && a <= hi ? e : 0.0), "only significant elements of a block are copied"); }
    sv_reach("end");
}
/// copy() between any orientations, into a block view: nothing outside the block changes
template <class A> void copyInto()
{
    size_t nr = sv_size("nr", 1, 2), nc = sv_size("nc", 1, 3), br = sv_size("br", 0, 1), bc = sv_size("bc", 0, 1); Grid<double> p = symGrid<double>("p", nr + 1, nc + 1, 1000), g = symGrid<double>("e", nr, nc, 1000);
    MK_DENSE(DD, m, p); MK_DENSE(A, a, g); Matrix<Dense, double, PCS> v(m, nr, nc, br, bc); copy(a, v);
    for (size_t i = 0; i < p.r; ++i) for (size_t j = 0; j < p.c; ++j) { bool in = i >= br && i < br + nr && j >= bc && j < bc + nc; sv_assert(m(i, j) == (in ? g.v[i - br][j - bc] : p.v[i][j]), "copying into a block"); }
    A k(nr, nc); copy(v, k); same(gridOf(k), g, "copying out of a block"); sv_reach("end");
}
HARNESS(copy_dd) { copyInto<DD>(); } HARNESS(copy_ddr) { copyInto<DDR>(); }
// ---- dense -> sparse
template <class A, class S> void d2s(size_t nr, size_t nc)
{
    typedef typename A::value_type T; typedef typename S::value_type U;
    size_t r = sv_size("rows", 0, nr), c = sv_size("cols", 0, nc); Grid<T> g = symGrid<T>("e", r, c, 1000); MK_DENSE(A, a, g);
    double t = sv_fd("threshold", 0, 1000); Grid<U> h(r, c); size_t n = 0;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { T e = g.v[i][j]; if (sv_concretize(std::abs(e) > t)) { h.v[i][j] = U(e); ++n; } }
    S s(a, AbsoluteValueRangeChecker<double>(t)); checkSparse(s, r, c);
    same(gridOf(s), h, "sparse holds the significant elements"); sv_assert(s.nnz() == n, "sparse stores only significant elements"); sv_assert(s.getSize() == r * c, "sparse size");
    A back(s); Grid<T> hb(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) hb.v[i][j] = T(h.v[i][j]);
    same(gridOf(back), hb, "dense from sparse"); same(gridOf(a), g, "conversion leaves the source unchanged"); obs("s", gridOf(s)); sv_reach("end");
}
HARNESS(dd_sd) { d2s<DD, SD>(2, 3); } HARNESS(dd_sd_tall) { d2s<DD, SD>(3, 2); } HARNESS(df_sf) { d2s<DF, SF>(2, 3); } HARNESS(dd_sf) { d2s<DD, SF>(2, 2); } HARNESS(ddr_sdr) { d2s<DDR, SDR>(2, 3); } HARNESS(dd_sdr) { d2s<DD, SDR>(2, 3); } HARNESS(ddr_sd) { d2s<DDR, SD>(2, 3); }
extern "C" void hvt_dd_sd3() { d2s<DD, SD>(3, 3); } extern "C" void hvt_ddr_sd3() { d2s<DDR, SD>(3, 3); } extern "C" void hvt_dd_sdr3() { d2s<DD, SDR>(3, 3); } extern "C" void hvt_ddr_sdr3() { d2s<DDR, SDR>(3, 3); }
HARNESS(dense_sparse_range)
{
    size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g = symGrid<double>("e", r, c, 1000); MK_DENSE(DD, a, g); double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi);
    Grid<double> h(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double e = g.v[i][j], b = std::fabs(e); h.v[i][j] = sv_concretize(b > lo) && sv_concretize(b <= hi) ? e : 0.0; }
    SD s(a, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi)); SD z(a); checkSparse(s, r, c); checkSparse(z, r, c);
    same(gridOf(s), h, "sparse holds the elements of the range"); same(gridOf(z), g, "default conversion keeps every non-zero element"); sv_reach("end");
}
// ---- sparse -> dense / sparse
template <class S, class B> void s2d(size_t nr, size_t nc)
{
    typedef typename S::value_type T; typedef typename B::value_type U; size_t r = sv_size("rows", 0, nr), c = sv_size("cols", 0, nc);
    Grid<T> g = symGrid<T>("e", r, c, 1000); Pat<T> p = symPat<T>("on", r, c); S s = mkSparse<S>(g, p); g = masked(g, p);
    B b(s); Grid<U> h(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) h.v[i][j] = U(g.v[i][j]);
    sv_assert(b.getSize() == r * c, "size"); same(gridOf(b), h, "dense from sparse"); same(gridOf(s), g, "conversion leaves the source unchanged"); obs("b", gridOf(b)); sv_reach("end");
}
HARNESS(sd_dd) { s2d<SD, DD>(N, NS); } HARNESS(sd_ddr) { s2d<SD, DDR>(N, NS); } HARNESS(sdr_dd) { s2d<SDR, DD>(N, NS); } HARNESS(sdr_ddr) { s2d<SDR, DDR>(N, NS); } HARNESS(sf_dd) { s2d<SF, DD>(NS, N); } HARNESS(sd_df) { s2d<SD, DF>(NS, N); } HARNESS(sd_dd_wide) { s2d<SD, DD>(NS, N); } HARNESS(sdr_dd_wide) { s2d<SDR, DD>(NS, N); }
template <class S, class S2> void s2s(size_t nr, size_t nc)
{
    typedef typename S::value_type T; typedef typename S2::value_type U; size_t r = sv_size("rows", 0, nr), c = sv_size("cols", 0, nc);
    Grid<T> g = symGrid<T>("e", r, c, 1000); Pat<T> p = symPat<T>("on", r, c); S s = mkSparse<S>(g, p); g = masked(g, p);
    S2 b(s); checkSparse(b, r, c); sv_assert(b.nnz() == p.n, "number of stored elements"); Grid<U> h(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) h.v[i][j] = U(g.v[i][j]);
    same(gridOf(b), h, "sparse from sparse"); if (b.nnz()) { b.begin()[0] = b.begin()[0] + 1; } same(gridOf(s), g, "the copy is independent"); obs("b", gridOf(b)); sv_reach("end");
}
HARNESS(sd_sf) { s2s<SD, SF>(N, NS); } HARNESS(sf_sd) { s2s<SF, SD>(NS, N); } HARNESS(sd_sdr) { s2s<SD, SDR>(N, NS); } HARNESS(sd_sdr_wide) { s2s<SD, SDR>(NS, N); } HARNESS(sdr_sd) { s2s<SDR, SD>(N, NS); } HARNESS(sdr_sd_wide) { s2s<SDR, SD>(NS, N); } HARNESS(sdr_sfr) { s2s<SDR, SFR>(N, NS); }
/// with a significance filter exactly the significant elements are kept
template <class S, class S2> void s2s_filter(size_t nr, size_t nc)
{
    typedef typename S::value_type T; typedef typename S2::value_type U; size_t r = sv_size("rows", 0, nr), c = sv_size("cols", 0, nc), kind = sv_size("kind", 0, 1);
    Grid<T> g = symGrid<T>("e", r, c, 1000); Pat<T> p = symPat<T>("on", r, c); S s = mkSparse<S>(g, p); g = masked(g, p); double lo = sv_fd("lo", 0, 1000), hi = sv_fd("hi", 0, 1000); sv_assume(lo < hi);
    typedef AbsoluteValueRangeChecker<double> CK; typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> CKI;
    S2 b = kind ? S2(s, CKI(lo, hi)) : S2(s, CK(lo)); checkSparse(b, r, c); Grid<U> h(r, c); size_t n = 0;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double a = std::fabs(double(g.v[i][j])); bool k = (p.on[i][j] != 0) & (a > lo) & ((kind == 0) | (a <= hi)); h.v[i][j] = k ? U(g.v[i][j]) : U(0); n += k; }
    sv_assert(b.nnz() == n, "only significant elements are stored"); same(gridOf(b), h, "significant element of a sparse matrix"); same(gridOf(s), g, "conversion leaves the source unchanged"); sv_reach("end");
}
HARNESS(sd_sd_filter) { s2s_filter<SD, SD>(2, 2); } HARNESS(sd_sf_filter) { s2s_filter<SD, SF>(2, NS - 1); } HARNESS(sd_sdr_filter) { s2s_filter<SD, SDR>(NS - 1, 2); } HARNESS(sdr_sf_filter) { s2s_filter<SDR, SF>(2, NS - 1); }
// ---- zero, multiple, dynamic
HARNESS(zero)
{
    size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N); ZM z(r, c); sv_assert(z.getNbRows() == r && z.getNbColumns() == c && z.getSize() == r * c, "zero matrix dimensions");
    DD d(z); DFR f(z); same(gridOf(d), Grid<double>(r, c), "dense from zero"); same(gridOf(f), Grid<float>(r, c), "dense from zero, float row major");
    ZM y(d); sv_assert(y.getNbRows() == r && y.getNbColumns() == c && y == z && !(y != z) && y.equal(z), "zero from dense");
    z.resize(c + 1, r); sv_assert(z.getNbRows() == c + 1 && z.getNbColumns() == r && z.getSize() == (c + 1) * r, "resized zero matrix"); sv_reach("end");
}
template <class X, class Y> MultipleMatrix<X, Y> mm(X const& x, Y const& y) { return MultipleMatrix<X, Y>(std::make_shared<X>(x), std::make_shared<Y>(y)); }
HARNESS(multiple)
{
    size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g = symGrid<double>("e", r, c, 1000); Pat<double> p = symPat<double>("on", r, c); Grid<float> f = symGrid<float>("f", r, c, 1000); MK_DENSE(DF, df, f);
    SD s = mkSparse<SD>(g, p); g = masked(g, p); MultipleMatrix<SD, DF> m = mm(s, df); sv_assert(m.getNbRows() == r && m.getNbColumns() == c && m.getSize() == r * c, "multiple matrix dimensions");
    DD d(m); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(d(i, j) == g.v[i][j] + f.v[i][j], "dense from two summands is their sum");
    same(gridOf(m.getMatrix1()), g, "conversion leaves the source unchanged"); same(gridOf(m.getMatrix2()), f, "conversion leaves the source unchanged");
    size_t r2 = sv_size("rows of the other", 1, 2), c2 = sv_size("cols of the other", 1, 2); auto x = std::make_shared<SD>(s); auto y = std::make_shared<DF>(r2, c2); bool differ = r2 != r || c2 != c;
    bool t = false; try { MultipleMatrix<SD, DF> other(x, y); } catch (CoreException&) { t = true; } sv_assert(t == differ, "exactly summands of different dimension are rejected");
    t = false; try { m.reset(x, y); } catch (CoreException&) { t = true; } sv_assert(t == differ, "reset rejects exactly different dimensions"); sv_reach("end");
}
HARNESS(multiple_sparse)
{
    size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g = symGrid<double>("e", r, c, 1000); Pat<double> p = symPat<double>("on", r, c); Grid<float> f = symGrid<float>("f", r, c, 1000); Pat<float> q = symPat<float>("of", r, c);
    SD s = mkSparse<SD>(g, p); SF t = mkSparse<SF>(f, q); g = masked(g, p); f = masked(f, q); MultipleMatrix<SD, SF> m = mm(s, t); DD d(m);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(d(i, j) == g.v[i][j] + f.v[i][j], "dense from two sparse summands is their sum"); sv_reach("end");
}
HARNESS(dynamic)
{
    size_t which = sv_size("which", 0, 6), r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2); Grid<double> g = symGrid<double>("e", r, c, 1000); Grid<float> f = symGrid<float>("f", r, c, 1000); Pat<double> p = symPat<double>("on", r, c);
    Pat<float> q; memcpy(&q, &p, sizeof p); Grid<double> h(r, c); DynamicMatrix d; Grid<double> gm = masked(g, p); Grid<float> fm = masked(f, q);
    MK_DENSE(DD, dd, g); MK_DENSE(DF, df, f); SD sd = mkSparse<SD>(g, p); SF sf = mkSparse<SF>(f, q);
    switch (which) {
    case 0: d.reset(new ZM(r, c)); break;
    case 1: d.reset(new SF(sf)); break; case 2: d.reset(new DF(df)); break; case 3: d.reset(new SD(sd)); break;
    case 4: d.reset(new MultipleMatrix<SD, SF>(std::make_shared<SD>(sd), std::make_shared<SF>(sf))); break;
    case 5: d.reset(new MultipleMatrix<SD, DF>(std::make_shared<SD>(sd), std::make_shared<DF>(df))); break;
    case 6: d.reset(new DD(dd)); break;
    }
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
        double a = g.v[i][j], am = gm.v[i][j]; double b = f.v[i][j], bm = fm.v[i][j];
        h.v[i][j] = which == 0 ? 0.0 : which == 1 ? bm : which == 2 ? b : which == 3 ? am : which == 4 ? am + bm : which == 5 ? am + b : a;
    }
    sv_assert(d->getTypeIndex() == which, "position in the type list"); sv_assert(getNbRows(d) == r && getNbColumns(d) == c && getSize(d) == r * c, "dimensions of a dynamic matrix");
    DD o(d); sv_assert(o.getSize() == r * c, "size of a dense matrix from a dynamic one"); same(gridOf(o), h, "dense from a dynamic matrix"); obs("o", gridOf(o)); sv_reach("end");
}
// ---- transpose
template <class A> void trD()
{
    typedef typename A::value_type T; size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N); Grid<T> g = rawGrid<T>("e", r, c); MK_DENSE(A, a, g);
    A t = transpose(a); sv_assert(t.getNbRows() == c && t.getNbColumns() == r && t.getSize() == r * c, "transposed dimensions");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(t(j, i), g.v[i][j]), "transposed element");
    A u = transpose(t); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(u(i, j), g.v[i][j]) && sv_same(a(i, j), g.v[i][j]), "transposing twice is the identity"); sv_reach("end");
}
HARNESS(tr_dd) { trD<DD>(); } HARNESS(tr_ddr) { trD<DDR>(); } HARNESS(tr_df) { trD<DF>(); } HARNESS(tr_di) { trD<DI>(); }
template <class S> void trS(size_t nr, size_t nc)
{
    typedef typename S::value_type T; size_t r = sv_size("rows", 0, nr), c = sv_size("cols", 0, nc); Grid<T> g = symGrid<T>("e", r, c, 1000); Pat<T> p = symPat<T>("on", r, c); S s = mkSparse<S>(g, p); g = masked(g, p);
    S t = transpose(s); sv_assert(t.getSize() == r * c, "size"); checkSparse(t, c, r); Grid<T> h(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) h.v[j][i] = g.v[i][j];
    same(gridOf(t), h, "transposed sparse element"); S u = transpose(t); checkSparse(u, r, c); same(gridOf(u), g, "transposing twice is the identity"); same(gridOf(s), g, "transposing leaves the source unchanged"); obs("t", gridOf(t)); sv_reach("end");
}
HARNESS(tr_sd) { trS<SD>(N, NS); } HARNESS(tr_sd_wide) { trS<SD>(NS, N); } HARNESS(tr_sdr) { trS<SDR>(N, NS); } HARNESS(tr_sdr_wide) { trS<SDR>(NS, N); } HARNESS(tr_sf) { trS<SF>(NS, NS); }
