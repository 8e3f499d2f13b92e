// Shapes beyond the exhaustively explored ones: long rows, long columns and wide squares, where only the shape is fixed and
// every element is symbolic (one operand of a product; the other holds given numbers).
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "large.h"
// ---- C01
template <class M> void access()
{
    typedef typename M::parameter P; typedef typename M::value_type T; Big b = shape(); b = values("e", b.r, b.c); M m(b.r, b.c); for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) m(i, j) = T(b.at(i, j)); holds(m, b, "element at its row and column");
    size_t n = 0; for (auto it = m.begin(); it != m.end(); ++it, ++n) sv_assert(&*it == m.getDataPointer() + n, "iteration visits storage in order"); sv_assert(n == b.r * b.c, "iteration visits every element once");
    typedef Cursor<M, Direction::Row> RC; typedef Cursor<RC, Direction::Column> CC; size_t i = 0; for (RC rc(m, 0), re(m, b.r); rc != re; ++rc, ++i) { size_t j = 0; for (CC cc(m, rc.begin()), ce(m, rc.end()); cc != ce; ++cc, ++j) sv_assert(*cc == T(b.at(i, j)), "cursor visits the elements in order"); sv_assert(j == b.c, "cursor visits a whole row"); } sv_assert(i == b.r, "cursor visits every row");
    if constexpr (std::is_same<P, PC>::value) { typedef Matrix<Dense, T, PCS> V; size_t r0 = b.r / 3, c0 = b.c / 3, r = b.r - r0 - b.r / 5, c = b.c - c0 - b.c / 5; V w(m, r, c, r0, c0); size_t k = 0; for (auto it = w.begin(); it != w.end(); ++it) ++k; sv_assert(k == r * c, "a view visits its elements once"); for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < c; ++y) sv_assert(w(x, y) == T(b.at(r0 + x, c0 + y)), "element of a view"); } sv_reach("end");
}
HARNESS(access_dd) { access<DD>(); } HARNESS(access_ddr) { access<DDR>(); } HARNESS(access_df) { access<DF>(); }
// ---- C02
template <class M> void owner()
{
    size_t base = sv_live_heap(); { Big b = shape(); b = values("e", b.r, b.c, IsSparse<M>::value); M a = Make<M>::of(b), c(a); holds(c, b, "copy"); M d(std::move(c)); holds(d, b, "moved"); M e = Make<M>::of(numbers(3, 2, IsSparse<M>::value)); e = d; holds(e, b, "assigned"); holds(d, b, "source of an assignment"); Big s = numbers(2, 3, IsSparse<M>::value); M f = Make<M>::of(s); swap(e, f); holds(f, b, "swapped"); holds(e, s, "swapped"); f = std::move(e); holds(f, s, "move assigned"); a = f; holds(a, s, "assigned a smaller one"); holds(d, b, "unchanged by assignments to others");
        if constexpr (!IsSparse<M>::value) { a.resize(b.r, b.c); for (size_t i = 0; i < b.r * b.c; ++i) a.getDataPointer()[i] = d.getDataPointer()[i]; holds(a, b, "written after a resize"); } }
    sv_assert(sv_live_heap() == base, "no leak"); sv_reach("end");
}
HARNESS(owner_dd) { owner<DD>(); } HARNESS(owner_dfr) { owner<DFR>(); } HARNESS(owner_sd) { owner<SD>(); } HARNESS(owner_sfr) { owner<SFR>(); }
// ---- C03, C04, C05
template <class A, class B> void conv() { Big b = shape(); b = values("e", b.r, b.c, IsSparse<A>::value); A a = Make<A>::of(b); B x(a); holds(x, b, "element of a conversion"); holds(a, b, "source unchanged"); sv_reach("end"); }
HARNESS(dense_dd_df) { conv<DD, DF>(); } HARNESS(dense_dd_ddr) { conv<DD, DDR>(); } HARNESS(dense_ddr_df) { conv<DDR, DF>(); } HARNESS(dense_df_ddr) { conv<DF, DDR>(); }
HARNESS(open_sd_dd) { conv<SD, DD>(); } HARNESS(open_sdr_dd) { conv<SDR, DD>(); } HARNESS(open_sd_ddr) { conv<SD, DDR>(); } HARNESS(open_sf_sd) { conv<SF, SD>(); } HARNESS(open_sd_sdr) { conv<SD, SDR>(); }
template <class A, class B> void filter() { Big b = shape(); b = values("e", b.r, b.c, true); A a = Make<A>::of(b); B x(a, AbsoluteValueRangeChecker<double>(0.5)); holds(x, b, "stored element"); size_t n = 0; for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) n += on(i, j); sv_assert(x.nnz() == n, "exactly the significant elements are stored"); sv_reach("end"); }
HARNESS(sparse_dd_sd) { filter<DD, SD>(); } HARNESS(sparse_ddr_sd) { filter<DDR, SD>(); } HARNESS(sparse_dd_sdr) { filter<DD, SDR>(); } HARNESS(sparse_df_sf) { filter<DF, SF>(); }
HARNESS(open_multiple) { Big b = shape(), s; s = values("s", b.r, b.c, true); b = values("e", b.r, b.c); MultipleMatrix<SD, DF> m(std::make_shared<SD>(Make<SD>::of(s)), std::make_shared<DF>(Make<DF>::of(b))); DD x(m); Big w(b.r, b.c); for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) w.at(i, j) = s.at(i, j) + b.at(i, j); holds(x, w, "element of a split matrix"); sv_reach("end"); }
// ---- C06
template <class M> void turn() { Big b = shape(); b = values("e", b.r, b.c, IsSparse<M>::value); M a = Make<M>::of(b); auto t = transpose(a); Big w(b.c, b.r); for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) w.at(j, i) = b.at(i, j); holds(t, w, "element of a transposed matrix"); holds(transpose(t), b, "transposed twice"); holds(a, b, "source unchanged"); sv_reach("end"); }
HARNESS(turn_dd) { turn<DD>(); } HARNESS(turn_ddr) { turn<DDR>(); } HARNESS(turn_sd) { turn<SD>(); } HARNESS(turn_sdr) { turn<SDR>(); }
// ---- C07
template <class A, class B> void sums()
{
    Big s = shape(), a = values("a", s.r, s.c, IsSparse<A>::value), b = values("b", s.r, s.c, IsSparse<B>::value), p(s.r, s.c), m(s.r, s.c); for (size_t i = 0; i < s.r; ++i) for (size_t j = 0; j < s.c; ++j) { p.at(i, j) = a.at(i, j) + b.at(i, j); m.at(i, j) = a.at(i, j) - b.at(i, j); }
    A x = Make<A>::of(a); B y = Make<B>::of(b); holds(x + y, p, "element of a sum"); holds(x - y, m, "element of a difference"); if constexpr (!IsSparse<A>::value) { A z(x); z += y; holds(z, p, "element of an in-place sum"); z = x; z -= y; holds(z, m, "element of an in-place difference"); } holds(x, a, "operand unchanged"); holds(y, b, "operand unchanged"); sv_reach("end");
}
HARNESS(sums_dd_dd) { sums<DD, DD>(); } HARNESS(sums_ddr_dfr) { sums<DDR, DFR>(); } HARNESS(sums_dd_sd) { sums<DD, SD>(); } HARNESS(sums_ddr_sdr) { sums<DDR, SDR>(); } HARNESS(sums_sd_dd) { sums<SD, DD>(); } HARNESS(sums_sd_sd) { sums<SD, SD>(); } HARNESS(sums_df_dd) { sums<DF, DD>(); }
// ---- C08
HARNESS(prod_dd_dd) { prod<DD, DD>(); } HARNESS(prod_ddr_dd) { prod<DDR, DD>(); } HARNESS(prod_df_dd) { prod<DF, DD>(); } HARNESS(prod_dd_sd) { prod<DD, SD>(); } HARNESS(prod_sd_dd) { prod<SD, DD>(); } HARNESS(prod_sd_sd) { prod<SD, SD>(); }
// ---- C12
template <class M> void norms()
{
    Big b = shape(); b = numbers(b.r, b.c, IsSparse<M>::value); size_t where = sv_size("where", 0, 2), n = 0, count = 0; for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) count += !IsSparse<M>::value || on(i, j);
    double v = sv_fd("v", -1000, 1000), mx = v < 0 ? -v : v, sq = 0; for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) if (!IsSparse<M>::value || on(i, j)) { if (n++ == where * (count - 1) / 2) { b.at(i, j) = v; continue; } double x = b.at(i, j); if (x > mx) mx = x; sq += x * x; }
    M m = Make<M>::of(b); sq = sq + v * v; double s1 = 0; for (double x : b.v) s1 += x < 0 ? -x : x; sv_assert(norm<NormOne>(m) == s1, "one-norm"); sv_assert(norm<NormMax>(m) == mx, "maximum norm"); sv_assert(norm<NormTwo>(m) == std::sqrt(sq), "2-norm"); sv_reach("end");
}
HARNESS(norm_dd) { norms<DD>(); } HARNESS(norm_ddr) { norms<DDR>(); } HARNESS(norm_sd) { norms<SD>(); }
// ---- C13
template <class M> void asked(M const& m, Big const& b, double lo)
{
    size_t k = 0; double sq = 0; for (double x : b.v) { double a = x < 0 ? -x : x; k += a > lo; sq += x * x; } k = size_t(sv_concretize(int64_t(k))); AbsoluteValueRangeChecker<double> c(lo);
    sv_assert(m.getNbOfSignificantElements(c) == k, "number of significant elements of the current matrix"); sv_assert(m.getOccupation(c) == double(k) / double(b.v.size()), "occupation is the fraction of significant elements"); sv_assert(m.getNorm() == std::sqrt(sq), "norm of the current elements");
}
template <class M> void cached()
{
    Big b = shape(), d = shape(); b = numbers(b.r, b.c, IsSparse<M>::value); d = numbers(d.r, d.c, IsSparse<M>::value); d.at(0, 0) = sv_fd("v", 1, 1000); M m = Make<M>::of(b); asked(m, b, 3); asked(m, b, 5); m = Make<M>::of(d); asked(m, d, 3); asked(m, d, 5); sv_reach("end");
}
HARNESS(cached_dd) { cached<DD>(); } HARNESS(cached_ddr) { cached<DDR>(); } HARNESS(cached_sd) { cached<SD>(); }
// ---- C24
HARNESS(fill) { Big b = shape(); double v = sv_fd("v", -1000, 1000); DD m(b.r, b.c, AllFiller<double>(v)); DDR n(b.r, b.c, AllFiller<double>(v)); for (auto& x : b.v) x = v; holds(m, b, "filled"); holds(n, b, "filled"); size_t k = 0; for (size_t j = 0; j < b.c; ++j) for (size_t i = 0; i < b.r; ++i) b.at(i, j) = double(++k); DD s(b.r, b.c, ContinuousNumberFiller()); holds(s, b, "numbers in storage order"); sv_reach("end"); }
template <class A, class B> void compared()
{
    Big b = shape(); b = values("e", b.r, b.c); size_t i = sv_size("row", 0, 2) * (b.r - 1) / 2, j = sv_size("column", 0, 2) * (b.c - 1) / 2; A x = Make<A>::of(b); B y = Make<B>::of(b); sv_assert(x.equal(y), "equal matrices"); double d = sv_fd("delta", 1, 100); y(i, j) = y(i, j) + d; sv_assert(!x.equal(y) && x.notEqual(y), "one element differs"); sv_reach("end");
}
HARNESS(compare_dd) { compared<DD, DD>(); } HARNESS(compare_dd_ddr) { compared<DD, DDR>(); }
// ---- C14, C15, C20: the magnitude of every element is known, its value is not
static std::vector<size_t> cut(size_t n, size_t k) { std::vector<size_t> s; size_t sum = 0; for (size_t i = 0; i + 1 < k; ++i) { size_t h = (n - sum) / (k - i); if (i % 2 && h > 1) --h; s.push_back(h); sum += h; } s.push_back(n - sum); return s; }
/// only one type of the list admits anything, after it the dense one everything
static ThresholdSettings only(size_t k, double q)
{
    ThresholdSettings s; s.significanceThresholdSinglePrecision = 5000; s.significanceThresholdDoublePrecision = 0.5; double o[7]; for (size_t t = 0; t < 7; ++t) o[t] = t == k ? q : t == 6 ? 2.0 : -1.0;
    s.occupationThresholdMatrixZeroSinglePrecision = 2; s.occupationThresholdMatrixZeroDoublePrecision = o[0]; s.occupationThresholdMatrixSparseFloatSinglePrecision = 2; s.occupationThresholdMatrixSparseFloatDoublePrecision = o[1]; s.occupationThresholdMatrixDenseFloatSinglePrecision = 2; s.occupationThresholdMatrixDenseFloatDoublePrecision = o[2]; s.occupationThresholdMatrixSparseDoubleSinglePrecision = 2; s.occupationThresholdMatrixSparseDoubleDoublePrecision = o[3];
    s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = 2; s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision = o[4]; s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = 2; s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision = o[5]; s.occupationThresholdMatrixDenseDoubleSinglePrecision = 2; s.occupationThresholdMatrixDenseDoubleDoublePrecision = o[6]; return s;
}
HARNESS(norm_blocked)
{
    Big b = shape(); b = numbers(b.r, b.c, true); double v = sv_fd("v", 1, 1000), s1 = 0, mx = 0; b.v[sv_size("at", 0, 1) * (b.v.size() - 1)] = v; for (double x : b.v) { double a = x < 0 ? -x : x; s1 += a; if (a > mx) mx = a; }
    size_t most = LIM(4, 3 * sv_size("blocks", 1, 3)); auto rs = cut(b.r, b.r < most ? b.r : most), cs = cut(b.c, b.c < most ? b.c : most); auto bm = BlockedMatrixGenerator()(Make<DD>::of(b), rs, cs, Threshold(only(sv_size("type", 1, 6), 2))); sv_assert(norm<NormOne>(bm) == s1, "one-norm of a block-wise matrix"); sv_assert(norm<NormMax>(bm) == mx, "maximum norm of a block-wise matrix"); sv_reach("end");
}
static int kindOf(DynamicMatrix const& d) { const MatrixBase* p = d.get(); return dynamic_cast<const ZM*>(p) ? 0 : dynamic_cast<const SF*>(p) ? 1 : dynamic_cast<const DF*>(p) ? 2 : dynamic_cast<const SD*>(p) ? 3 : dynamic_cast<const M1*>(p) ? 4 : dynamic_cast<const M2*>(p) ? 5 : dynamic_cast<const DD*>(p) ? 6 : 7; }
HARNESS(converted)
{
    static const size_t sh[4][2] = {{32, 32}, {256, 1}, {1, 256}, {64, 8}}; size_t s = sv_size("shape", 0, 3), k = sv_size("type", 0, 5), r = sh[s][0], c = sh[s][1]; Big b = values("e", r, c, true); size_t n = 0; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) n += on(i, j);
    double q = sv_fd("allowed", 0, int64_t(r * c)) / double(r * c); DD m = Make<DD>::of(b); DynamicMatrix d = MatrixConverter()(m, Threshold(only(k, q))); int want = double(n) / double(r * c) <= q ? int(k) : 6;
    sv_assert(kindOf(d) == want, "the first matrix type whose occupation thresholds admit the matrix is selected"); if (kindOf(d) != want) return; if (want == 0) for (auto& x : b.v) x = 0; holds(DD(d), b, "converted matrix keeps the significant elements"); sv_reach("end");
}
HARNESS(blocks) { Big b = shape(); b = values("e", b.r, b.c, true); DD m = Make<DD>::of(b); size_t most = sv_size("blocks", 1, 9); auto rs = cut(b.r, b.r < most ? b.r : most), cs = cut(b.c, b.c < most ? b.c : most); auto bm = BlockedMatrixGenerator()(m, rs, cs, Threshold(only(sv_size("type", 1, 6), 2))); sv_assert(bm.getNbRows() == rs.size() && bm.getNbColumns() == cs.size(), "number of blocks"); holds(DD(bm), b, "element of an assembled matrix"); sv_reach("end"); }
template <class I> void blockProduct()
{
    size_t s = sv_size("shape", 0, 7), r = prods[s][0], k = prods[s][1], c = prods[s][2], most = sv_size("blocks", 1, 2) * 4, ta = sv_size("A", 1, 3) * 2 - 1; Big a = values("a", r, k, true), b = numbers(k, c, true), w(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double x = 0; for (size_t q = 0; q < k; ++q) x = x + a.at(i, q) * b.at(q, j); w.at(i, j) = x; }
    auto rs = cut(r, r < most ? r : most), ks = cut(k, k < most ? k : most), cs = cut(c, c < most ? c : most); Threshold ts(only(ta, 2)), tt(only(6, 2)); auto x = BlockedMatrixGenerator()(Make<DD>::of(a), rs, ks, ts), y = BlockedMatrixGenerator()(Make<DD>::of(b), ks, cs, tt); BlockedDenseMatrix z = (x * y).template execute<I>(); holds(DD(z), w, "element of a block-wise product"); sv_reach("end");
}
HARNESS(block_product) { blockProduct<Native>(); }
