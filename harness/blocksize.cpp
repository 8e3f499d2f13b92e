// Block size lists from a matrix: complete, within the limits, at the strongest changes of magnitude.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
template <class T> void greedy(std::vector<size_t> const& s, const T* d, size_t n, size_t lo, size_t hi)
{
    size_t sum = 0; size_t total = n + 1; std::vector<char> border(total + 1, 0); sv_assert(s.size() >= 1, "at least one block");
    for (size_t i = 0; i < s.size(); ++i) { sv_assert(s[i] >= (lo < total ? lo : total), "no block is smaller than the minimum"); sv_assert(s[i] <= (hi < 1 ? 1 : hi), "no block is larger than the maximum"); sum += s[i]; if (sum < total) border[sum] = true; }
    sv_assert(sum == total, "the blocks cover the dimension");
    if (s.size() > 2) { // the last division was made at one of the weakest borders, because there was a block above the maximum
        bool needed = false; T weak = 0; bool first = true; for (size_t k = 1; k < total; ++k) if (border[k]) { if (first || d[k - 1] < weak) weak = d[k - 1]; first = false; }
        for (size_t i = 0, k = 0; i + 1 < s.size(); ++i) { k += s[i]; if (d[k - 1] <= weak && s[i] + s[i + 1] > hi) needed = true; }
        sv_assert(needed, "no further division once every block keeps the maximum");
    }
    for (size_t q = 1; q < total; ++q) {
        if (border[q]) continue; size_t a = q, b = q; while (a > 0 && !border[a]) --a; while (b < total && !border[b]) ++b;
        if (q - a < lo || b - q < lo) continue; // could not be divided here
        for (size_t k = 1; k < total; ++k) if (border[k]) sv_assert(!(d[q - 1] > d[k - 1]), "borders are at the strongest positions that can be divided");
    }
}
template <class T> void sizes(size_t most)
{
    size_t n = sv_size("n", 0, most), lo = sv_size("min", 0, 3), hi = sv_size("max", 2 * lo, LIM(6, 8)); std::vector<T> d; T raw[16]; for (size_t i = 0; i < n; ++i) { raw[i] = (T)sv_fd("detect", 0, 1000); d.push_back(raw[i]); }
    auto s = BlockSizeGenerator(lo, hi).get_block_size(d); greedy(s, raw, n, lo, hi); for (size_t i = 0; i < n; ++i) sv_assert(d[i] == raw[i], "detection values unchanged"); sv_obs_i("blocks", s.size()); sv_reach("end");
}
HARNESS(sizes_double) { sizes<double>(LIM(4, 5)); }
HARNESS(sizes_float) { sizes<float>(3); }
/// few distinct values, so that ties decide; longer dimensions
HARNESS(sizes_ties)
{
    size_t n = sv_size("n", 5, LIM(7, 9)), lo = sv_size("min", 0, 3), hi = sv_size("max", 2 * lo, 6); std::vector<size_t> d; size_t raw[16]; for (size_t i = 0; i < n; ++i) { raw[i] = sv_concretize(sv_int("detect", 0, 1)); d.push_back(raw[i]); }
    auto s = BlockSizeGenerator(lo, hi).get_block_size(d); greedy(s, raw, n, lo, hi); sv_reach("end");
}
/// long dimensions: given values with many ties, one of them symbolic
HARNESS(sizes_long)
{
    static const size_t ns[] = {19, 33, 70, 131}; size_t n = ns[sv_size("n", 0, LIM(2, 3))], lo = sv_size("min", 0, LIM(2, 3)), hi = 2 * lo + 3 * sv_size("max", 0, LIM(2, 3)), at = sv_size("at", 0, LIM(1, 2)) * (n - 1) / 2; std::vector<double> d, raw; for (size_t i = 0; i < n; ++i) raw.push_back(i == at ? sv_fd("detect", 0, 12) : double(i * 37 % 11)); d = raw;
    auto s = BlockSizeGenerator(lo, hi).get_block_size(d); greedy(s, raw.data(), n, lo, hi); sv_reach("end");
}
HARNESS(limits)
{
    size_t lo = (size_t)sv_int("min", 0, int64_t(1) << 61), hi = (size_t)sv_int("max", 0, int64_t(1) << 61); bool threw = false; try { BlockSizeGenerator g(lo, hi); sv_assert(g.min_block_size == lo && g.max_block_size == hi, "limits as given"); } catch (BlasBoosterException&) { threw = true; } sv_assert(threw == (2 * lo > hi), "limits are rejected exactly when a block at the maximum could not be divided"); sv_reach("end");
}
static double expo(double x) { double a = std::fabs(x); int k = 0; if (a == 0) return 0; for (double p = 1; a >= p; p *= 2) ++k; for (double p = 0.5; a < p; p /= 2) --k; return k; }
static double ad(double x) { return std::fabs(x); }
template <class T, class P> void detect(T unit = 1)
{
    typedef Matrix<Dense, T, P> M; size_t r = sv_size("rows", 1, LIM(2, 3)), c = sv_size("cols", 1, LIM(3, 3)); Grid<double> g; Grid<T> e = symGrid<T>("m", r, c, r * c > 6 ? 1 : r * c > 4 ? LIM(1, 3) : 9); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) e.v[i][j] = e.v[i][j] * unit; MK_DENSE(M, m, e); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = expo(e.v[i][j]);
    auto [rd, cd] = BlockSizeGenerator(0, 2).get_detection_arrays(m); sv_assert(rd.size() == r - 1 && cd.size() == c - 1, "one value between neighbouring lines");
    for (size_t i = 0; i + 1 < r; ++i) { double s = 0; for (size_t j = 0; j < c; ++j) s += ad(g.v[i][j] - g.v[i + 1][j]); sv_assert(rd[i] == s, "change of magnitude between neighbouring rows"); }
    for (size_t j = 0; j + 1 < c; ++j) { double s = 0; for (size_t i = 0; i < r; ++i) s += ad(g.v[i][j] - g.v[i][j + 1]); sv_assert(cd[j] == s, "change of magnitude between neighbouring columns"); }
    same(gridOf(m), e, "matrix unchanged by the detection"); sv_reach("end");
}
HARNESS(detect_dd) { detect<double, PC>(); } HARNESS(detect_ddr) { detect<double, PR>(); } HARNESS(detect_df) { detect<float, PC>(); }
/// long and wide matrices: given elements of many magnitudes, one of them symbolic
template <class M> void detectLong()
{
    static const size_t sh[][2] = {{40, 3}, {3, 40}, {21, 20}, {130, 1}, {1, 130}}; size_t n = sv_size("shape", 0, 4), r = sh[n][0], c = sh[n][1], at = sv_size("at", 0, 2) * (r * c - 1) / 2; std::vector<double> e(r * c); M m(r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { size_t k = i * c + j; e[k] = k == at ? sv_fd("e", -300, 300) : double(int64_t(k * 7919 % 263) - 131); m.getDataPointer()[posOf<typename M::parameter>(i, j, r, c)] = e[k]; } std::vector<double> g; for (double x : e) g.push_back(expo(x));
    auto [rd, cd] = BlockSizeGenerator(0, 2).get_detection_arrays(m); sv_assert(rd.size() == r - 1 && cd.size() == c - 1, "one value between neighbouring lines");
    for (size_t i = 0; i + 1 < r; ++i) { double s = 0; for (size_t j = 0; j < c; ++j) s += ad(g[i * c + j] - g[(i + 1) * c + j]); sv_assert(rd[i] == s, "change of magnitude between neighbouring rows"); }
    for (size_t j = 0; j + 1 < c; ++j) { double s = 0; for (size_t i = 0; i < r; ++i) s += ad(g[i * c + j] - g[i * c + j + 1]); sv_assert(cd[j] == s, "change of magnitude between neighbouring columns"); } sv_reach("end");
}
HARNESS(detect_long) { detectLong<DD>(); } HARNESS(detect_long_r) { detectLong<DDR>(); }
/// magnitudes below one have negative exponents
HARNESS(detect_fractions) { detect<double, PC>(0.125); }
/// elements 0 and 1: the exponents differ, every pattern of changes occurs
template <class T> Grid<T> bits(const char* nm, size_t r, size_t c) { Grid<T> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = (T)sv_concretize(sv_int(nm, 0, 1)); return g; }
/// the whole way: matrix to block sizes
template <class M> void whole()
{
    size_t r = sv_size("rows", 1, LIM(3, 4)), c = sv_size("cols", 1, LIM(3, 4)), lo = sv_size("min", 0, 2), hi = sv_size("max", 2 * lo, 4); sv_assume(r * c <= LIM(6, 8)); Grid<typename M::value_type> e = bits<typename M::value_type>("m", r, c); MK_DENSE(M, m, e);
    auto [rs, cs] = BlockSizeGenerator(lo, hi)(m); double rd[8], cd[8]; for (size_t i = 0; i + 1 < r; ++i) { rd[i] = 0; for (size_t j = 0; j < c; ++j) rd[i] += ad(expo(e.v[i][j]) - expo(e.v[i + 1][j])); } for (size_t j = 0; j + 1 < c; ++j) { cd[j] = 0; for (size_t i = 0; i < r; ++i) cd[j] += ad(expo(e.v[i][j]) - expo(e.v[i][j + 1])); }
    if (r <= hi && c <= hi) { sv_assert(rs.size() == 1 && rs[0] == r && cs.size() == 1 && cs[0] == c, "a small matrix is one block"); } else { greedy(rs, rd, r - 1, lo, hi); greedy(cs, cd, c - 1, lo, hi); } sv_reach("end");
}
HARNESS(whole_dd) { whole<DD>(); } HARNESS(whole_ddr) { whole<DDR>(); }
/// block sizes for a product: the inner dimension follows the columns of A and the rows of B together
HARNESS(mult)
{
    size_t r = sv_size("rows", 1, 2), k = sv_size("inner", 1, 3), c = sv_size("cols", 1, 2), lo = sv_size("min", 0, 2), hi = sv_size("max", 2 * lo, 4); sv_assume(k * (r + c) <= LIM(6, 9)); Grid<double> a = bits<double>("a", r, k), b = bits<double>("b", k, c); MK_DENSE(DD, A, a); MK_DENSE(DD, B, b);
    auto [rs, ks, cs] = BlockSizeGenerator(lo, hi).matrix_matrix_mult(A, B); double rd[4] = {}, kd[4] = {}, cd[4] = {};
    for (size_t i = 0; i + 1 < r; ++i) for (size_t j = 0; j < k; ++j) rd[i] += ad(expo(a.v[i][j]) - expo(a.v[i + 1][j])); for (size_t j = 0; j + 1 < c; ++j) for (size_t i = 0; i < k; ++i) cd[j] += ad(expo(b.v[i][j]) - expo(b.v[i][j + 1]));
    for (size_t j = 0; j + 1 < k; ++j) { for (size_t i = 0; i < r; ++i) kd[j] += ad(expo(a.v[i][j]) - expo(a.v[i][j + 1])); for (size_t i = 0; i < c; ++i) kd[j] += ad(expo(b.v[j][i]) - expo(b.v[j + 1][i])); }
    greedy(rs, rd, r - 1, lo, hi); greedy(ks, kd, k - 1, lo, hi); greedy(cs, cd, c - 1, lo, hi); sv_reach("end");
}
