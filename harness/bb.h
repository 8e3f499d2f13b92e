// bb.h - builders and readers shared by the harnesses
#pragma once
#include "streams.h"
#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include <vector>
using namespace BlasBooster;
#ifdef SV_THOROUGH
#define LIM(q, t) (t)
#else
#define LIM(q, t) (q)
#endif
#define LIVE(x) LIVE_(#x, x)
typedef Parameter<> PC;                                                      // column major
typedef Parameter<size_t, RowMajor> PR;                                      // row major
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PCS;  // column major view
typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> PRS;
typedef Matrix<Dense, double, PC> DD; typedef Matrix<Dense, float, PC> DF; typedef Matrix<Dense, int, PC> DI;
typedef Matrix<Dense, double, PR> DDR; typedef Matrix<Dense, float, PR> DFR; typedef Matrix<Dense, int, PR> DIR_;
typedef Matrix<Sparse, double, PC> SD; typedef Matrix<Sparse, float, PC> SF; typedef Matrix<Sparse, int, PC> SI;
typedef Matrix<Sparse, double, PR> SDR; typedef Matrix<Sparse, float, PR> SFR;
typedef Matrix<Zero> ZM;

/// Plain value array, the oracle side of every comparison: v[i][j] is the element in row i, column j.
template <class T> struct Grid {
    size_t r, c; T v[8][8];
    Grid(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_) { for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j) v[i][j] = T(0); }
};
/// Elements of double matrices reach beyond the integers a float can represent, so a loss of precision on the way shows; small where elements become floats.
static int64_t sv_magnitude = 20000001;
static void smallElements() { sv_magnitude = 1000; }
template <class T> Grid<T> symGrid(const char* nm, size_t r, size_t c, int64_t b)
{
    if (std::is_same<T, double>::value && b == 1000) b = sv_magnitude;
    const T unit = std::is_integral<T>::value || (b != 1000 && b != 1000000 && b != 20000001) ? T(1) : T(0.25);
    Grid<T> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = SvElem<T>::get(nm, b) * unit; return g;
}
template <class T> Grid<T> rawGrid(const char* nm, size_t r, size_t c)
{
    Grid<T> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = SvRaw<T>::get(nm); return g;
}
/// row-major or column-major position, written down here independently of the code under test
template <class P> size_t posOf(size_t i, size_t j, size_t ldr, size_t ldc)
{
    return std::is_same<typename P::orientation, ColumnMajor>::value ? i + j * ldr : i * ldc + j;
}
/// write a grid into a dense matrix of the same size through its data pointer
template <class T, class P, class U> void put(Matrix<Dense, T, P>& m, Grid<U> const& g)
{
    T* p = m.getDataPointer(); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) p[posOf<P>(i, j, g.r, g.c)] = T(g.v[i][j]);
}
#define MK_DENSE(M, name, g) M name((g).r, (g).c); put(name, g)
template <class T> struct Pat { size_t r, c, n; bool on[8][8]; };
/// a symbolic occupation pattern (every subset of the cells)
template <class T> Pat<T> symPat(const char* nm, size_t r, size_t c)
{
    Pat<T> p; p.r = r; p.c = c; p.n = 0;
    for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j) p.on[i][j] = false;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (sv_concretize(sv_int(nm, 0, 1))) { p.on[i][j] = true; ++p.n; }
    return p;
}
template <class T> Pat<T> fullPat(size_t r, size_t c) { Pat<T> p; p.r = r; p.c = c; p.n = r * c; for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j) p.on[i][j] = i < r && j < c; return p; }
/// Grid with zeros where the pattern is off
template <class T> Grid<T> masked(Grid<T> g, Pat<T> const& p) { for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) if (!p.on[i][j]) g.v[i][j] = T(0); return g; }
template <class T, class P> void putSparse(Matrix<Sparse, T, P>& m, Grid<T> const& g, Pat<T> const& p)
{
    const bool col = std::is_same<typename P::orientation, ColumnMajor>::value;
    size_t lines = col ? g.c : g.r, keys = col ? g.r : g.c, k = 0;
    auto v = m.begin(); auto ky = m.beginKey(); auto of = m.beginOffset();
    for (size_t l = 0; l < lines; ++l) {
        of[l] = k;
        for (size_t q = 0; q < keys; ++q) { size_t i = col ? q : l, j = col ? l : q; if (p.on[i][j]) { v[k] = g.v[i][j]; ky[k] = q; ++k; } }
    }
    of[lines] = k;
}
template <class M, class T> M mkSparse(Grid<T> const& g, Pat<T> const& p)
{
    if (p.n) { M m(g.r, g.c, p.n); putSparse(m, g, p); return m; }
    Matrix<Dense, T, typename M::parameter> z(g.r, g.c); for (size_t k = 0; k < g.r * g.c; ++k) z.getDataPointer()[k] = T(0);
    return M(z);
}
/// structure of a compressed sparse matrix: offsets ascend from 0 to the number of stored elements, keys ascend inside a line
template <class T, class P> void checkSparse(Matrix<Sparse, T, P> const& m, size_t r, size_t c)
{
    const bool col = std::is_same<typename P::orientation, ColumnMajor>::value;
    size_t lines = col ? c : r, keys = col ? r : c;
    sv_assert(m.getNbRows() == r && m.getNbColumns() == c, "sparse dimensions");
    sv_assert(m.sizeOffset() == lines + 1, "sparse has one offset per line plus one");
    sv_assert(m.beginOffset()[0] == 0, "sparse offsets start at 0");
    for (size_t l = 0; l < lines; ++l) {
        size_t a = m.beginOffset()[l], b = m.beginOffset()[l + 1];
        sv_assert(a <= b && b <= m.nnz(), "sparse offsets ascend within the storage");
        for (size_t k = a; k < b; ++k) {
            sv_assert(m.beginKey()[k] < keys, "sparse key inside the matrix");
            if (k > a) sv_assert(m.beginKey()[k - 1] < m.beginKey()[k], "sparse keys ascend inside a line");
        }
    }
    sv_assert(m.beginOffset()[lines] == m.nnz(), "sparse last offset equals the number of stored elements");
}
template <class T, class P> Grid<T> gridOf(Matrix<Sparse, T, P> const& m)
{
    const bool col = std::is_same<typename P::orientation, ColumnMajor>::value;
    Grid<T> g(m.getNbRows(), m.getNbColumns()); size_t lines = col ? g.c : g.r;
    for (size_t l = 0; l < lines; ++l) for (size_t k = m.beginOffset()[l], e = m.beginOffset()[l + 1]; k < e; ++k) {
        size_t q = sv_concretize(m.beginKey()[k]); T& t = col ? g.v[q][l] : g.v[l][q]; t = t + m.begin()[k];
    }
    return g;
}
template <class T, class P> Grid<T> gridOf(Matrix<Dense, T, P> const& m)
{
    Grid<T> g(m.getNbRows(), m.getNbColumns()); size_t ldr = m.getLdRows(), ldc = m.getLdColumns(); const T* p = m.getDataPointer();
    for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) g.v[i][j] = p[posOf<P>(i, j, ldr, ldc)]; return g;
}
template <class P> Grid<double> gridOf(Matrix<Zero, NullType, P> const& m) { return Grid<double>(m.getNbRows(), m.getNbColumns()); }
template <class A, class B> void same(Grid<A> const& a, Grid<B> const& b, const char* label)
{
    sv_assert(a.r == b.r && a.c == b.c, label);
    for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) sv_assert(a.v[i][j] == b.v[i][j], label);
}
static inline void obsE(const char* l, double d) { sv_obs_d(l, d); } static inline void obsE(const char* l, int d) { sv_obs_i(l, d); }
template <class T> void obs(const char* l, Grid<T> const& g) { sv_obs_i(l, int64_t(g.r * 10 + g.c)); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) obsE(l, g.v[i][j]); }
