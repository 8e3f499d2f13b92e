// sym.h - matrices of every kind with symbolic content, and readers for results
#pragma once
#include "bb.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include <memory>
typedef Matrix<Zero, NullType, PR> ZMR;
typedef MultipleMatrix<SD, SF> M1; typedef MultipleMatrix<SD, DF> M2;
/// builds a matrix of kind M with symbolic content and reports its elements as a grid of doubles
template <class M> struct Sym;
template <class T, class P> struct Sym<Matrix<Dense, T, P>> {
    typedef Matrix<Dense, T, P> M;
    static M make(const char* nm, size_t r, size_t c, Grid<double>& g) { Grid<T> e = symGrid<T>(nm, r, c, 1000); MK_DENSE(M, m, e); g = Grid<double>(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = e.v[i][j]; return m; }
};
template <class T, class P> struct Sym<Matrix<Sparse, T, P>> {
    typedef Matrix<Sparse, T, P> M;
    static M make(const char* nm, size_t r, size_t c, Grid<double>& g) { Grid<T> e = symGrid<T>(nm, r, c, 1000); Pat<T> p = symPat<T>(nm, r, c); M m = mkSparse<M>(e, p); e = masked(e, p); g = Grid<double>(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = e.v[i][j]; return m; }
};
template <class P> struct Sym<Matrix<Zero, NullType, P>> {
    typedef Matrix<Zero, NullType, P> M;
    static M make(const char*, size_t r, size_t c, Grid<double>& g) { g = Grid<double>(r, c); return M(r, c); }
};
template <class X, class Y> struct Sym<MultipleMatrix<X, Y>> {
    typedef MultipleMatrix<X, Y> M;
    static M make(const char* nm, size_t r, size_t c, Grid<double>& g) {
        Grid<double> a, b; auto x = std::make_shared<X>(Sym<X>::make(nm, r, c, a)); auto y = std::make_shared<Y>(Sym<Y>::make(nm, r, c, b)); M m(x, y);
        g = a; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = a.v[i][j] + b.v[i][j]; return m; }
};
template <class T, class P> void structure(Matrix<Sparse, T, P> const& m, size_t r, size_t c) { checkSparse(m, r, c); }
template <class T, class P> void structure(Matrix<Dense, T, P> const& m, size_t r, size_t c) { sv_assert(m.getSize() == r * c, "size of the result"); }
template <class P> void structure(Matrix<Zero, NullType, P> const& m, size_t r, size_t c) { sv_assert(m.getSize() == r * c, "size of the result"); }
template <class X, class Y> Grid<double> gridOf(MultipleMatrix<X, Y> const& m)
{
    auto a = gridOf(m.getMatrix1()); auto b = gridOf(m.getMatrix2()); Grid<double> g(a.r, a.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) g.v[i][j] = double(a.v[i][j]) + double(b.v[i][j]); return g;
}
static DynamicMatrix dyn(size_t which, const char* nm, size_t r, size_t c, Grid<double>& g)
{
    switch (which) {
    case 0: return DynamicMatrix(new ZM(Sym<ZM>::make(nm, r, c, g)));
    case 1: return DynamicMatrix(new SF(Sym<SF>::make(nm, r, c, g)));
    case 2: return DynamicMatrix(new DF(Sym<DF>::make(nm, r, c, g)));
    case 3: return DynamicMatrix(new SD(Sym<SD>::make(nm, r, c, g)));
    case 4: return DynamicMatrix(new M1(Sym<M1>::make(nm, r, c, g)));
    case 5: return DynamicMatrix(new M2(Sym<M2>::make(nm, r, c, g)));
    default: return DynamicMatrix(new DD(Sym<DD>::make(nm, r, c, g)));
    }
}
static Grid<double> gridDyn(DynamicMatrix const& m) { DD d(m); return gridOf(d); }
