// Element addressing, cursors and views of dense matrices.
#include "bb.h"
#define N LIM(3, 5)
template <class M> void access()
{
    typedef typename M::value_type T; typedef typename M::parameter P;
    size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N);
    Grid<T> g = symGrid<T>("e", r, c, 1000000);
    M m(r, c);
    sv_assert(m.getNbRows() == r && m.getNbColumns() == c && m.getSize() == r * c, "dimensions as requested");
    sv_assert(m.getLdRows() == r && m.getLdColumns() == c, "leading dimensions of an owning matrix");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = g.v[i][j];
    const M& cm = m;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) {
        sv_assert(sv_same(cm(i, j), g.v[i][j]), "element written at (i,j) is read back at (i,j)");
        sv_assert(sv_same(m.getDataPointer()[posOf<P>(i, j, r, c)], g.v[i][j]), "element lies at the position its orientation defines");
        sv_assert(&m(i, j) == m.getDataPointer() + posOf<P>(i, j, r, c), "element address");
    }
    size_t n = 0; for (auto it = m.begin(); it != m.end(); ++it) { sv_assert(&*it == m.getDataPointer() + n, "iteration visits storage in order"); ++n; }
    sv_assert(n == r * c, "iteration visits every element once");
    obs("m", gridOf(m)); sv_reach("end");
}
HARNESS(access_dd) { access<DD>(); } HARNESS(access_ddr) { access<DDR>(); }
HARNESS(access_df) { access<DF>(); } HARNESS(access_dir) { access<DIR_>(); } HARNESS(access_di) { access<DI>(); } HARNESS(access_dfr) { access<DFR>(); }

/// Outer and inner cursor visit exactly the elements of line `l`, position `k`, in order; and backwards.
template <class M, class Outer, class Inner, bool rowsOuter, class MM> void walk(MM& m, Grid<typename M::value_type> const& g)
{
    typedef Cursor<MM, Outer> O; typedef Cursor<O, Inner> I;
    size_t no = rowsOuter ? g.r : g.c, ni = rowsOuter ? g.c : g.r, l = 0;
    for (O o(m, 0), oe(m, no); o != oe; ++o, ++l) {
        sv_assert(*o == l, "outer cursor counts the lines"); size_t k = 0;
        for (I i(m, o.begin()), ie(m, o.end()); i != ie; ++i, ++k) {
            sv_assert(k < ni, "inner cursor stays inside the line");
            sv_assert(sv_same(*i, rowsOuter ? g.v[l][k] : g.v[k][l]), "cursor visits the elements of the line in order");
        }
        sv_assert(k == ni, "inner cursor visits the whole line");
        I b(m, o.end()); for (size_t q = ni; q-- > 0;) { --b; sv_assert(sv_same(*b, rowsOuter ? g.v[l][q] : g.v[q][l]), "cursor walks backwards"); }
    }
    sv_assert(l == no, "outer cursor visits every line");
}
template <class M> void cursors()
{
    typedef typename M::value_type T; const bool col = std::is_same<typename M::orientation, ColumnMajor>::value;
    size_t r = sv_size("rows", 0, N), c = sv_size("cols", 0, N);
    Grid<T> g = symGrid<T>("e", r, c, 1000000); MK_DENSE(M, m, g); const M& cm = m;
    walk<M, Direction::Row, Direction::Column, true>(m, g); walk<M, Direction::Column, Direction::Row, false>(m, g);
    walk<M, Direction::Row, Direction::Column, true>(cm, g); walk<M, Direction::Column, Direction::Row, false>(cm, g);
    typedef Cursor<M, Direction::Row> RC; typedef Cursor<RC, Direction::Column> CC;
    for (RC rc(m, 0), re(m, r); rc != re; ++rc) for (CC cc(m, rc.begin()), ce(m, rc.end()); cc != ce; ++cc) *cc = *cc + 1;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(m(i, j) == g.v[i][j] + 1, "writing through cursors touches every element once");
    (void)col; obs("m", gridOf(m)); sv_reach("end");
}
HARNESS(cursors_dd) { cursors<DD>(); } HARNESS(cursors_ddr) { cursors<DDR>(); } HARNESS(cursors_df) { cursors<DF>(); } HARNESS(cursors_dir) { cursors<DIR_>(); }

template <class M> void inits()
{
    typedef typename M::value_type T;
    Grid<T> g = symGrid<T>("e", 2, 3, 1000000);
    M m{{g.v[0][0], g.v[0][1], g.v[0][2]}, {g.v[1][0], g.v[1][1], g.v[1][2]}};
    sv_assert(m.getNbRows() == 2 && m.getNbColumns() == 3 && m.getSize() == 6, "nested list dimensions");
    same(gridOf(m), g, "nested list element (i,j)");
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) sv_assert(sv_same(m(i, j), g.v[i][j]), "nested list element (i,j) by index");
    Grid<T> h = symGrid<T>("f", 3, 1, 1000000); M k{{h.v[0][0]}, {h.v[1][0]}, {h.v[2][0]}}; same(gridOf(k), h, "nested list column");
    T x = SvElem<T>::get("x", 1000000); m = x;
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) sv_assert(sv_same(m(i, j), x), "assigning a value sets every element");
    obs("k", gridOf(k)); sv_reach("end");
}
HARNESS(inits_dd) { inits<DD>(); } HARNESS(inits_ddr) { inits<DDR>(); } HARNESS(inits_df) { inits<DF>(); } HARNESS(inits_dir) { inits<DIR_>(); }

/// A view of a block of a bigger matrix: same elements, no others, and writes reach the parent.
template <class M> void view()
{
    typedef typename M::value_type T; typedef Matrix<Dense, T, PCS> V;
    size_t R = sv_size("R", 1, N), C = sv_size("C", 1, N);
    size_t nr = sv_size("nr", 1, R), nc = sv_size("nc", 1, C), br = sv_size("br", 0, R - nr), bc = sv_size("bc", 0, C - nc);
    Grid<T> g = symGrid<T>("e", R, C, 1000000); MK_DENSE(M, m, g);
    V v(m, nr, nc, br, bc); const V& cv = v;
    sv_assert(v.getNbRows() == nr && v.getNbColumns() == nc && v.getSize() == nr * nc && v.getLdRows() == R && v.getLdColumns() == C, "view dimensions");
    Grid<T> s(nr, nc); for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) s.v[i][j] = g.v[br + i][bc + j];
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) { sv_assert(&v(i, j) == &m(br + i, bc + j), "view element aliases the parent element"); sv_assert(sv_same(cv(i, j), s.v[i][j]), "view element value"); }
    walk<V, Direction::Row, Direction::Column, true>(v, s); walk<V, Direction::Column, Direction::Row, false>(v, s); walk<V, Direction::Row, Direction::Column, true>(cv, s);
    size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it, ++n) { sv_assert(n < nr * nc, "view iteration ends"); sv_assert(&*it == &v(n % nr, n / nr), "view iteration is column by column"); *it = *it + 1; }
    sv_assert(n == nr * nc, "view iteration visits every element");
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
        bool in = i >= br && i < br + nr && j >= bc && j < bc + nc;
        sv_assert(m(i, j) == (in ? g.v[i][j] + 1 : g.v[i][j]), "writing through the view changes the block and nothing else");
    }
    // backwards from the end, and from a walked end
    n = nr * nc; for (auto it = v.end(); it != v.begin();) { --it; sv_assert(n > 0, "backward view iteration ends"); --n; sv_assert(&*it == &v(n % nr, n / nr), "backward view iteration is column by column"); }
    sv_assert(n == 0, "backward view iteration visits every element");
    auto wi = v.begin(); for (size_t q = 0; q < nr * nc; ++q) ++wi;
    sv_assert(wi == v.end(), "walking reaches the end"); for (size_t q = nr * nc; q-- > 0;) { --wi; sv_assert(&*wi == &v(q % nr, q / nr), "walking back from a walked end"); }
    n = 0; for (auto it = cv.begin(); it != cv.end(); ++it, ++n) { sv_assert(n < nr * nc, "const view iteration ends"); sv_assert(&*it == &v(n % nr, n / nr), "const view iteration is column by column"); }
    sv_assert(n == nr * nc, "const view iteration visits every element");
    V w(v), x; x = v; sv_assert(&w(0, 0) == &m(br, bc) && &x(nr - 1, nc - 1) == &m(br + nr - 1, bc + nc - 1), "copies of a view denote the same block");
    obs("m", gridOf(m)); sv_reach("end");
}
HARNESS(view_dd) { view<DD>(); } HARNESS(view_df) { view<DF>(); } HARNESS(view_di) { view<DI>(); }

/// Blocks without rows or columns have no element to visit.
template <class M> void view_empty()
{
    typedef typename M::value_type T; typedef Matrix<Dense, T, PCS> V;
    size_t R = sv_size("R", 1, 3), C = sv_size("C", 1, 3); Grid<T> g = symGrid<T>("e", R, C, 1000000); MK_DENSE(M, m, g);
    size_t nr = sv_size("nr", 0, R), nc = sv_size("nc", 0, C); sv_assume(nr == 0 || nc == 0);
    V v(m, nr, nc, sv_size("br", 0, R - nr), sv_size("bc", 0, C - nc)); const V& cv = v; size_t n = 0;
    for (auto it = v.begin(); it != v.end() && n < 100; ++it) ++n; sv_assert(n == 0, "empty block has an empty range");
    for (auto it = cv.begin(); it != cv.end() && n < 100; ++it) ++n; sv_assert(n == 0, "empty block has an empty const range");
    sv_assert(v.getSize() == 0, "empty block has no elements"); same(gridOf(m), g, "parent is untouched"); sv_reach("end");
}
HARNESS(view_empty_dd) { view_empty<DD>(); } HARNESS(view_empty_di) { view_empty<DI>(); }

/// A matrix on external memory writes through to it and never frees it.
HARNESS(external)
{
    size_t r = sv_size("rows", 1, N), c = sv_size("cols", 1, N); Grid<double> g = symGrid<double>("e", r, c, 1000000);
    double buf[32]; for (int i = 0; i < 32; ++i) buf[i] = -7;
    { DD m(r, c, buf); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = g.v[i][j]; sv_assert(m.getDataPointer() == buf && m.getSize() == r * c, "external memory is used in place"); }
    { DDR m(r, c, buf); sv_assert(m(0, 0) == g.v[0][0], "row major on the same memory"); }
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(buf[i + j * r], g.v[i][j]), "writes reach the external memory");
    for (size_t k = r * c; k < 32; ++k) sv_assert(buf[k] == -7, "memory behind the matrix is untouched");
    sv_reach("end");
}
