// Shapes beyond the exhaustively explored ones, see large.cpp.
#pragma once
struct Big { size_t r, c; std::vector<double> v; Big(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), v(r_ * c_, 0.0) {} double& at(size_t i, size_t j) { return v[i * c + j]; } double at(size_t i, size_t j) const { return v[i * c + j]; } };
static const size_t shapes[][2] = {{67, 5}, {5, 67}, {260, 1}, {1, 260}, {34, 33}, {1030, 1}, {1, 1030}};
static Big shape(size_t n = 7) { size_t s = sv_size("shape", 0, n - 1); return Big(shapes[s][0], shapes[s][1]); }
/// integers within the precision of a float, so that every kind of matrix holds them exactly; positive ones are significant
static double elem(const char* n, bool pos) { return pos ? sv_fd(n, 1, 1000) : sv_fd(n, -1000, 1000); }
static bool on(size_t i, size_t j) { return (i * 7 + j * 11) % 5 < 2; }
static Big values(const char* n, size_t r, size_t c, bool sparse = false) { Big b(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (!sparse || on(i, j)) b.at(i, j) = elem(n, sparse); return b; }
static Big numbers(size_t r, size_t c, bool sparse) { Big b(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (!sparse || on(i, j)) b.at(i, j) = double((i * 5 + j * 3) % 7) + 1; return b; }
template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> { typedef Matrix<Dense, T, P> M; static M of(Big const& b) { M m(b.r, b.c); for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) m.getDataPointer()[posOf<P>(i, j, b.r, b.c)] = T(b.at(i, j)); return m; } };
template <class T, class P> struct Make<Matrix<Sparse, T, P>> { typedef Matrix<Sparse, T, P> M;
    static M of(Big const& b) { size_t n = 0; for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) n += on(i, j); M m(b.r, b.c, n); const bool col = std::is_same<typename P::orientation, ColumnMajor>::value; size_t lines = col ? b.c : b.r, keys = col ? b.r : b.c, k = 0; auto v = m.begin(); auto ky = m.beginKey(); auto of = m.beginOffset();
        for (size_t l = 0; l < lines; ++l) { of[l] = k; for (size_t q = 0; q < keys; ++q) { size_t i = col ? q : l, j = col ? l : q; if (on(i, j)) { v[k] = T(b.at(i, j)); ky[k] = q; ++k; } } } of[lines] = k; return m; } };
template <class P> struct Make<Matrix<Zero, NullType, P>> { typedef Matrix<Zero, NullType, P> M; static M of(Big const& b) { return M(b.r, b.c); } };
template <class M> struct IsSparse : std::is_same<typename M::matrix_type, Sparse> {};
template <class T, class P> void holds(Matrix<Dense, T, P> const& m, Big const& b, const char* l)
{
    sv_assert(m.getNbRows() == b.r && m.getNbColumns() == b.c && m.getSize() == b.r * b.c, l); if (m.getNbRows() != b.r || m.getNbColumns() != b.c) return;
    for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) sv_assert(m.getDataPointer()[posOf<P>(i, j, b.r, b.c)] == b.at(i, j), l);
}
template <class T, class P> void holds(Matrix<Sparse, T, P> const& m, Big const& b, const char* l)
{
    checkSparse(m, b.r, b.c); if (m.getNbRows() != b.r || m.getNbColumns() != b.c) return; const bool col = std::is_same<typename P::orientation, ColumnMajor>::value; size_t lines = col ? b.c : b.r; Big g(b.r, b.c);
    for (size_t n = 0; n < lines; ++n) for (size_t k = m.beginOffset()[n], e = m.beginOffset()[n + 1]; k < e; ++k) { size_t q = m.beginKey()[k]; (col ? g.at(q, n) : g.at(n, q)) = m.begin()[k]; }
    for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) sv_assert(g.at(i, j) == b.at(i, j), l);
}
template <class P> void holds(Matrix<Zero, NullType, P> const& m, Big const& b, const char* l) { sv_assert(m.getNbRows() == b.r && m.getNbColumns() == b.c, l); }
static const size_t prods[][3] = {{67, 2, 2}, {2, 67, 2}, {2, 2, 67}, {130, 1, 1}, {1, 260, 1}, {1, 1, 130}, {9, 17, 10}, {17, 9, 18}, {2, 300, 3}};
template <class A, class B, class I = Native> void prod()
{
    size_t s = sv_size("shape", 0, 8), r = prods[s][0], k = prods[s][1], c = prods[s][2]; bool first = sv_bool("first operand symbolic"); Big a = first ? values("a", r, k, IsSparse<A>::value) : numbers(r, k, IsSparse<A>::value), b = first ? numbers(k, c, IsSparse<B>::value) : values("b", k, c, IsSparse<B>::value), w(r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double x = 0; for (size_t q = 0; q < k; ++q) x = x + a.at(i, q) * b.at(q, j); w.at(i, j) = x; }
    A x = Make<A>::of(a); B y = Make<B>::of(b); holds((x * y).template execute<I>(), w, "element of a product"); holds(x, a, "operand unchanged"); holds(y, b, "operand unchanged"); sv_reach("end");
}
