// Fillers, comparisons and deviations of matrices.
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
// ---- fillers
template <class M> void all()
{
    size_t r = sv_size("rows", 0, LIM(3, 5)), c = sv_size("cols", 0, LIM(3, 5)); typedef typename M::value_type T; T v = SvElem<T>::get("v", 1000); M m(r, c, AllFiller<T>(v)); auto g = gridOf(m);
    sv_assert(m.getNbRows() == r && m.getNbColumns() == c, "dimensions of a filled matrix"); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(g.v[i][j] == v, "filled with one value"); obs("m", g); sv_reach("end");
}
HARNESS(all_d) { all<DD>(); } HARNESS(all_dr) { all<DDR>(); } HARNESS(all_f) { all<DF>(); } HARNESS(all_i) { all<DI>(); }
template <class M> void numbers(int hi)
{
    size_t r = sv_size("rows", 0, hi), c = sv_size("cols", 0, hi); M m(r, c, 0, ContinuousNumberFiller()); structure(m, r, c); auto g = gridOf(m); const bool col = std::is_same<typename M::parameter::orientation, ColumnMajor>::value;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(g.v[i][j] == (col ? i + j * r : i * c + j) + 1, "numbers in storage order"); sv_assert(m.nnz() == r * c, "every element is stored"); sv_reach("end");
}
template <class M> void numbersD(int hi)
{
    size_t r = sv_size("rows", 0, hi), c = sv_size("cols", 0, hi); M m(r, c, ContinuousNumberFiller()); auto g = gridOf(m); const bool col = std::is_same<typename M::parameter::orientation, ColumnMajor>::value;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(g.v[i][j] == (col ? i + j * r : i * c + j) + 1, "numbers in storage order"); sv_reach("end");
}
HARNESS(numbers_d) { numbersD<DD>(LIM(3, 5)); } HARNESS(numbers_fr) { numbersD<DFR>(LIM(3, 5)); } HARNESS(numbers_sd) { numbers<SD>(LIM(3, 5)); } HARNESS(numbers_sdr) { numbers<SDR>(LIM(3, 5)); } HARNESS(numbers_sf) { numbers<SF>(LIM(3, 5)); }
template <class M> void diagonal()
{
    size_t r = sv_size("rows", 0, LIM(3, 5)), c = sv_size("cols", 0, LIM(3, 5)); typedef typename M::value_type T; T v = SvElem<T>::get("v", 1000); M m(r, c); bool thrown = false; try { DiagonalFiller<T> f(v); f(m); } catch (CoreException const&) { thrown = true; }
    sv_assert(thrown == (r != c), "a diagonal needs a square matrix"); if (!thrown) { auto g = gridOf(m); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(g.v[i][j] == (i == j ? v : T(0)), "element of a diagonal matrix"); } sv_reach("end");
}
HARNESS(diagonal_d) { diagonal<DD>(); } HARNESS(diagonal_dr) { diagonal<DDR>(); } HARNESS(diagonal_f) { diagonal<DF>(); } HARNESS(diagonal_i) { diagonal<DI>(); }
template <class M> void hilbert()
{
    size_t r = sv_size("rows", 0, LIM(3, 5)), c = sv_size("cols", 0, LIM(3, 5)); M m(r, c, HilbertFiller()); auto g = gridOf(m); typedef typename M::value_type T;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(g.v[i][j] == T(1) / T(i + j + 1), "element of a Hilbert matrix"); sv_reach("end");
}
HARNESS(hilbert_d) { hilbert<DD>(); } HARNESS(hilbert_fr) { hilbert<DFR>(); }
HARNESS(lists) { double a = sv_fd("a", -1000, 1000), b = sv_fd("b", -1000, 1000), c = sv_fd("c", -1000, 1000), d = sv_fd("d", -1000, 1000), e = sv_fd("e", -1000, 1000), f = sv_fd("f", -1000, 1000);
    DD m{{a, b, c}, {d, e, f}}; DDR n{{a, b, c}, {d, e, f}}; double x[2][3] = {{a, b, c}, {d, e, f}}; sv_assert(m.getNbRows() == 2 && m.getNbColumns() == 3 && n.getNbRows() == 2 && n.getNbColumns() == 3, "dimensions of a matrix given by rows"); for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) sv_assert(m(i, j) == x[i][j] && n(i, j) == x[i][j], "element of a matrix given by rows"); sv_reach("end"); }
// ---- comparisons: exactly the matrices of equal dimensions and elements are equal
template <class A, class B> void equals(int lo, int hi)
{
    size_t r = sv_size("rows", lo, hi), c = sv_size("cols", lo, hi), r2 = sv_size("rows2", lo, hi), c2 = sv_size("cols2", lo, hi); Grid<double> ga, gb; A a = Sym<A>::make("a", r, c, ga); B b = Sym<B>::make("b", r2, c2, gb);
    bool want = r == r2 && c == c2; if (want) { bool same = true; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) same = same & (ga.v[i][j] == gb.v[i][j]); want = same; }
    sv_assert(a.equal(b) == want, "equal exactly when dimensions and elements agree"); sv_assert(a.notEqual(b) == !want, "not equal is the opposite"); sv_reach("end");
}
HARNESS(equal_dd) { equals<DD, DD>(0, 2); } HARNESS(equal_ddr) { equals<DD, DDR>(0, 2); } HARNESS(equal_drd) { equals<DDR, DD>(1, 2); } HARNESS(equal_fd) { equals<DF, DD>(0, 2); } HARNESS(equal_ii) { equals<DI, DI>(1, 1); } HARNESS(equal_frd) { equals<DFR, DDR>(1, 2); }
template <class A, class B> void equalsSparse()
{
    typedef typename A::value_type T1; typedef typename B::value_type T2; size_t r = sv_size("rows", 1, 2), c = sv_size("cols", 1, 2), r2 = sv_size("rows2", 1, 2), c2 = sv_size("cols2", 1, 2);
    auto e = symGrid<T1>("a", r, c, 1000); auto f = symGrid<T2>("b", r2, c2, 1000); auto p = symPat<T1>("a", r, c); auto q = symPat<T2>("b", r2, c2); A a = mkSparse<A>(e, p); B b = mkSparse<B>(f, q);
    bool want = r == r2 && c == c2; for (size_t i = 0; want && i < r; ++i) for (size_t j = 0; j < c; ++j) want = want & (p.on[i][j] == q.on[i][j]); if (want) { bool same = true; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (p.on[i][j]) same = same & (double(e.v[i][j]) == double(f.v[i][j])); want = same; }
    sv_assert(a.equal(b) == want, "equal exactly when dimensions and stored elements agree"); sv_assert(a.notEqual(b) == !want, "not equal is the opposite"); sv_reach("end");
}
HARNESS(equal_sd) { equalsSparse<SD, SD>(); } HARNESS(equal_sdr) { equalsSparse<SD, SDR>(); } HARNESS(equal_sf) { equalsSparse<SF, SD>(); }
HARNESS(equal_zero) { size_t r = sv_size("rows", 0, 3), c = sv_size("cols", 0, 3), r2 = sv_size("rows2", 0, 3), c2 = sv_size("cols2", 0, 3); ZM a(r, c), b(r2, c2); sv_assert(a.equal(b) == (r == r2 && c == c2) && a.notEqual(b) == !a.equal(b) && (a == b) == a.equal(b) && (a != b) == !a.equal(b), "zero matrices are equal when their dimensions agree"); sv_reach("end"); }
template <class S> void storages() { size_t n = sv_size("n", 0, LIM(3, 5)), m = sv_size("m", 0, LIM(3, 5)); S a(n), b(m); bool want = a.size() == b.size(); for (size_t i = 0; i < a.size(); ++i) a.getDataPointer()[i] = sv_fd("a", -1000, 1000); for (size_t i = 0; i < b.size(); ++i) b.getDataPointer()[i] = sv_fd("b", -1000, 1000); if (want) { bool same = true; for (size_t i = 0; i < a.size(); ++i) same = same & (a.getDataPointer()[i] == b.getDataPointer()[i]); want = same; } sv_assert(a.equal(b) == want && a.notEqual(b) == !want, "storages are equal exactly when they hold the same elements"); sv_reach("end"); }
HARNESS(equal_storage) { storages<Storage<double, false, false, 0>>(); } HARNESS(equal_storage_stack) { storages<Storage<double, true, true, 3>>(); }
// ---- deviations
template <class A, class B> void deviation(int lo, int hi)
{
    size_t r = sv_size("rows", lo, hi), c = sv_size("cols", lo, hi); Grid<double> ga, gb; A a = Sym<A>::make("a", r, c, ga); B b = Sym<B>::make("b", r, c, gb); double d = getMaximalDeviation(a, b), q = getRootMeanSquareDeviation(a, b), ss = 0; bool hit = r * c == 0;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double x = ga.v[i][j] - gb.v[i][j]; sv_assert(d >= x && d >= -x, "maximal deviation is an upper bound"); hit = hit | (d == x) | (d == -x); ss = ss + x * x; }
    sv_assert(hit && d >= 0, "maximal deviation is attained"); if (r * c) sv_assert(q == std::sqrt(ss / double(r * c)), "root of the mean square deviation"); else sv_assert(d == 0 && q == 0, "no deviation without elements"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(dev_dd) { deviation<DD, DD>(0, 2); } HARNESS(dev_ddr) { deviation<DD, DDR>(1, 2); } HARNESS(dev_ff) { deviation<DF, DF>(1, 2); } HARNESS(dev_fd) { deviation<DFR, DD>(1, 2); } HARNESS(dev_sd) { deviation<SD, DD>(1, 2); } HARNESS(dev_ss) { deviation<SD, SF>(1, 1); } HARNESS(dev_zd) { deviation<ZM, DD>(0, 2); }
HARNESS(dev_dims) { size_t r = sv_size("rows", 0, 2), c = sv_size("cols", 0, 2), r2 = sv_size("rows2", 0, 2), c2 = sv_size("cols2", 0, 2); Grid<double> ga, gb; DD a = Sym<DD>::make("a", r, c, ga), b = Sym<DD>::make("b", r2, c2, gb); bool t1 = false, t2 = false; try { getMaximalDeviation(a, b); } catch (CoreException const&) { t1 = true; } try { getRootMeanSquareDeviation(a, b); } catch (CoreException const&) { t2 = true; } bool want = r != r2 || c != c2; sv_assert(t1 == want && t2 == want, "matrices of different dimensions are rejected"); sv_reach("end"); }
