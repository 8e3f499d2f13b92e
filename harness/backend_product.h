#pragma once
static Grid<double> mul(Grid<double> const& a, Grid<double> const& b)
{
    Grid<double> g(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { double s = 0; for (size_t k = 0; k < a.c; ++k) s = s + a.v[i][k] * b.v[k][j]; g.v[i][j] = s; } return g;
}
template <class A, class B, class I> void product(int lo, int hi, int lok, int hik)
{
    size_t r = sv_size("rows", lo, hi), k = sv_size("inner", lok, hik), c = sv_size("cols", lo, hi); Grid<double> ga, gb; A a = Sym<A>::make("a", r, k, ga); B b = Sym<B>::make("b", k, c, gb);
    auto x = (a * b).template execute<I>(); structure(x, r, c); same(gridOf(x), mul(ga, gb), "element of a product"); same(gridOf(a), ga, "operand unchanged"); same(gridOf(b), gb, "operand unchanged"); obs("x", gridOf(x)); sv_reach("end");
}
/// a result matrix that held something else before
template <class KA, class T, class I> void reused()
{
    typedef Matrix<KA, T, PC> A; typedef Matrix<Dense, T, PC> B;
    size_t r = sv_size("rows", 0, 2), k = sv_size("inner", 0, 2), c = sv_size("cols", 0, 2); Grid<double> ga, gb, gc; A a = Sym<A>::make("a", r, k, ga); B b = Sym<B>::make("b", k, c, gb); B x = Sym<B>::make("x", 2, 2, gc);
    MultiplicationFunctor<KA, T, PC, Dense, T, PC, Dense, T, PC, I>()(a, b, x); same(gridOf(x), mul(ga, gb), "product into a used matrix"); sv_reach("end");
}
static void dynamicBest()
{
    smallElements();
    size_t wa = sv_size("A", 0, 6), wb = sv_size("B", 0, 6), r = sv_size("rows", 1, 2), c = 1, k = 1; Grid<double> ga, gb; DynamicMatrix a = dyn(wa, "a", r, k, ga), b = dyn(wb, "b", k, c, gb);
    DynamicMatrix x = (a * b).execute<TheBestPolicy>(); sv_assert(getNbRows(x) == r && getNbColumns(x) == c, "dimensions of a dynamic product"); same(gridDyn(x), mul(ga, gb), "element of a dynamic product"); sv_reach("end");
}
