// Ownership: histories of copy, move, assign, swap, resize, write on two matrices against a plain value model.
#include "bb.h"
#include <memory>
#define STEPS LIM(2, 3)
template <class T, class P> Grid<T> full(Matrix<Dense, T, P> const& m) { return gridOf(m); }
template <class T, class P> Grid<T> full(Matrix<Sparse, T, P> const& m) { return gridOf(m); }
template <class M> struct Make;
template <class T, class P> struct Make<Matrix<Dense, T, P>> {
    typedef Matrix<Dense, T, P> M;
    static void set(M& m, Grid<T> const& g) { m.resize(g.r, g.c); put(m, g); }
    static M make(Grid<T> const& g) { M m(g.r, g.c); put(m, g); return m; }
};
template <class T, class P> struct Make<Matrix<Sparse, T, P>> {
    typedef Matrix<Sparse, T, P> M;
    static void set(M& m, Grid<T> const& g) { m.resize(g.r, g.c, g.r * g.c); putSparse(m, g, fullPat<T>(g.r, g.c)); }
    static M make(Grid<T> const& g) { M m(g.r, g.c, g.r * g.c); putSparse(m, g, fullPat<T>(g.r, g.c)); return m; }
};
template <class M, class T> void agree(M const& m, Grid<T> const& g, bool valid)
{
    if (!valid) return; // moved-from: only destruction and assignment are allowed
    sv_assert(m.getNbRows() == g.r && m.getNbColumns() == g.c && m.getSize() == g.r * g.c, "dimensions after the history");
    same(full(m), g, "elements after the history");
}
template <class M> void history()
{
    typedef typename M::value_type T; size_t base = sv_live_heap();
    {
        Grid<T> ga = symGrid<T>("a", 2, 1, 1000), gb = symGrid<T>("b", 2, 2, 1000), gn = symGrid<T>("n", 1, 2, 1000); T w = SvElem<T>::get("w", 1000);
        M a = Make<M>::make(ga), b = Make<M>::make(gb); bool va = true, vb = true;
        for (int s = 0; s < STEPS; ++s) {
            M &x = a, &y = b; Grid<T>&gx = ga, &gy = gb; bool &vx = va, &vy = vb;
            size_t op = sv_size("op", 0, 10);
            switch (op) {
            case 0: if (vb) { a = b; ga = gb; va = true; } break;
            case 1: if (va) { b = a; gb = ga; vb = true; } break;
            case 2: if (vb) { a = std::move(b); ga = gb; va = true; vb = false; } break;
            case 3: { swap(a, b); std::swap(ga, gb); std::swap(va, vb); } break;
            case 4: if (va) { M c(a); agree(c, ga, true); c.begin()[0] = c.begin()[0] + 1; agree(a, ga, true); } break;
            case 5: if (va) { M c(std::move(a)); agree(c, ga, true); va = false; } break;
            case 6: if (vb) { M c(std::move(b)); agree(c, gb, true); b = c; c.begin()[0] = c.begin()[0] + 1; } break;
            case 7: if (va) { M& r = a; a = r; } break;
            case 8: if (va && ga.r * ga.c) { a.begin()[0] = w; ga.v[0][0] = w; } break;
            case 9: if (vb) { Make<M>::set(b, gn); gb = gn; } break;
            case 10: { M c; a = c; ga = Grid<T>(0, 0); va = false; M d; d = Make<M>::make(gn); agree(d, gn, true); } break;
            }
            agree(a, ga, va); agree(b, gb, vb);
        }
    }
    sv_assert(sv_live_heap() == base, "every heap block is released exactly once");
    sv_reach("end");
}
HARNESS(history_dense) { history<DD>(); }
HARNESS(history_dense_float_rowmajor) { history<DFR>(); }
HARNESS(history_sparse) { history<SD>(); }
HARNESS(history_sparse_rowmajor) { history<SDR>(); }

/// A matrix on memory of the caller: copying it gives an independent owner, destruction leaves the memory alone.
HARNESS(external_memory)
{
    size_t base = sv_live_heap();
    {
        double* mem = new double[4]; Grid<double> g = symGrid<double>("e", 2, 2, 1000);
        {
            DD m(2, 2, mem); put(m, g);
            DD c(m); same(gridOf(c), g, "copy of a matrix on external memory"); sv_assert(c.getDataPointer() != mem, "the copy has its own memory");
            c(0, 0) = 77; sv_assert(m(0, 0) == g.v[0][0], "the copy is independent");
            DD d(std::move(m)); same(gridOf(d), g, "moved matrix on external memory"); sv_assert(d.getDataPointer() == mem, "a move keeps the external memory");
            DD e(1, 1); e(0, 0) = 5; swap(d, e); same(gridOf(e), g, "swap with external memory"); sv_assert(d(0, 0) == 5, "swap with owner");
            bool thrown = false; try { e.resize(3, 3); } catch (std::runtime_error&) { thrown = true; } sv_assert(thrown, "memory of the caller cannot be resized");
        }
        sv_assert(mem[0] == g.v[0][0] && mem[3] == g.v[1][1], "external memory survives"); delete[] mem;
    }
    sv_assert(sv_live_heap() == base, "no leak with external memory"); sv_reach("end");
}

/// The n-th allocation of an operation fails: the operation throws, nothing leaks, nothing is freed twice.
template <class M> void outOfMemory(int which)
{
    typedef typename M::value_type T; size_t base = sv_live_heap();
    {
        Grid<T> ga = symGrid<T>("a", 2, 1, 1000), gb = symGrid<T>("b", 2, 2, 1000);
        M a = Make<M>::make(ga), b = Make<M>::make(gb); size_t n = sv_size("fail", 0, 3); bool thrown = false;
        sv_fail_alloc(n);
        try {
            if (which == 0) a = b; else if (which == 1) { M c(b); agree(c, gb, true); } else if (which == 2) a.resize(3, 3); else { M c(3, 2); c = b; agree(c, gb, true); }
        } catch (std::bad_alloc&) { thrown = true; }
        sv_fail_alloc(-1);
        agree(b, gb, true); if (!thrown && which == 0) agree(a, gb, true); if (which == 1 || which == 3) agree(a, ga, true);
        a = b; agree(a, gb, true);
    }
    sv_assert(sv_live_heap() == base, "no leak after a failed allocation"); sv_reach("end");
}
HARNESS(nomem_dense_assign) { outOfMemory<DD>(0); } HARNESS(nomem_dense_copy) { outOfMemory<DD>(1); } HARNESS(nomem_dense_resize) { outOfMemory<DD>(2); } HARNESS(nomem_dense_ctor) { outOfMemory<DD>(3); }
HARNESS(nomem_sparse_assign) { outOfMemory<SD>(0); } HARNESS(nomem_sparse_copy) { outOfMemory<SD>(1); } HARNESS(nomem_sparse_resize) { outOfMemory<SD>(2); } HARNESS(nomem_sparse_ctor) { outOfMemory<SD>(3); }

/// The storage classes themselves.
template <class S> void eq4(S const& s, const double* v, const char* l) { sv_assert(s.size() == 4, l); size_t k = 0; for (auto it = s.begin(); it != s.end(); ++it, ++k) sv_assert(*it == v[k], l); sv_assert(k == 4, l); }
template <class S> void storageOps(const double* v)
{
    size_t base = sv_live_heap();
    {
        S a(4), z(4); for (int k = 0; k < 4; ++k) { a.getDataPointer()[k] = v[k]; z.getDataPointer()[k] = -1; }
        S b(a); eq4(b, v, "copied storage"); *b.begin() = 99; eq4(a, v, "copied storage is independent");
        S& ra = a; a = ra; eq4(a, v, "self assignment keeps the values");
        z = a; eq4(z, v, "assigned storage"); *z.begin() = 98; eq4(a, v, "assigned storage is independent");
        S c(std::move(a)); eq4(c, v, "moved storage"); z = std::move(c); eq4(z, v, "move assigned storage");
        S l({v[3], v[2], v[1], v[0]}); double r[4] = {v[3], v[2], v[1], v[0]}; eq4(l, r, "storage from a list");
        using std::swap; swap(l, z); eq4(l, v, "swapped storage"); eq4(z, r, "swapped storage");
    }
    sv_assert(sv_live_heap() == base, "storage releases its memory exactly once");
}
HARNESS(storage_classes)
{
    double v[4]; for (int k = 0; k < 4; ++k) v[k] = sv_fd("v", -1000, 1000);
    size_t which = sv_size("which", 0, 2);
    if (which == 0) storageOps<Storage<double, false, false, 0>>(v); else if (which == 1) storageOps<Storage<double, false, true, 4>>(v);
    else storageOps<Storage<double, true, true, 4>>(v);
    sv_reach("end");
}
/// conversions between storage kinds copy the values; external memory stays the caller's
HARNESS(storage_conversion)
{
    size_t base = sv_live_heap(); double v[4]; for (int k = 0; k < 4; ++k) v[k] = sv_fd("v", -1000, 1000);
    {
        Storage<double, false, false, 0> f({v[0], v[1], v[2], v[3]}); Storage<double, true, true, 4> s({v[0], v[1], v[2], v[3]}); Storage<double, false, true, 4> h({v[0], v[1], v[2], v[3]});
        Storage<double, false, false, 0> f1(s), f2(h); eq4(f1, v, "flexible from stack"); eq4(f2, v, "flexible from fixed heap");
        Storage<double, false, true, 4> h1(f), h2(s); eq4(h1, v, "fixed heap from flexible"); eq4(h2, v, "fixed heap from stack");
        Storage<float, false, false, 0> g(f); Storage<double, false, false, 0> back(g); eq4(back, v, "through float");
        double mem[4] = {v[0], v[1], v[2], v[3]}, mem2[4] = {-1, -2, -3, -4};
        { Storage<double, false, true, 4> p(mem, 4); eq4(p, v, "fixed proxy"); p = h; Storage<double, false, true, 4> q(mem2, 4); q = p; eq4(q, v, "assigning to a proxy writes the external memory"); sv_assert(mem2[3] == v[3], "proxy memory"); }
        { Storage<double, false, false, 0> p(mem, 4); Storage<double, false, false, 0> q(p); eq4(q, v, "copy of a flexible proxy"); q.getDataPointer()[0] = 5; sv_assert(mem[0] == v[0], "copy of a proxy is independent"); }
        bool t1 = false, t2 = false;
        try { Storage<double, false, true, 4> bad({v[0], v[1]}); } catch (std::runtime_error&) { t1 = true; }
        Storage<double, false, false, 0> two({v[0], v[1]});
        try { Storage<double, false, true, 4> bad(two); } catch (std::runtime_error&) { t2 = true; }
        sv_assert(t1 && t2, "wrong number of values is rejected");
        f.fill(v[2]); for (auto x : f) sv_assert(x == v[2], "fill sets every value"); f.resize(2); sv_assert(f.size() == 2, "resize sets the size");
    }
    sv_assert(sv_live_heap() == base, "storages release their memory exactly once"); sv_reach("end");
}
