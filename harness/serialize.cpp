// Saving and loading through the serialization members, with an archive that records the values in order.
#include "bb.h"
#include "BlasBooster/Core/Norm.h"
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/base_object.hpp>
/// the tape: one cell per primitive, tagged by its kind
struct Tape { std::vector<double> d; std::vector<uint64_t> u; std::vector<char> k; size_t n = 0, pos = 0; void add(char kind, uint64_t x, double y) { k.push_back(kind); u.push_back(x); d.push_back(y); ++n; } };
struct OArc {
    typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading; Tape& t; OArc(Tape& t_) : t(t_) {}
    void put(size_t v) { t.add('u', v, 0); } void put(double v) { t.add('d', 0, v); } void put(float v) { t.add('f', 0, v); } void put(int v) { t.add('i', uint64_t(int64_t(v)), 0); }
    template <class T> typename std::enable_if<std::is_arithmetic<T>::value, OArc&>::type operator<<(T const& v) { put(v); return *this; }
    template <class T> typename std::enable_if<!std::is_arithmetic<T>::value, OArc&>::type operator<<(T const& v) { boost::serialization::access::serialize(*this, const_cast<T&>(v), 0u); return *this; }
    template <class T> OArc& operator&(T const& v) { return *this << v; }
};
struct IArc {
    typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading; Tape& t; IArc(Tape& t_) : t(t_) {}
    char kind(size_t&) { return 'u'; } char kind(double&) { return 'd'; } char kind(float&) { return 'f'; } char kind(int&) { return 'i'; }
    void get(size_t& v) { v = t.u[t.pos++]; } void get(double& v) { v = t.d[t.pos++]; } void get(float& v) { v = float(t.d[t.pos++]); } void get(int& v) { v = int(t.u[t.pos++]); }
    template <class T> typename std::enable_if<std::is_arithmetic<T>::value, IArc&>::type operator>>(T& v) { sv_assert(t.pos < t.n && t.k[t.pos] == kind(v), "loading reads what saving wrote, in the same order"); get(v); return *this; }
    template <class T> typename std::enable_if<!std::is_arithmetic<T>::value, IArc&>::type operator>>(T&& v) { boost::serialization::access::serialize(*this, v, 0u); return *this; }
    template <class T> IArc& operator&(T&& v) { return *this >> v; }
};
template <class M> void save(Tape& t, M const& m) { OArc o(t); o << m; }
template <class M> void load(Tape& t, M& m) { IArc i(t); i >> m; sv_assert(t.pos == t.n, "loading consumes everything saving wrote"); }
/// dense matrices: into a fresh matrix, into a used one, then used further (value semantics of the loaded matrix)
template <> struct SvElem<size_t> { static size_t get(const char* n, int64_t b) { return size_t(sv_int(n, 0, b)); } };
template <class T, class P> void denseBody()
{
    typedef Matrix<Dense, T, P> M;
    size_t r = sv_size("rows", 0, LIM(2, 3)), c = sv_size("cols", 0, LIM(2, 3)); Grid<T> e = symGrid<T>("e", r, c, 1000); MK_DENSE(M, m, e);
    Tape t; save(t, m); same(gridOf(m), e, "saving leaves the matrix alone");
    int fresh = sv_concretize(sv_int("fresh", 0, 1)); size_t r2 = fresh ? 0 : sv_size("oldrows", 0, 2), c2 = fresh ? 0 : sv_size("oldcols", 0, 2);
    { M x; if (!fresh) { Grid<T> o = symGrid<T>("o", r2, c2, 1000); MK_DENSE(M, y, o); x = y; if (!std::is_same<T, int>::value) (void)x.getNorm(); }
      load(t, x); sv_assert(x.getNbRows() == r && x.getNbColumns() == c && x.getSize() == r * c, "dimensions of a loaded matrix"); same(gridOf(x), e, "element of a loaded matrix"); obs("x", gridOf(x));
      sv_assert(x.getDataPointer() != m.getDataPointer() || r * c == 0, "a loaded matrix has its own memory");
      MK_DENSE(M, fr, e); if (!std::is_same<T, int>::value) sv_assert(x.getNorm() == fr.getNorm(), "norm of a loaded matrix");
      M copy(x); if (r && c) x(0, 0) = T(7); same(gridOf(copy), e, "copy of a loaded matrix"); x.resize(1, 1); sv_assert(x.getSize() == 1, "a loaded matrix can be resized"); same(gridOf(m), e, "the saved matrix is unchanged"); }
}
template <class T, class P> void dense() { uint64_t live = sv_live_heap(); denseBody<T, P>(); sv_assert(sv_live_heap() == live, "memory of a loaded matrix is released exactly once"); sv_reach("end"); }
HARNESS(dense_d) { dense<double, PC>(); } HARNESS(dense_dr) { dense<double, PR>(); } HARNESS(dense_f) { dense<float, PC>(); } HARNESS(dense_i) { dense<int, PC>(); }
/// large shapes, every element symbolic
template <class T, class P> void denseLong()
{
    typedef Matrix<Dense, T, P> M; uint64_t live = sv_live_heap();
    { static const size_t sh[][2] = {{67, 5}, {5, 67}, {260, 1}, {1, 1030}, {34, 33}}; size_t n = sv_size("shape", 0, 4), r = sh[n][0], c = sh[n][1], old = sv_size("old", 0, 2) * 300; std::vector<T> e; M m(r, c); for (size_t i = 0; i < r * c; ++i) { e.push_back(SvElem<T>::get("e", 1000)); m.getDataPointer()[i] = e[i]; }
      Tape t; save(t, m); M x(old, 2); load(t, x); sv_assert(x.getNbRows() == r && x.getNbColumns() == c && x.getSize() == r * c, "dimensions of a loaded matrix"); for (size_t i = 0; i < r * c; ++i) sv_assert(x.getDataPointer()[i] == e[i] && m.getDataPointer()[i] == e[i], "element of a loaded matrix"); }
    sv_assert(sv_live_heap() == live, "memory of a loaded matrix is released exactly once"); sv_reach("end");
}
HARNESS(dense_long) { denseLong<double, PC>(); } HARNESS(dense_long_fr) { denseLong<float, PR>(); }
HARNESS(sparse_long)
{
    typedef SparseStorage<double, size_t, false, 0> S; uint64_t live = sv_live_heap();
    { static const size_t sh[][2] = {{130, 3}, {3, 130}, {260, 260}, {0, 300}}; size_t w = sv_size("shape", 0, 3), n = sh[w][0], l = sh[w][1]; S a(n, l + 1); std::vector<double> v; std::vector<size_t> k, o;
      for (size_t i = 0; i < n; ++i) { v.push_back(sv_fd("v", -1000, 1000)); k.push_back(size_t(sv_int("k", 0, 1000))); a.begin()[i] = v[i]; a.beginKey()[i] = k[i]; } for (size_t i = 0; i < l + 1; ++i) { o.push_back(size_t(sv_int("o", 0, 1000))); a.beginOffset()[i] = o[i]; }
      Tape t; save(t, a); S b(sv_size("old", 0, 1) * 200, 1); load(t, b); sv_assert(b.nnz() == n && b.sizeOffset() == l + 1, "sizes of loaded sparse arrays");
      for (size_t i = 0; i < n; ++i) sv_assert(b.begin()[i] == v[i] && b.beginKey()[i] == k[i], "value and key of loaded sparse arrays"); for (size_t i = 0; i < l + 1; ++i) sv_assert(b.beginOffset()[i] == o[i], "offset of loaded sparse arrays"); }
    sv_assert(sv_live_heap() == live, "memory of loaded sparse arrays is released exactly once"); sv_reach("end");
}
/// storages
template <class T> void dynStorageBody()
{
    typedef Storage<T, false, false, 0> S; size_t n = sv_size("n", 0, 3), o = sv_size("old", 0, 3); T v[3]; S a(n); for (size_t i = 0; i < n; ++i) { v[i] = SvElem<T>::get("v", 1000); a.begin()[i] = v[i]; }
    Tape t; save(t, a); T ext[3] = {T(1), T(2), T(3)}; int kind = sv_concretize(sv_int("target", 0, 2));
    if (kind == 0) { S b; load(t, b); sv_assert(b.size() == n, "size of a loaded storage"); for (size_t i = 0; i < n; ++i) sv_assert(b.begin()[i] == v[i], "value of a loaded storage"); }
    else if (kind == 1) { S b(o); for (size_t i = 0; i < o; ++i) b.begin()[i] = T(9); load(t, b); sv_assert(b.size() == n, "size of a loaded storage"); for (size_t i = 0; i < n; ++i) sv_assert(b.begin()[i] == v[i], "value of a loaded storage"); }
    else { { S b(ext, o); load(t, b); sv_assert(b.size() == n, "size of a loaded storage"); for (size_t i = 0; i < n; ++i) sv_assert(b.begin()[i] == v[i], "value of a loaded storage"); } sv_assert(ext[0] == T(1) && ext[1] == T(2) && ext[2] == T(3), "memory of the caller is left alone by loading"); }
}
template <class T> void dynStorage() { uint64_t live = sv_live_heap(); dynStorageBody<T>(); sv_assert(sv_live_heap() == live, "memory of a loaded storage is released exactly once"); sv_reach("end"); }
HARNESS(storage_d) { dynStorage<double>(); } HARNESS(storage_u) { dynStorage<size_t>(); }
/// storages of fixed size, on the stack and on the heap
HARNESS(storage_fixed)
{
    uint64_t live = sv_live_heap();
    { double v[3], ext[3] = {1, 2, 3}; for (double& x : v) x = sv_fd("v", -1000, 1000); int tgt = sv_concretize(sv_int("target", 0, 1)); typedef Storage<double, false, true, 3> H; H h; for (int i = 0; i < 3; ++i) h.begin()[i] = v[i];
      Tape t; save(t, h);
      if (tgt == 0) { H g; load(t, g); for (int i = 0; i < 3; ++i) sv_assert(g.begin()[i] == v[i], "value of a loaded fixed storage"); }
      else { H g(ext, 3); load(t, g); for (int i = 0; i < 3; ++i) sv_assert(g.begin()[i] == v[i], "value of a loaded fixed storage"); } }
    sv_assert(sv_live_heap() == live, "memory of a loaded fixed storage is released exactly once"); sv_reach("end");
}
/// compressed sparse arrays (reached through the storage base class of a sparse matrix)
HARNESS(sparse)
{
    typedef SparseStorage<double, size_t, false, 0> S; uint64_t live = sv_live_heap();
    { size_t n = sv_size("n", 0, 3), l = sv_size("lines", 0, 2); S a(n, l + 1); double v[3]; size_t k[3], o[3];
      for (size_t i = 0; i < n; ++i) { a.begin()[i] = v[i] = sv_fd("v", -1000, 1000); a.beginKey()[i] = k[i] = size_t(sv_int("k", 0, 5)); } for (size_t i = 0; i < l + 1; ++i) a.beginOffset()[i] = o[i] = size_t(sv_int("o", 0, 5));
      Tape t; save(t, a); S b(sv_size("old", 0, 2), sv_size("old offsets", 0, 2)); load(t, b); sv_assert(b.nnz() == n && size_t(b.endKey() - b.beginKey()) == n && b.sizeOffset() == l + 1, "sizes of loaded sparse arrays");
      for (size_t i = 0; i < n; ++i) sv_assert(b.begin()[i] == v[i] && b.beginKey()[i] == k[i], "value and key of loaded sparse arrays"); for (size_t i = 0; i < l + 1; ++i) sv_assert(b.beginOffset()[i] == o[i], "offset of loaded sparse arrays"); }
    sv_assert(sv_live_heap() == live, "memory of loaded sparse arrays is released exactly once"); sv_reach("end");
}
