// Random matrices: dimensions, sign and magnitude of every element, reproducible from the settings. The random number
// library is a model: every draw is any value of its distribution, the same draw of an equally seeded engine is the same value.
#include "bb.h"
#include <random>
namespace std {
struct sv_engine { typedef unsigned result_type; unsigned long seed; size_t n = 0; explicit sv_engine(unsigned long s = 1) : seed(s) {} void seed_(unsigned long s) { seed = s; n = 0; } };
static int realMode, signMode; static unsigned long drawnBy = ~0ul;
/// the k-th draw of an engine
inline int64_t sv_draw(sv_engine& e, bool real, int64_t n)
{
    struct D { unsigned long s; size_t k; bool real; int64_t n, v; }; static vector<D> ds; for (auto& d : ds) if (d.s == e.seed && d.k == e.n && d.real == real && d.n == n) { ++e.n; return d.v; }
    int m = real ? realMode : signMode; int64_t v = m == 0 ? 0 : m == 1 ? n : sv_concretize(sv_int(real ? "draw" : "sign", 0, n)); ds.push_back({e.seed, e.n, real, n, v}); ++e.n; return v;
}
template <class T = double> struct sv_real { T a, b; explicit sv_real(T x = 0, T y = 1) : a(x), b(y) { sv_assert(a <= b, "limits of a distribution"); } T operator()(sv_engine& e) { return a + (b - a) * T(sv_draw(e, true, 2)) / T(2); } T min() const { return a; } T max() const { return b; } };
template <class T = int> struct sv_ints { T a, b; explicit sv_ints(T x = 0, T y = numeric_limits<T>::max()) : a(x), b(y) { sv_assert(a <= b, "limits of a distribution"); } T operator()(sv_engine& e) { return T(a + sv_draw(e, false, b - a)); } };
struct sv_coin { double p; explicit sv_coin(double x = 0.5) : p(x) {} bool operator()(sv_engine& e) { return sv_draw(e, false, 1) != 0; } };
}
#define default_random_engine sv_engine
#define mt19937 sv_engine
#define mt19937_64 sv_engine
#define minstd_rand sv_engine
#define uniform_real_distribution sv_real
#define uniform_int_distribution sv_ints
#define bernoulli_distribution sv_coin
#include "../src/MatrixFactory/MatrixGenerator.cpp"
static double mag(double x) { return x < 0 ? -x : x; }
static bool near(double x, double y) { return x >= y * (1 - 1e-12) && x <= y * (1 + 1e-12); }
HARNESS(random)
{
    size_t r = sv_size("rows", 0, 2), c = sv_size("columns", 0, 2); MatrixGenerator::Settings s; bool dflt = sv_bool("default limits"); if (!dflt) { s.minValue = double(sv_size("min", 0, 2)) / 2; s.maxValue = s.minValue + double(sv_size("width", 0, 2)); } s.seed = unsigned(sv_u64("seed"));
    std::realMode = int(sv_size("magnitudes", 0, 2)); std::signMode = int(sv_size("signs", 0, 2)); if (r * c > 2) sv_assume(std::realMode < 2 || std::signMode < 2);
    MatrixGenerator g(r, c, s); sv_assert(g.getNbRows() == r && g.getNbColumns() == c, "dimensions of a matrix factory"); DD m = g(); sv_assert(m.getNbRows() == r && m.getNbColumns() == c, "dimensions of a random matrix"); double lo = dflt ? 0 : s.minValue, hi = dflt ? 9 : s.maxValue;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
    {
        double x = m(i, j), a = mag(x); sv_assert(a >= std::pow(10, -hi) * (1 - 1e-12) && a <= std::pow(10, -lo) * (1 + 1e-12), "magnitude of a random element"); sv_assert(std::signMode == 2 || (x > 0) == (m(0, 0) > 0), "equal draws give equal signs");
        if (std::realMode < 2) sv_assert(near(a, std::pow(10, -lo)) || near(a, std::pow(10, -hi)), "the limits are reached"); if (std::realMode < 2) sv_assert(near(a, mag(m(0, 0))), "equal draws give equal magnitudes");
    }
    DD again = MatrixGenerator(r, c, s)(); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(again(i, j) == m(i, j), "equal settings give equal matrices");
    DD twice = g(); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(twice(i, j) == m(i, j), "a generator gives the same matrix every time"); sv_reach("end");
}
/// every draw has its own effect: the elements are not copies of one another, both signs and both limits occur, the seed matters
HARNESS(random_free)
{
    bool sign = sv_bool("sign"), seed = sv_bool("other seed"); MatrixGenerator::Settings s; s.minValue = 1; s.maxValue = 3; s.seed = 7; DD* m; DD* o;
    if (seed) { MatrixGenerator::Settings t = s; t.seed = 8; std::realMode = 0; std::signMode = 0; m = new DD(MatrixGenerator(1, 1, s)()); std::realMode = 1; std::signMode = 1; o = new DD(MatrixGenerator(1, 1, t)()); sv_assert(!near(mag((*m)(0, 0)), mag((*o)(0, 0))) && ((*m)(0, 0) > 0) != ((*o)(0, 0) > 0), "another seed gives another matrix"); delete m; delete o; }
    else { std::realMode = 0; std::signMode = 0; DD a = MatrixGenerator(1, 1, s)(); s.seed = 9; std::realMode = sign ? 0 : 1; std::signMode = sign ? 1 : 0; DD b = MatrixGenerator(1, 1, s)(); if (sign) sv_assert((a(0, 0) > 0) != (b(0, 0) > 0) && near(mag(a(0, 0)), mag(b(0, 0))), "the sign is drawn"); else sv_assert((a(0, 0) > 0) == (b(0, 0) > 0) && !near(mag(a(0, 0)), mag(b(0, 0))), "the magnitude is drawn"); }
    sv_reach("end");
}
