// Significance checkers: decision, construction, ordering. All IEEE values symbolic (bit-precise floating point).
#include "sv.h"
#include <cassert>
#include <tuple>
#ifdef SV_THOROUGH
#define LIM_K 8
#else
#define LIM_K 4
#endif
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
using namespace BlasBooster;
template <class V> struct RawV; template <> struct RawV<double> { static double get(const char* n) { return sv_rawd(n); } }; template <> struct RawV<float> { static float get(const char* n) { return sv_rawf(n); } };
static bool nan_(double d) { return d != d; }
enum { EN, EI, II, EE };
template <class T, class L, class U> AbsoluteValueRangeChecker<T, L, U> mk(T lo, T hi) { return AbsoluteValueRangeChecker<T, L, U>(lo, hi); }
template <int K, class T> struct Kind;
template <class T> struct Kind<EN, T> { typedef AbsoluteValueRangeChecker<T> type; static type make(T lo, T) { return type(lo); } static bool valid(T lo, T) { return lo >= 0; } static bool in(double a, T lo, T) { return a > lo; } };
template <class T> struct Kind<EI, T> { typedef AbsoluteValueRangeChecker<T, ExclusiveBound, InclusiveBound> type; static type make(T lo, T hi) { return type(lo, hi); } static bool valid(T lo, T hi) { return lo >= 0 && hi >= 0 && lo < hi; } static bool in(double a, T lo, T hi) { return a > lo && a <= hi; } };
template <class T> struct Kind<II, T> { typedef AbsoluteValueRangeChecker<T, InclusiveBound, InclusiveBound> type; static type make(T lo, T hi) { return type(lo, hi); } static bool valid(T lo, T hi) { return lo >= 0 && hi >= 0 && lo <= hi; } static bool in(double a, T lo, T hi) { return a >= lo && a <= hi; } };
template <class T> struct Kind<EE, T> { typedef AbsoluteValueRangeChecker<T, ExclusiveBound, ExclusiveBound> type; static type make(T lo, T hi) { return type(lo, hi); } static bool valid(T lo, T hi) { return lo >= 0 && hi >= 0 && lo < hi; } static bool in(double a, T lo, T hi) { return a > lo && a < hi; } };
/// a checker with given bounds exists exactly when the bounds form a range, and it then accepts exactly the values in the range
template <int K, class T, class V> void decide()
{
    typedef Kind<K, T> Kd; T lo = RawV<T>::get("lo"), hi = RawV<T>::get("hi"); V v = RawV<V>::get("v");
    bool threw = false, got = false;
    try { auto c = Kd::make(lo, hi); got = c(v); } catch (CoreException&) { threw = true; }
    sv_assert(threw == !Kd::valid(lo, hi), "bounds are rejected exactly when they are no range");
    if (!threw) { double a = v < 0 ? -double(v) : double(v); sv_assert(got == Kd::in(a, lo, hi), "value accepted exactly when its magnitude is in the range"); }
    sv_obs_i("got", got); sv_reach("end");
}
#define D4(K, k) HARNESS(decide_##k##_dd) { decide<K, double, double>(); } HARNESS(decide_##k##_df) { decide<K, double, float>(); } HARNESS(decide_##k##_fd) { decide<K, float, double>(); } HARNESS(decide_##k##_ff) { decide<K, float, float>(); }
D4(EN, en) D4(EI, ei) D4(II, ii) D4(EE, ee)
HARNESS(default_bound) { double v = sv_rawd("v"); sv_assert(AbsoluteValueRangeChecker<double>()(v) == (v < 0 || v > 0), "default checker accepts exactly the non-zero values"); sv_reach("end"); }
HARNESS(integers)
{
    int v = sv_i32("v"); sv_assume(v != INT32_MIN); double lo = sv_rawd("lo"), hi = sv_rawd("hi"); sv_assume(lo >= 0 && lo < hi); double a = v < 0 ? -double(v) : double(v);
    sv_assert(AbsoluteValueRangeChecker<double>(lo)(v) == (a > lo), "integer value against a threshold"); sv_assert((AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi)(v)) == (a > lo && a <= hi), "integer value against an interval"); sv_reach("end");
}
// ---- ordering used as the key of the occupation cache -------------------------------------------------------------------
typedef std::shared_ptr<ValueCheckerBase> Ptr;
struct Key { int kind; double lo, hi; };
template <class T> Ptr ptrOf(int k, T lo, T hi)
{
    switch (k) { case EN: return Ptr(new typename Kind<EN, T>::type(lo)); case EI: return Ptr(new typename Kind<EI, T>::type(lo, hi)); case II: return Ptr(new typename Kind<II, T>::type(lo, hi)); default: return Ptr(new typename Kind<EE, T>::type(lo, hi)); }
}
/// kinds 0..3 with double thresholds, 4..7 with float thresholds
static Ptr any(const char* nk, const char* nl, const char* nh, int kinds, Key& key)
{
    int k = (int)sv_concretize(sv_int(nk, 0, kinds - 1)); double lo, hi; Ptr p;
    if (k < 4) { lo = sv_rawd(nl); hi = sv_rawd(nh); sv_assume(lo >= 0 && lo < hi); p = ptrOf<double>(k, lo, hi); }
    else { float l = sv_rawf(nl), h = sv_rawf(nh); sv_assume(l >= 0 && l < h); lo = l; hi = h; p = ptrOf<float>(k - 4, l, h); }
    key.kind = k; key.lo = lo; key.hi = k % 4 == EN ? 0 : hi; return p;
}
static bool equal(Key const& a, Key const& b) { return a.kind == b.kind && a.lo == b.lo && a.hi == b.hi; }
template <int KINDS> void order2()
{
    Key a, b; Ptr x = any("ka", "la", "ha", KINDS, a), y = any("kb", "lb", "hb", KINDS, b); ValueCheckerLess less;
    bool xy = less(x, y), yx = less(y, x);
    sv_assert(!less(x, x), "no checker is less than itself"); sv_assert(!(xy && yx), "ordering is antisymmetric");
    sv_assert((!xy && !yx) == equal(a, b), "checkers are equivalent exactly when kind and bounds agree"); sv_obs_i("xy", (a.kind % 4 == b.kind % 4 && a.kind != b.kind) ? 0 : xy); sv_reach("end");
}
HARNESS(order) { order2<4>(); }
HARNESS(order_float) { order2<8>(); }
HARNESS(order_chain)
{
    Key a, b, c; Ptr x = any("ka", "la", "ha", LIM_K, a), y = any("kb", "lb", "hb", LIM_K, b), z = any("kc", "lc", "hc", LIM_K, c); ValueCheckerLess less;
    if (less(x, y) && less(y, z)) sv_assert(less(x, z), "ordering is transitive"); sv_reach("end");
}
