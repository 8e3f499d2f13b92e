// The scalar comparison behind equal, bit-precise.
#include "bb.h"
#include "BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
template <class A, class B> void scalar(double acc)
{
    A a = SvRaw<A>::get("a"); B b = SvRaw<B>::get("b"); sv_assume(a == a && b == b && a - a == 0 && b - b == 0); double d = double(a - b); bool want = d <= acc && d >= -acc;
    sv_assert(equalWithinNumericalAccuracy(a, b) == want, "equal within the accuracy of the less accurate type"); sv_assert(equalWithinNumericalAccuracy(a, a), "equal to itself"); sv_reach("end");
}
HARNESS(scalar_dd) { scalar<double, double>(1e-12); } HARNESS(scalar_ff) { scalar<float, float>(1e-4); } HARNESS(scalar_df) { scalar<double, float>(1e-4); } HARNESS(scalar_fd) { scalar<float, double>(1e-4); }
HARNESS(scalar_int) { int a = sv_i32("a"), b = sv_i32("b"); sv_assume(a >= -1000000000 && a <= 1000000000 && b >= -1000000000 && b <= 1000000000); sv_assert(equalWithinNumericalAccuracy(a, b) == (a == b), "integers are equal exactly"); unsigned c = unsigned(sv_u64("c")), d = unsigned(sv_u64("d")); sv_assert(equalWithinNumericalAccuracy(c, d) == (c == d), "integers are equal exactly"); size_t e = size_t(sv_u64("e")), f = size_t(sv_u64("f")); sv_assert(equalWithinNumericalAccuracy(e, f) == (e == f), "integers are equal exactly"); sv_reach("end"); }
