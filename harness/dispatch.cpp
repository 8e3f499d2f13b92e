// Type lists, run-time type dispatch, name tables and call statistics.
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
#include "BlasBooster/Utilities/TypeChecker.h"
#include "BlasBooster/Utilities/Tracker.h"
#include <functional>
// the position of every type is stated here once more, independently of GetIndex
template <class T> struct Pos; template <> struct Pos<ZM> { enum { v = 0 }; }; template <> struct Pos<SF> { enum { v = 1 }; }; template <> struct Pos<DF> { enum { v = 2 }; }; template <> struct Pos<SD> { enum { v = 3 }; }; template <> struct Pos<M1> { enum { v = 4 }; }; template <> struct Pos<M2> { enum { v = 5 }; }; template <> struct Pos<DD> { enum { v = 6 }; };
struct Which { typedef int result_type; int* calls; template <class T> int operator()(T*) const { ++*calls; return Pos<T>::v; } };
struct Which2 { typedef int result_type; int* calls; template <class S, class T> int operator()(S*, T*) const { ++*calls; return Pos<S>::v * 10 + Pos<T>::v; } };
template <class T> struct Ex1 { int operator()(DynamicMatrix const& a) const { sv_assert(std::dynamic_pointer_cast<T>(a) != nullptr, "the handler gets a matrix of its type"); return Pos<T>::v; } };
template <class S, class T> struct Ex2 { int operator()(DynamicMatrix const& a, DynamicMatrix const& b) const { sv_assert(std::dynamic_pointer_cast<S>(a) && std::dynamic_pointer_cast<T>(b), "the handler gets matrices of its types"); return Pos<S>::v * 10 + Pos<T>::v; } };
template <class X, class T> struct Ex3 { int operator()(DynamicMatrix const& a) const { return int(sizeof(X)) * 100 + Ex1<T>()(a); } };
/// exec_if: the first type accepted by the predicate, for every predicate over the list; none accepted is an error
struct Mask { int m; template <class T> bool operator()(T* = 0) const { return (m >> Pos<T>::v) & 1; } };
HARNESS(first_accepted)
{
    int m = int(sv_int("mask", 0, 127)), calls = 0, got = -1; bool thrown = false; Which w{&calls};
    try { got = exec_if<DynamicMatrixTypeList>(Mask{m}, w); } catch (...) { thrown = true; }
    sv_assert(thrown == (m == 0), "an error exactly if no type is accepted"); sv_assert(calls == (m ? 1 : 0), "exactly one handler is called"); if (m) sv_assert((m & ((1 << got) - 1)) == 0 && ((m >> got) & 1), "the first accepted type is used"); sv_reach("end");
}
HARNESS(first_accepted_pair)
{
    int m = int(sv_int("mask1", 0, 127)), n = int(sv_int("mask2", 0, 127)), calls = 0, got = -1; bool thrown = false; Which2 w{&calls};
    try { got = exec_if_2dim<DynamicMatrixTypeList>(Mask{m}, Mask{n}, w, static_cast<DynamicMatrixTypeList*>(nullptr)); } catch (...) { thrown = true; }
    sv_assert(thrown == (m == 0 || n == 0), "an error exactly if no type is accepted"); sv_assert(calls == (thrown ? 0 : 1), "exactly one handler is called");
    if (!thrown) { int a = got / 10, b = got % 10; sv_assert((m & ((1 << a) - 1)) == 0 && ((m >> a) & 1) && (n & ((1 << b) - 1)) == 0 && ((n >> b) & 1), "the first accepted type is used for both operands"); } sv_reach("end");
}
HARNESS(held_type)
{
    size_t w = sv_size("A", 0, 6); Grid<double> g; DynamicMatrix a = dyn(w, "a", 1, 1, g); int calls = 0; Which h{&calls};
    sv_assert(a->getTypeIndex() == w, "type index of the held matrix"); sv_assert(exec_if<DynamicMatrixTypeList>(TypeChecker(a->getTypeIndex()), h) == int(w) && calls == 1, "exec_if finds the held type");
    sv_assert(exec_dyn<DynamicMatrixTypeList, Ex1, TypeList<>, std::function<int(DynamicMatrix const&)>>(a) == int(w), "exec_dyn finds the held type"); sv_assert(exec_dyn<DynamicMatrixTypeList, Ex3, TypeList<char>, std::function<int(DynamicMatrix const&)>>(a) == 100 + int(w), "exec_dyn passes the extra types"); sv_reach("end");
}
HARNESS(held_types)
{
    size_t w = sv_size("A", 0, 6), v = sv_size("B", 0, 6); Grid<double> g; DynamicMatrix a = dyn(w, "a", 1, 1, g), b = dyn(v, "b", 1, 1, g); int calls = 0; Which2 h{&calls};
    int x = exec_dyn_2dim<DynamicMatrixTypeList, Ex2, TypeList<>, std::function<int(DynamicMatrix const&, DynamicMatrix const&)>>(a, b); sv_assert(x == int(w * 10 + v), "exec_dyn_2dim finds both held types in order");
    sv_assert(exec_if_2dim<DynamicMatrixTypeList>(TypeChecker(w), TypeChecker(v), h, static_cast<DynamicMatrixTypeList*>(nullptr)) == int(w * 10 + v) && calls == 1, "exec_if_2dim finds both held types in order"); sv_reach("end");
}
/// a matrix whose type is not in the list is reported as an error
template <class F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
HARNESS(foreign_type)
{
    DynamicMatrix f; switch (sv_concretize(sv_int("which", 0, 2))) { case 0: f = DynamicMatrix(new DI(1, 1)); break; case 1: f = DynamicMatrix(new DDR(1, 1)); break; default: f = DynamicMatrix(new ZMR(1, 1)); }
    Grid<double> g; DynamicMatrix d = dyn(6, "d", 1, 1, g); int calls = 0; Which h{&calls};
    sv_assert(f->getTypeIndex() == 7, "no listed type has this index");
    sv_assert(throws([&] { exec_if<DynamicMatrixTypeList>(TypeChecker(f->getTypeIndex()), h); }) && calls == 0, "exec_if reports a type that is not listed");
    sv_assert(throws([&] { exec_dyn<DynamicMatrixTypeList, Ex1, TypeList<>, std::function<int(DynamicMatrix const&)>>(f); }), "exec_dyn reports a type that is not listed");
    sv_assert(throws([&] { exec_dyn_2dim<DynamicMatrixTypeList, Ex2, TypeList<>, std::function<int(DynamicMatrix const&, DynamicMatrix const&)>>(f, d); }), "exec_dyn_2dim reports a first type that is not listed");
    sv_assert(throws([&] { exec_dyn_2dim<DynamicMatrixTypeList, Ex2, TypeList<>, std::function<int(DynamicMatrix const&, DynamicMatrix const&)>>(d, f); }), "exec_dyn_2dim reports a second type that is not listed"); sv_reach("end");
}
HARNESS(foreign_operation)
{
    DynamicMatrix f(new DI(1, 1)); Grid<double> g; DynamicMatrix d = dyn(sv_size("A", 0, 6), "d", 1, 1, g); int op = int(sv_concretize(sv_int("op", 0, 4))), side = int(sv_concretize(sv_int("side", 0, 1))); DynamicMatrix a = side ? f : d, b = side ? d : f;
    sv_assert(throws([&] { switch (op) { case 0: (void)(a + b); break; case 1: (void)(a - b); break; case 2: a += b; break; case 3: a -= b; break; default: (void)DynamicMatrix((a * b).execute<Native>()); } }), "an operation with a type that is not listed is an error"); sv_reach("end");
}
/// type lists
template <int> struct K {};
HARNESS(lists)
{
    typedef TypeList<K<0>, K<1>, K<2>, K<1>> L; sv_assert(GetSize<L>::value == 4 && GetSize<TypeList<>>::value == 0 && GetIndex<K<0>, L>::value == 0 && GetIndex<K<1>, L>::value == 1 && GetIndex<K<2>, L>::value == 2 && GetIndex<K<3>, L>::value == 4, "positions in a type list");
    sv_assert(std::is_same<GetType<3, L>::type, K<1>>::value && std::is_same<GetType<0, L>::type, K<0>>::value, "types at positions"); sv_assert(GetSize<DynamicMatrixTypeList>::value == 7, "number of dynamic types");
    sv_assert(ZM::typeIndex_ == 0 && SF::typeIndex_ == 1 && DF::typeIndex_ == 2 && SD::typeIndex_ == 3 && M1::typeIndex_ == 4 && M2::typeIndex_ == 5 && DD::typeIndex_ == 6, "every listed type knows its position"); sv_reach("end");
}
/// names and call statistics
HARNESS(names)
{
    EnumParser<TrackerID> p; size_t i = sv_size("i", 0, size_t(TrackerID::size) - 1), j = sv_size("j", 0, size_t(TrackerID::size) - 1); std::string n = p(TrackerID(i));
    sv_assert(!n.empty() && p(n) == TrackerID(i), "a name parses back to its value"); sv_assert((p(TrackerID(j)) == n) == (i == j), "names are distinct"); sv_reach("end");
}
extern "C" void sv_clock_advance(long long); extern "C" void sv_clock_step(long long);
template <TrackerID I> void tick(long d, bool nested) { Tracker<I> t; sv_clock_advance(d); if (nested) { Tracker<TrackerID::get_block_size> u; sv_clock_advance(7); } }
HARNESS(statistics)
{
    sv_clock_step(0); const size_t n = size_t(TrackerID::size); size_t c0[64]; long t0[64]; for (size_t i = 0; i < n; ++i) { c0[i] = TrackerRegister::count[i]; t0[i] = long(TrackerRegister::time[i].count()); }
    int calls[3] = {int(sv_concretize(sv_int("a", 0, 2))), int(sv_concretize(sv_int("b", 0, 2))), int(sv_concretize(sv_int("c", 0, 1)))}; long d = long(sv_int("d", 0, 1000000));
    for (int i = 0; i < calls[0]; ++i) tick<TrackerID::OpenBLAS_dgemm>(d, false); for (int i = 0; i < calls[1]; ++i) tick<TrackerID::Native_zero_zero>(2 * d, false); for (int i = 0; i < calls[2]; ++i) tick<TrackerID::get_detection_arrays>(d, true);
    for (size_t i = 0; i < n; ++i) {
        int k = TrackerID(i) == TrackerID::OpenBLAS_dgemm ? calls[0] : TrackerID(i) == TrackerID::Native_zero_zero ? calls[1] : TrackerID(i) == TrackerID::get_detection_arrays || TrackerID(i) == TrackerID::get_block_size ? calls[2] : 0;
        long t = long(TrackerRegister::time[i].count()) - t0[i]; sv_assert(TrackerRegister::count[i] - c0[i] == size_t(k), "one call is counted per tracker");
        long mult = TrackerID(i) == TrackerID::Native_zero_zero ? 2 : 1, extra = TrackerID(i) == TrackerID::get_detection_arrays ? 7 : TrackerID(i) == TrackerID::get_block_size ? 7 - d : 0;
        sv_assert(t == k * (mult * d + extra), "time of the tracked calls is summed up"); }
    sv_reach("end");
}
