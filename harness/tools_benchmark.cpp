// benchmark: every action runs on every pair of matrices, the differences to the first action are written, failures are reported.
#define WITH_OPENBLAS 1
#include "tools.h"
#include "BlasBooster/Utilities/Tracker.h"
#include "../src/Benchmark/MatrixProvider.cpp"
#include "../src/Benchmark/ActionProvider.cpp"
#undef BLASBOOSTER_USE_TRACKER
#include "../src/Benchmark/benchmark.cpp"
#include "backend.h"
#include "backend_product.h"
static double delta; static int calls;
namespace BlasBooster {
std::ostream& operator<<(std::ostream& os, duration_accuracy const&) { return os; } std::ostream& operator<<(std::ostream& os, BrainTwister::myclock::duration const&) { return os; }
void OpenBLAS_set_num_threads(int) {}
/// a back end whose first element is off by delta
void BlasInterface<OpenBLAS, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); ++calls; *l = *l + delta; }
void BlasInterface<OpenBLAS, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); ++calls; }
}
static PT fileSet(size_t n, const char* const* xml) { PT s; for (size_t i = 0; i < n; ++i) s.add("File", PT(xml[i])); return s; }
static void diffIs(const char* n, size_t r, size_t c, double d) { svf::File* f = svf::find(n); sv_assert(f && f->exists && f->size == r * c * sizeof(double), "size of the difference file"); for (size_t k = 0; k < r * c; ++k) { double x; memcpy(&x, f->data + k * 8, 8); sv_assert(x == (k ? 0.0 : d), "element of the difference file"); } }
HARNESS(differences)
{
    size_t n = sv_size("pairs", 1, 2), nact = sv_size("actions", 1, 2), reps = sv_size("repetitions", 1, 2); bool first = sv_bool("first action differs"), write = sv_bool("difference files"); delta = sv_fd("delta", -1000, 1000);
    size_t r[2], k[2], c[2]; const char* xa[2] = {"a0.xml", "a1.xml"}; const char* xb[2] = {"b0.xml", "b1.xml"}; const char* da[2] = {"a0", "a1"}; const char* db[2] = {"b0", "b1"};
    for (size_t i = 0; i < n; ++i) { r[i] = i ? 1 : sv_size("rows", 1, 2); k[i] = 1; c[i] = i ? 2 : 1; matrixFile(symGrid<double>("a", r[i], k[i], 100), da[i], xa[i]); matrixFile(symGrid<double>("b", k[i], c[i], 100), db[i], xb[i]); }
    PT acts, mats, bench; acts.add(first ? "openblas_dgemm" : "native_dense", PT()); if (nact > 1) acts.add(first ? "native_dense" : "openblas_dgemm", PT()); mats.add("A", fileSet(n, xa)); mats.add("B", fileSet(n, xb)); bench.add("repetitions", PT(reps)); theSettings.add("actions", acts); theSettings.add("matrices", mats); theSettings.add("benchmark", bench);
    svf::file("benchmark.json").set("s"); if (write) optn("--diff", 1); calls = 0; svf::files().reserve(20); sv_assert(tool_main(0, noargs) == 0, "the benchmark ends successfully");
    sv_assert(calls == int(n * reps * (first || nact > 1 ? 1 : 0)), "every action runs on every pair as often as configured");
    const char* out[2] = {"diff_0.dat", "diff_1.dat"}; for (size_t i = 0; i < 2; ++i) { if (i < n && nact > 1 && write) diffIs(out[i], r[i], c[i], first ? -delta : delta); else sv_assert(!svf::find(out[i]), "difference files are written on request only"); } sv_reach("end");
}
HARNESS(refused)
{
    size_t why = sv_size("reason", 0, 6); const char* xa[1] = {"a0.xml"}; const char* xb[2] = {"b0.xml", "b0.xml"}; matrixFile(symGrid<double>("a", 1, 1, 100), "a0", "a0.xml"); matrixFile(symGrid<double>("b", 1, 1, 100), "b0", "b0.xml"); svf::file("benchmark.json").set("s");
    PT acts, mats; if (why != 1) acts.add(why == 2 ? "unknown" : "openblas_dgemm", PT()); if (why != 3) mats.add("A", why == 4 ? PT() : fileSet(1, xa)); if (why != 5) mats.add("B", fileSet(why == 6 ? 2 : 1, xb)); theSettings.add("actions", acts); theSettings.add("matrices", mats);
    calls = 0; int rc = tool_main(0, noargs); sv_assert((rc == 0) == (why == 0), "incomplete settings end with an error status"); sv_assert(calls == (why == 0), "nothing runs on incomplete settings"); sv_reach("end");
}
