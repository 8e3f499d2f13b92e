// The actions of the benchmark: every configured name is provided once, in order, and computes the product with its back end.
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#define EIGEN_NO_IO
#define WITH_OPENBLAS 1
#define WITH_INTELMKL 1
#define WITH_EIGEN 1
#include "env.h"
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "../src/Benchmark/ActionProvider.cpp"
#include "backend.h"
#include "backend_product.h"
typedef boost::property_tree::ptree PT;
static int threads, backend;
namespace BlasBooster {
void BlasInterface<OpenBLAS, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { backend |= 1; refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<OpenBLAS, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { backend |= 2; refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<IntelMKL, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { backend |= 4; refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
void BlasInterface<IntelMKL, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { backend |= 8; refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
template <class... A> static void unused(A...) { sv_fail("an action uses its own back end only"); }
void BlasInterface<IntelMKL, dcsrmm>::operator()(const char* a, const int* b, const int* c, const int* d, const double* e, const char* f, const double* g, const int* h, const int* i, const int* j, const double* k, const int* l, const double* m, double* n, const int* o) const { unused(a); }
void BlasInterface<IntelMKL, scsrmm>::operator()(const char* a, const int* b, const int* c, const int* d, const float* e, const char* f, const float* g, const int* h, const int* i, const int* j, const float* k, const int* l, const float* m, float* n, const int* o) const { unused(a); }
void BlasInterface<IntelMKL, dcsrmultcsr>::operator()(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, double* g, int* h, int* i, double* j, int* k, int* l, double* m, int* n, int* o, const int* p, int* q) const { unused(a); }
void BlasInterface<IntelMKL, scsrmultcsr>::operator()(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, float* g, int* h, int* i, float* j, int* k, int* l, float* m, int* n, int* o, const int* p, int* q) const { unused(a); }
}
extern "C" { void openblas_set_num_threads(int n) { threads = n; } void MKL_Set_Num_Threads(int n) { threads = n; } void mkl_set_num_threads(int n) { threads = n; } }
namespace BlasBooster { void OpenBLAS_set_num_threads(int n) { threads = n; } void IntelMKL_set_num_threads(int n) { threads = n; } }
static const char* const names[] = {"openblas_dgemm", "openblas_sgemm", "intelmkl_dgemm", "intelmkl_sgemm", "eigen_dgemm", "eigen_sgemm", "blaze_dgemm", "blaze_sgemm", "blaze_sdgemm", "blaze_dsgemm", "blasbooster_block", "native_dense"};
static const int used[] = {1, 2, 4, 8, 0, 0, 0, 0, 0, 0, 0, 0};
HARNESS(provided)
{
    size_t n = sv_size("number of actions", 0, 3), k[3]; PT root; for (size_t i = 0; i < n; ++i) { k[i] = i == 2 ? 0 : sv_size("action", 0, 11); root.add(names[k[i]], PT()); }
    ActionProvider p(root); auto l = p.get(); sv_assert(l.size() == n, "one action per configured name"); for (size_t i = 0; i < n; ++i) sv_assert(l[i]->name() == names[k[i]], "actions in the order of the configuration"); sv_reach("end");
}
HARNESS(unknown) { PT root; size_t pos = sv_size("position", 0, 1); if (pos) root.add("native_dense", PT()); root.add("native_sparse", PT()); bool t = false; try { ActionProvider p(root); } catch (std::exception const&) { t = true; } sv_assert(t, "an unknown action is reported"); sv_reach("end"); }
static void compute(size_t k, size_t r, size_t in, size_t c)
{
    // an operand that is converted to single precision holds what single precision can hold
    bool all = k < 8 && k % 2; if (all || k == 8) smallElements();
    size_t nt = size_t(sv_int("threads", 1, 64)); PT root, s; s.add("number_of_threads", PT(nt)); root.add(names[k], s); ActionProvider p(root); auto a = p.get()[0];
    Grid<double> ga = symGrid<double>("a", r, in, 1000); sv_magnitude = 20000001; if (all || k == 9) smallElements(); Grid<double> gb = symGrid<double>("b", in, c, 1000); MK_DENSE(DD, A, ga); MK_DENSE(DD, B, gb); BrainTwister::Benchmark bench; bench.settings.repetitions = int(sv_size("repetitions", 1, 2)); threads = 0; backend = 0;
    auto res = a->execute(A, B, bench); same(gridOf(std::get<0>(res)), mul(ga, gb), "an action returns the product"); same(gridOf(A), ga, "operand unchanged"); same(gridOf(B), gb, "operand unchanged");
    sv_assert(backend == used[k], "an action uses its own back end and precision"); if (k < 4) sv_assert(threads == int(nt), "the configured number of threads reaches the library"); sv_reach("end");
}
#define ACT(n, k) HARNESS(n) { compute(k, sv_size("rows", 0, 2), sv_size("inner", 0, 2), sv_size("cols", 0, 2)); }
ACT(openblas_d, 0) ACT(openblas_s, 1) ACT(mkl_d, 2) ACT(mkl_s, 3) ACT(eigen_d, 4) ACT(eigen_s, 5) ACT(blaze_d, 6) ACT(blaze_s, 7) ACT(blaze_sd, 8) ACT(blaze_ds, 9) ACT(native, 11)
/// the time of an action is what its measurement of the product reported; the block-wise action adds up its parts
HARNESS(times)
{
    size_t k = sv_size("action", 0, 11); PT root; root.add(names[k], PT()); ActionProvider p(root); auto a = p.get()[0]; DD A(2, 1, AllFiller<double>(1.0)), B(1, 2, AllFiller<double>(1.0)); BrainTwister::Benchmark bench; svf_average_times() = {sv_int("time", 0, 1000000), sv_int("time", 0, 1000000), sv_int("time", 0, 1000000)}; auto t = svf_average_times(); typedef std::chrono::nanoseconds N;
    auto res = a->execute(A, B, bench); long long shown = std::chrono::duration_cast<N>(std::get<1>(res)).count(); auto& d = std::get<2>(res);
    if (k != 10) { sv_assert(shown == t[0] && d.empty(), "time of an action"); sv_assert(svf_average_times().size() == 2, "one measurement per action"); }
    else { sv_assert(shown == t[0] + t[1] + t[2] && d.size() == 3, "time of the block-wise action"); for (size_t i = 0; i < 3; ++i) sv_assert(std::chrono::duration_cast<N>(std::get<1>(d[i])).count() == t[i], "time of a part of the block-wise action"); sv_assert(std::get<0>(d[0]) == "size" && std::get<0>(d[1]) == "block" && std::get<0>(d[2]) == "mult", "names of the parts"); }
    sv_reach("end");
}
/// the settings of the block-wise action reach it: one admitted type, the significance threshold, the block limits
HARNESS(block_settings)
{
    static const char* const types[7] = {"MatrixZero", "MatrixSparseFloat", "MatrixDenseFloat", "MatrixSparseDouble", "MultipleMatrixSparseDoubleSparseFloat", "MultipleMatrixDenseFloatSparseDouble", "MatrixDenseDouble"};
    size_t k = sv_size("admitted type", 0, 7), lo = 1, hi = 2; if (k > 5) { lo = sv_size("min", 0, 2); hi = sv_size("max", 0, 3); } double sig = sv_fd("significance", 0, 1000) / 4, upper = sig + sv_fd("distance", 1, 1000) / 4; PT th, s, root;
    for (size_t t = 0; t < 7; ++t) { double o = t == k ? 2.0 : -1.0; th.add((std::string("occupationThreshold") + types[t] + "SinglePrecision").c_str(), PT(o)); th.add((std::string("occupationThreshold") + types[t] + "DoublePrecision").c_str(), PT(o)); }
    th.add("significanceThresholdSinglePrecision", PT(upper)); th.add("significanceThresholdDoublePrecision", PT(sig)); th.add("min_block_size", PT(lo)); th.add("max_block_size", PT(hi)); s.add("threshold", th); root.add("blasbooster_block", s); ActionProvider p(root); auto a = p.get()[0]; BrainTwister::Benchmark bench; bench.settings.repetitions = 1;
    smallElements(); size_t in = k == 3 ? sv_size("inner", 1, LIM(2, 3)) : 1; Grid<double> ga = symGrid<double>("a", 1, in, 1000), gb(in, 1); for (size_t i = 0; i < in; ++i) gb.v[i][0] = double(i + 1) * 300; MK_DENSE(DD, A, ga); MK_DENSE(DD, B, gb); bool threw = false; double want = 0;
    for (size_t i = 0; i < in; ++i) { sv_assume(ga.v[0][i] >= 0); double x = ga.v[0][i], y = gb.v[i][0]; bool all = k == 2 || k == 6; double kx = k == 0 ? 0.0 : all ? x : (x < 0 ? -x : x) > sig ? x : 0.0, ky = k == 0 ? 0.0 : all ? y : y > sig ? y : 0.0; want += kx * ky; }
    try { auto res = a->execute(A, B, bench); auto g = gridOf(std::get<0>(res)); sv_assert(g.r == 1 && g.c == 1 && g.v[0][0] == want, "the block-wise action follows its thresholds"); } catch (std::exception const&) { threw = true; }
    sv_assert(threw == (k == 7 || 2 * lo > hi), "the block-wise action refuses settings that admit no type or no division"); sv_reach("end");
}
