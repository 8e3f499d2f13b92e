// The accelerated multiplication from end to end, as the benchmark actions run it: block sizes from
// the magnitudes, conversion of every block to the cheapest admissible type, block-wise product.
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include <boost/property_tree/ptree.hpp>
using boost::property_tree::ptree;
#include "../src/Benchmark/Action_blasbooster_block.h"
#include "../src/Benchmark/Action_native_dense.h"
#include "backend_product.h"
#include "large.h"
static DD mat(const char* nm, size_t r, size_t c, int b, Grid<double>& g) { g = symGrid<double>(nm, r, c, b); MK_DENSE(DD, m, g); return m; }
template <class Act> void run(Act const& a, size_t r, size_t k, size_t c, int b)
{
    Grid<double> ga, gb; DD A = mat("a", r, k, b, ga), B = mat("b", k, c, b, gb); BrainTwister::Benchmark bench; bench.settings.repetitions = 1;
    auto res = a.execute(A, B, bench); DD const& C = std::get<0>(res);
    sv_assert(C.getNbRows() == r && C.getNbColumns() == c, "dimensions of the accelerated product"); same(gridOf(C), mul(ga, gb), "element of the accelerated product"); same(gridOf(A), ga, "operand unchanged"); same(gridOf(B), gb, "operand unchanged"); obs("c", gridOf(C)); sv_reach("end");
}
static Action_blasbooster_block block(int lo, int hi) { Action_blasbooster_block a((ptree())); a.settings.threshold.min_block_size = lo; a.settings.threshold.max_block_size = hi; return a; }
HARNESS(block_311) { run(block(1, 2), 3, 1, 1, 3); } HARNESS(block_131) { run(block(1, 2), 1, 3, 1, 1); } HARNESS(block_113) { run(block(1, 2), 1, 1, 3, 3); }
HARNESS(block_313) { run(block(1, 2), 3, 1, 3, 1); } HARNESS(block_one) { run(block(1, 4), 2, 1, 2, 3); } HARNESS(native) { run(Action_native_dense((ptree())), sv_size("r", 1, 2), sv_size("k", 1, 2), sv_size("c", 1, 2), 1000); }
/// every type of block is chosen: significance threshold for single precision between the elements, all occupation thresholds as shipped
HARNESS(block_types) { auto a = block(1, 2); a.settings.threshold.significanceThresholdSinglePrecision = double(sv_int("sig", 1, 3)); run(a, 2, 1, 1, 4); }
/// three inner blocks, vanishing or not
HARNESS(block_chain)
{
    Grid<double> ga(1, 3), gb(3, 1); for (size_t i = 0; i < 3; ++i) { ga.v[0][i] = sv_bool("a vanishes") ? 0.0 : sv_fd("a", 4, 7); gb.v[i][0] = sv_bool("b vanishes") ? 0.0 : sv_fd("b", 4, 7); } MK_DENSE(DD, A, ga); MK_DENSE(DD, B, gb); BrainTwister::Benchmark bench; bench.settings.repetitions = 1;
    auto res = block(0, 1).execute(A, B, bench); DD const& C = std::get<0>(res); sv_assert(C.getNbRows() == 1 && C.getNbColumns() == 1, "dimensions of the accelerated product"); same(gridOf(C), mul(ga, gb), "element of the accelerated product"); sv_reach("end");
}
/// elements below the significance threshold of double precision are left out, everything else counts
HARNESS(block_small)
{
    auto a = block(0, 1); double sig = double(sv_int("sig", 0, 1)); a.settings.threshold.significanceThresholdDoublePrecision = sig; a.settings.threshold.significanceThresholdSinglePrecision = double(sv_int("sig", 2, 3)); Grid<double> ga, gb; DD A = mat("a", 2, 1, 3, ga), B = mat("b", 1, 1, 3, gb); BrainTwister::Benchmark bench; bench.settings.repetitions = 2;
    auto res = a.execute(A, B, bench); DD const& C = std::get<0>(res); for (auto* g : {&ga, &gb}) for (size_t i = 0; i < g->r; ++i) { double x = g->v[i][0]; if ((x < 0 ? -x : x) <= sig) g->v[i][0] = 0; } same(gridOf(C), mul(ga, gb), "element of the accelerated product of the significant elements"); sv_reach("end");
}
/// many blocks: the magnitude of every element is given, its value is symbolic in one operand
template <class Act> void runLong(Act const& a, size_t shapes)
{
    static const size_t sh[][3] = {{20, 12, 9}, {40, 3, 2}, {3, 40, 2}, {2, 3, 40}, {1, 70, 1}, {70, 1, 1}, {1, 1, 70}}; size_t s = sv_size("shape", 0, shapes - 1), r = sh[s][0], k = sh[s][1], c = sh[s][2]; bool first = sv_bool("first operand symbolic"); Big x(r, k), y(k, c), w(r, c);
    auto fill = [](Big& b, const char* n, bool sym) { for (size_t i = 0; i < b.r; ++i) for (size_t j = 0; j < b.c; ++j) { size_t part = (i / 5 * 3 + j / 4) % 4; double lo = part == 0 ? 0 : part == 1 ? (on(i, j) ? 2 : 0) : part == 2 ? 32 : 512, hi = lo == 0 ? 0 : lo == 2 ? 3 : lo == 32 ? 63 : 1000; b.at(i, j) = lo == hi ? 0.0 : sym ? sv_fd(n, lo, hi) : lo + double((i + j) % 2); } };
    fill(x, "a", first); fill(y, "b", !first); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { double z = 0; for (size_t q = 0; q < k; ++q) z = z + x.at(i, q) * y.at(q, j); w.at(i, j) = z; }
    DD A = Make<DD>::of(x), B = Make<DD>::of(y); BrainTwister::Benchmark bench; bench.settings.repetitions = 1; auto res = a.execute(A, B, bench); holds(std::get<0>(res), w, "element of the accelerated product"); holds(A, x, "operand unchanged"); holds(B, y, "operand unchanged"); sv_reach("end");
}
HARNESS(block_long) { int lo = LIM(2, 1) * int(sv_int("min", 0, LIM(1, 3))) + 1; auto a = block(lo, 2 * lo + int(sv_int("more", 0, 1)) * 3); a.settings.threshold.significanceThresholdSinglePrecision = sv_bool("parts") ? 100 : 5000; a.settings.threshold.significanceThresholdDoublePrecision = 0.5; runLong(a, 7); }
HARNESS(native_long) { runLong(Action_native_dense((ptree())), 7); }
