// Block-wise matrices: assembling, splitting, products, bookkeeping.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/MatrixMultExp.h"
typedef BlockedDenseMatrix BM;
struct Parts { size_t n, s[4], total; };
static Parts parts(const char* nm, size_t lo, size_t hi, size_t each) { Parts p; p.n = sv_size(nm, lo, hi); p.total = 0; for (size_t i = 0; i < p.n; ++i) { p.s[i] = sv_size(nm, 1, each); p.total += p.s[i]; } return p; }
static std::vector<size_t> vec(Parts const& p) { std::vector<size_t> v; for (size_t i = 0; i < p.n; ++i) v.push_back(p.s[i]); return v; }
/// fill every block with a matrix of its size, the block at (sr,sc) of a symbolic kind, and write the elements into g
static void fill(BM& b, Parts const& pr, Parts const& pc, Grid<double>& g, const char* nm, size_t kind, size_t sr, size_t sc)
{
    size_t ro = 0; for (size_t i = 0; i < pr.n; ro += pr.s[i], ++i) { size_t co = 0; for (size_t j = 0; j < pc.n; co += pc.s[j], ++j) {
        Grid<double> e; b(i, j) = dyn(i == sr && j == sc ? kind : 6, nm, pr.s[i], pc.s[j], e);
        for (size_t x = 0; x < e.r; ++x) for (size_t y = 0; y < e.c; ++y) g.v[ro + x][co + y] = e.v[x][y];
    } }
}
static void meta(BM const& b, Parts const& pr, Parts const& pc)
{
    sv_assert(b.getNbRows() == pr.n && b.getNbColumns() == pc.n && b.getSize() == pr.n * pc.n, "number of blocks");
    sv_assert(b.getUnblockedRows() == pr.total && b.getUnblockedColumns() == pc.total, "number of elements in rows and columns");
    DimensionMatrix d = generateDimensionMatrix(b); sv_assert(d.getNbRows() == pr.n && d.getNbColumns() == pc.n, "one dimension per block");
    for (size_t i = 0; i < pr.n; ++i) for (size_t j = 0; j < pc.n; ++j) sv_assert(d(i, j).first == pr.s[i] && d(i, j).second == pc.s[j], "block dimensions");
}
static void types(BM const& b)
{
    TypeMatrix t = generateTypeMatrix(b); auto n = get_type_counting(b); size_t cnt[7] = {0, 0, 0, 0, 0, 0, 0}; sv_assert(t.getNbRows() == b.getNbRows() && t.getNbColumns() == b.getNbColumns(), "one type per block");
    for (size_t i = 0; i < b.getNbRows(); ++i) for (size_t j = 0; j < b.getNbColumns(); ++j) { const MatrixBase* p = b(i, j).get(); int k = dynamic_cast<const ZM*>(p) ? 0 : dynamic_cast<const SF*>(p) ? 1 : dynamic_cast<const DF*>(p) ? 2 : dynamic_cast<const SD*>(p) ? 3 : dynamic_cast<const M1*>(p) ? 4 : dynamic_cast<const M2*>(p) ? 5 : 6; sv_assert(t(i, j) == k, "type index of a block"); ++cnt[k]; }
    for (size_t k = 0; k < 7; ++k) sv_assert(n[k] == cnt[k], "number of blocks of a type");
}
/// assembling the blocks puts every element at its place
HARNESS(unblock)
{
    Parts pr = parts("rows", 1, 2, 2), pc = parts("cols", 1, 2, 2); size_t k = sv_size("kind", 0, 6), sr = sv_size("sr", 0, pr.n - 1), sc = sv_size("sc", 0, pc.n - 1); sv_assume(LIM(k == 0 || k == 6 || pr.s[sr] * pc.s[sc] <= 2, true));
    BM b(pr.n, pc.n, pr.total, pc.total); Grid<double> g(pr.total, pc.total); fill(b, pr, pc, g, "b", k, sr, sc);
    meta(b, pr, pc); types(b); DD d(b); sv_assert(d.getSize() == g.r * g.c, "size of the assembled matrix"); same(gridOf(d), g, "assembled element"); for (size_t i = 0, ro = 0; i < pr.n; ro += pr.s[i], ++i) for (size_t j = 0, co = 0; j < pc.n; co += pc.s[j], ++j) { Grid<double> e = gridDyn(b(i, j)); for (size_t x = 0; x < e.r; ++x) for (size_t y = 0; y < e.c; ++y) sv_assert(e.v[x][y] == g.v[ro + x][co + y], "block unchanged by assembling"); }
    sv_reach("end");
}
HARNESS(unblock_float)
{
    smallElements(); Parts pr = parts("rows", 1, 2, 2), pc = parts("cols", 1, 2, 2); BM b(pr.n, pc.n, pr.total, pc.total); Grid<double> g(pr.total, pc.total); fill(b, pr, pc, g, "b", sv_size("kind", 0, 1) ? 2 : 0, 0, 0); DF d(b); same(gridOf(d), g, "assembled single precision element"); sv_reach("end");
}
/// nested lists of blocks
HARNESS(lists)
{
    size_t h0 = sv_size("h0", 1, 2), h1 = sv_size("h1", 1, 2), w0 = sv_size("w0", 1, 2), w1 = sv_size("w1", 1, 2), k = sv_size("kind", 0, 1) ? 2 : 0; Grid<double> a, b, c, d; DynamicMatrix A = dyn(6, "a", h0, w0, a), B = dyn(k, "b", h0, w1, b), C = dyn(6, "c", h1, w0, c), D = dyn(6, "d", h1, w1, d);
    BM m{{A, B}, {C, D}}; Parts pr, pc; pr.n = pc.n = 2; pr.s[0] = h0; pr.s[1] = h1; pr.total = h0 + h1; pc.s[0] = w0; pc.s[1] = w1; pc.total = w0 + w1; meta(m, pr, pc);
    Grid<double> g(pr.total, pc.total); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) g.v[i][j] = i < h0 ? (j < w0 ? a.v[i][j] : b.v[i][j - w0]) : (j < w0 ? c.v[i - h0][j] : d.v[i - h0][j - w0]);
    same(gridOf(DD(m)), g, "element of a nested list of blocks"); sv_assert(m(0, 1).get() == B.get() && m(1, 0).get() == C.get(), "nested list keeps the blocks"); bool threw = false; if (h0 != h1) { try { BM x{{A, C}}; } catch (std::runtime_error&) { threw = true; } sv_assert(threw, "blocks of different height in a row are rejected"); } sv_reach("end");
}
/// splitting a matrix into blocks and assembling it again
template <class M> void generate(size_t each)
{
    Parts pr = parts("rows", 1, 2, each), pc = parts("cols", 1, 2, each); Grid<double> g; M m = Sym<M>::make("m", pr.total, pc.total, g); std::vector<size_t> vr = vec(pr), vc = vec(pc);
    ThresholdSettings s; size_t k = sv_size("target", 0, 6); double sig = sv_fd("sig", 0, 1000); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) sv_assume(g.v[i][j] >= 0); s.significanceThresholdDoublePrecision = sig; s.significanceThresholdSinglePrecision = 1000;
    double v[7]; for (size_t q = 0; q < 7; ++q) v[q] = q == k || q == 6 ? 2 : -1;
    s.occupationThresholdMatrixZeroSinglePrecision = s.occupationThresholdMatrixZeroDoublePrecision = v[0]; s.occupationThresholdMatrixSparseFloatSinglePrecision = s.occupationThresholdMatrixSparseFloatDoublePrecision = v[1]; s.occupationThresholdMatrixDenseFloatSinglePrecision = s.occupationThresholdMatrixDenseFloatDoublePrecision = v[2];
    s.occupationThresholdMatrixSparseDoubleSinglePrecision = s.occupationThresholdMatrixSparseDoubleDoublePrecision = v[3]; s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision = v[4]; s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision = v[5]; s.occupationThresholdMatrixDenseDoubleSinglePrecision = s.occupationThresholdMatrixDenseDoubleDoublePrecision = v[6]; sv_assume(sig < 1000);
    BM b = BlockedMatrixGenerator()(m, vr, vc, Threshold(s)); meta(b, pr, pc); types(b);
    for (size_t i = 0; i < pr.n; ++i) for (size_t j = 0; j < pc.n; ++j) sv_assert(b(i, j)->getTypeIndex() == k, "every block is converted");
    Grid<double> o = gridOf(DD(b)); for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) { double x = k == 1 || k == 2 ? double(float(g.v[i][j])) : g.v[i][j], e = k == 0 ? 0 : (k == 2 || k == 6) ? x : g.v[i][j] > sig ? x : 0; sv_assert(o.v[i][j] == e, "element after splitting and assembling"); } same(gridOf(m), g, "source unchanged"); sv_reach("end");
}
HARNESS(generate_dd) { generate<DD>(LIM(1, 2)); } HARNESS(generate_df) { generate<DF>(1); }
/// block heights and widths of two, all blocks dense
HARNESS(generate_shapes)
{
    Parts pr = parts("rows", 1, 3, 2), pc = parts("cols", 1, 3, 2); Grid<double> g; DD m = Sym<DD>::make("m", pr.total, pc.total, g); ThresholdSettings s; s.occupationThresholdMatrixZeroSinglePrecision = s.occupationThresholdMatrixSparseFloatSinglePrecision = s.occupationThresholdMatrixDenseFloatSinglePrecision = s.occupationThresholdMatrixSparseDoubleSinglePrecision = s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = -1; for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) sv_assume(g.v[i][j] > 0);
    BM b = BlockedMatrixGenerator()(m, vec(pr), vec(pc), Threshold(s)); meta(b, pr, pc); same(gridOf(DD(b)), g, "element after splitting and assembling"); sv_reach("end");
}
static Grid<double> mul(Grid<double> const& a, Grid<double> const& b) { Grid<double> c(a.r, b.c); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { double s = 0; for (size_t k = 0; k < a.c; ++k) s += a.v[i][k] * b.v[k][j]; c.v[i][j] = s; } return c; }
template <class I> void product(size_t most, bool kinds)
{
    Parts pr = parts("rows", 1, 2, most), pk = parts("inner", 1, 2, most), pc = parts("cols", 1, 2, most); sv_assume(!kinds || pr.n * pk.n * pc.n <= 4); size_t ka = kinds ? sv_size("ka", 0, 6) : 6, kb = kinds ? sv_size("kb", 0, 6) : 6;
    BM a(pr.n, pk.n, pr.total, pk.total), b(pk.n, pc.n, pk.total, pc.total); Grid<double> ga(pr.total, pk.total), gb(pk.total, pc.total); fill(a, pr, pk, ga, "a", ka, 0, pk.n - 1); fill(b, pk, pc, gb, "b", kb, pk.n - 1, 0);
    BM c = (a * b).template execute<I>(); meta(c, pr, pc); types(c); same(gridOf(DD(c)), mul(ga, gb), "element of a block-wise product"); same(gridOf(DD(a)), ga, "operand unchanged"); same(gridOf(DD(b)), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(product_kinds) { product<TheBestPolicy>(1, true); } HARNESS(product_shapes) { product<TheBestPolicy>(2, false); } HARNESS(product_native) { product<Native>(1, true); }
/// rows of three blocks: every block contributes, whatever kinds its neighbours have
template <class I> void longer(size_t rows, size_t cols)
{
    Parts pr, pk, pc; pr.n = pr.total = rows; pk.n = pk.total = 3; pc.n = pc.total = cols; for (size_t i = 0; i < 4; ++i) pr.s[i] = pk.s[i] = pc.s[i] = 1; size_t pa = sv_size("left", 0, 2), pb = sv_size("right", 0, 2), ka = sv_size("ka", 0, 6), kb = sv_size("kb", 0, 6);
    BM a(rows, 3, rows, 3), b(3, cols, 3, cols); Grid<double> ga(rows, 3), gb(3, cols); fill(a, pr, pk, ga, "a", ka, rows - 1, pa); fill(b, pk, pc, gb, "b", kb, pb, cols - 1);
    BM c = (a * b).template execute<I>(); meta(c, pr, pc); types(c); same(gridOf(DD(c)), mul(ga, gb), "element of a block-wise product"); same(gridOf(DD(a)), ga, "operand unchanged"); same(gridOf(DD(b)), gb, "operand unchanged"); sv_reach("end");
}
HARNESS(product_row) { longer<TheBestPolicy>(1, 1); } HARNESS(product_row_native) { longer<Native>(1, 1); } extern "C" void hvt_product_rows() { longer<TheBestPolicy>(2, 1); } extern "C" void hvt_product_cols() { longer<TheBestPolicy>(1, 2); }
/// copies, moves, swap and resize keep number of blocks, element counts and blocks together
HARNESS(ownership)
{
    size_t base = sv_live_heap();
    {
        Parts pa = parts("rows", 1, 2, 2), pb = parts("cols", 1, 2, 1); BM a(pa.n, pb.n, pa.total, pb.total), b(pb.n, pa.n, pb.total, pa.total); Grid<double> ga(pa.total, pb.total), gb(pb.total, pa.total); fill(a, pa, pb, ga, "a", 6, 0, 0); fill(b, pb, pa, gb, "b", 0, 0, 0);
        switch (sv_size("op", 0, 6)) {
        case 0: { BM t(a); meta(t, pa, pb); same(gridOf(DD(t)), ga, "copy"); a = b; meta(a, pb, pa); same(gridOf(DD(a)), gb, "assigned copy"); meta(t, pa, pb); same(gridOf(DD(t)), ga, "copy outlives its source"); break; }
        case 1: { BM t(std::move(a)); meta(t, pa, pb); same(gridOf(DD(t)), ga, "moved matrix"); a = t; meta(a, pa, pb); same(gridOf(DD(a)), ga, "source assigned again"); break; }
        case 2: { a = std::move(b); meta(a, pb, pa); same(gridOf(DD(a)), gb, "move-assigned matrix"); break; }
        case 3: { swap(a, b); meta(a, pb, pa); meta(b, pa, pb); same(gridOf(DD(a)), gb, "swapped matrix"); same(gridOf(DD(b)), ga, "swapped matrix"); break; }
        case 4: { a.resize(pb.n, pa.n, pb.total, pa.total); Grid<double> g(pb.total, pa.total); fill(a, pb, pa, g, "n", 6, 0, 0); meta(a, pb, pa); same(gridOf(DD(a)), g, "resized matrix"); break; }
        case 5: { Matrix<Dense, double, PCS> t(std::move(Matrix<Dense, double, PCS>(static_cast<const DD&>(*a(0, 0)), pa.s[0], pb.s[0], 0, 0))); sv_assert(t.getNbRows() == pa.s[0] && t.getLdRows() == pa.s[0] && t.getLdColumns() == pb.s[0], "moved view"); for (size_t i = 0; i < pa.s[0]; ++i) for (size_t j = 0; j < pb.s[0]; ++j) sv_assert(t(i, j) == ga.v[i][j], "element of a moved view"); break; }
        default: { Grid<double> e; DynamicMatrix x = dyn(6, "x", pa.s[0], pb.s[0], e); BM t(a); t(0, 0) = x; same(gridOf(DD(a)), ga, "replacing a block of a copy leaves the original alone"); break; }
        }
    }
    sv_assert(sv_live_heap() == base, "every block is released exactly once"); sv_reach("end");
}
/// norms of the single blocks
HARNESS(norms)
{
    static const size_t kinds[5] = {0, 1, 2, 3, 6}; Parts pr = parts("rows", 1, 2, 1), pc = parts("cols", 1, 2, 1); BM b(pr.n, pc.n, pr.total, pc.total); Grid<double> g(pr.total, pc.total); fill(b, pr, pc, g, "b", kinds[sv_size("kind", 0, 4)], pr.n - 1, 0); NormMatrix n = generateNormMatrix(b); sv_assert(n.getNbRows() == pr.n && n.getNbColumns() == pc.n, "one norm per block");
    for (size_t i = 0; i < pr.n; ++i) for (size_t j = 0; j < pc.n; ++j) sv_assert(n(i, j) == std::sqrt(g.v[i][j] * g.v[i][j]), "norm of a block"); sv_reach("end");
}
