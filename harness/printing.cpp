// Printing: what is written shows every element (value, key, offset, count, time) in its place, and nothing else.
#include "bb.h"
#include "sym.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Utilities/STLHelpers.h"
#include "BlasBooster/Utilities/ScopedTimer.h"
typedef std::vector<std::string> Words;
static std::vector<std::string> linesOf(std::string const& t) { std::vector<std::string> l; size_t b = 0; for (size_t i = 0; i <= t.size(); ++i) if (i == t.size() || t[i] == '\n') { bool blank = true; for (size_t k = b; k < i; ++k) blank = blank && t[k] == ' '; if (!blank) l.push_back(t.substr(b, i - b)); b = i + 1; } return l; }
static Words wordsOf(std::string const& l) { Words w; size_t i = 0; for (;;) { while (i < l.size() && (l[i] == ' ' || l[i] == '\n')) ++i; if (i == l.size()) return w; size_t b = i; while (i < l.size() && l[i] != ' ' && l[i] != '\n') ++i; w.push_back(l.substr(b, i - b)); } }
static bool begins(std::string const& l, const char* p) { return l.compare(0, strlen(p), p) == 0; }
static bool has(std::string const& t, std::string const& p) { return t.find(p) != std::string::npos; }
static std::string num(size_t n) { char b[24]; int k = 24; do { b[--k] = char('0' + n % 10); n /= 10; } while (n); return std::string(b + k, 24 - k); }
/// the words of the line starting with a title, behind the title
static Words after(std::string const& t, const char* title) { size_t p = t.find(title); sv_assert(p != std::string::npos, "the title of a part of the output"); size_t e = t.find('\n', p); return wordsOf(t.substr(p + strlen(title), (e == std::string::npos ? t.size() : e) - p - strlen(title))); }
static bool shows(std::ostringstream const& s, size_t& k, std::string const& w, double v) { return w == "\1" && k < s.sv_nums().size() && s.sv_nums()[k++] == v; }
static bool shows(std::ostringstream const& s, size_t& k, std::string const& w, float v) { return shows(s, k, w, double(v)); }
static bool shows(std::ostringstream const&, size_t&, std::string const& w, int v) { return w == (v < 0 ? "-" + num(size_t(-v)) : num(size_t(v))); }
/// one line per row with one word per column, in order; all rows of the same length
template <class T> void table(std::ostringstream const& s, size_t& k, std::vector<std::string> const& l, size_t from, Grid<T> const& g)
{
    for (size_t i = 0; i < g.r; ++i) { Words w = wordsOf(l[from + i]); sv_assert(w.size() == g.c, "one word per column"); sv_assert(l[from + i].size() == l[from].size(), "the columns are aligned"); for (size_t j = 0; j < g.c; ++j) sv_assert(shows(s, k, w[j], g.v[i][j]), "the element at its row and column"); }
}
template <class M, class T> void denseOut(const char* name, int64_t b)
{
    size_t r = sv_size("rows", 0, LIM(2, 3)), c = sv_size("columns", 0, LIM(2, 3)); Grid<T> g = symGrid<T>("e", r, c, b); MK_DENSE(M, m, g); std::ostringstream s; bool full = sv_bool("full"); if (full) s << fullprint; if (sv_bool("back to short")) { s << shortprint; full = false; }
    s << m; auto l = linesOf(s.str()); size_t k = 0, head = 0;
    if (full) { sv_assert(l.size() >= 2 && has(s.str(), name) && has(s.str(), num(r) + " x " + num(c)), "name and dimension in full output"); head = 2; }
    size_t rows = c ? r : 0; sv_assert(l.size() == head + rows, "one line per row"); if (rows) table(s, k, l, head, g); sv_assert(k == s.sv_nums().size(), "every element once"); for (auto& f : s.sv_formats()) sv_assert(f.second >= 10 && (f.first & std::ios_base::scientific), "scientific notation with ten digits"); same(gridOf(m), g, "printing leaves the matrix alone"); sv_reach("end");
}
HARNESS(dense_d) { denseOut<DD, double>("Matrix<Dense,double>", 1000); } HARNESS(dense_dr) { denseOut<DDR, double>("Matrix<Dense,double>", 1000); } HARNESS(dense_f) { denseOut<DF, float>("Matrix<Dense,float>", 1000); } HARNESS(dense_i) { denseOut<DI, int>("Matrix<Dense,int>", 1); }
/// the widest element decides on the width of a column
HARNESS(columns)
{
    Grid<int> g(2, 2); int v[4] = {3, -71, 12, 104}; for (int i = 0; i < 4; ++i) g.v[i / 2][i % 2] = v[sv_concretize(sv_int("value", 0, 3))]; MK_DENSE(DI, m, g); std::ostringstream s; s << m; auto l = linesOf(s.str()); sv_assert(l.size() == 2, "one line per row"); size_t k = 0; table(s, k, l, 0, g); sv_reach("end");
}
HARNESS(limit)
{
    bool tall = sv_bool("tall"); size_t n = sv_size("n", 99, 101), z = 0; DI m(tall ? n : 1, tall ? 1 : n); for (size_t i = 0; i < n; ++i) m.getDataPointer()[i] = int(i); std::ostringstream s; s << m; auto w = wordsOf(s.str());
    if (n <= 100) { sv_assert(w.size() == n, "every element of a matrix of at most hundred rows and columns"); for (size_t i = 0; i < n; ++i) sv_assert(shows(s, z, w[i], int(i)), "the element at its row and column"); sv_assert(linesOf(s.str()).size() == (tall ? n : 1), "one line per row"); } else sv_assert(has(s.str(), "too large") && linesOf(s.str()).size() == 1, "a matrix too large is named so"); sv_reach("end");
}
/// values, keys and offsets of a sparse matrix against the storage itself
template <class T, class P> void sparsePart(std::ostringstream const& s, size_t& k, std::string const& t, Matrix<Sparse, T, P> const& m, const char* name)
{
    sv_assert(begins(t, name) && has(t, "Dimension = " + num(m.getNbRows()) + " x " + num(m.getNbColumns())) && has(t, "Size = " + num(m.getSize())), "name, size and dimension of a sparse matrix");
    Words v = after(t, "Value array = "), y = after(t, "Key array = "), o = after(t, "Offset array = "); size_t lines = std::is_same<typename P::orientation, ColumnMajor>::value ? m.getNbColumns() : m.getNbRows();
    sv_assert(v.size() == m.nnz() && y.size() == m.nnz() && o.size() == lines + 1, "lengths of the arrays"); for (size_t i = 0; i < m.nnz(); ++i) { sv_assert(shows(s, k, v[i], m.begin()[i]), "value of a sparse matrix"); sv_assert(y[i] == num(m.beginKey()[i]), "key of a sparse matrix"); } for (size_t i = 0; i <= lines; ++i) sv_assert(o[i] == num(m.beginOffset()[i]), "offset of a sparse matrix");
}
template <class M, class T> void sparseOut(const char* name)
{
    size_t r = sv_size("rows", 0, 2), c = sv_size("columns", 0, 2); auto p = symPat<T>("on", r, c); Grid<T> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (p.on[i][j]) g.v[i][j] = T(sv_fd("e", 1, 1000)); typedef typename std::conditional<std::is_same<T, float>::value, DF, DD>::type D; MK_DENSE(D, d, g); M m(d, AbsoluteValueRangeChecker<double>(0.5)); std::ostringstream s; s << m; size_t k = 0; sparsePart(s, k, s.str(), m, name); sv_assert(k == s.sv_nums().size(), "every value once"); sv_reach("end");
}
HARNESS(sparse_d) { sparseOut<SD, double>("Matrix<Sparse,double>"); } HARNESS(sparse_dr) { sparseOut<SDR, double>("Matrix<Sparse,double>"); } HARNESS(sparse_f) { sparseOut<SF, float>("Matrix<Sparse,float>"); }
HARNESS(sparse_limit) { size_t n = sv_size("n", 9, 11), k = 0; DD d(n, 10, AllFiller<double>(0.0)); d(n - 1, 9) = 5; SD m(d, AbsoluteValueRangeChecker<double>(0.5)); std::ostringstream s; s << m; if (n <= 10) sparsePart(s, k, s.str(), m, "Matrix<Sparse,double>"); else sv_assert(has(s.str(), "too large") && has(s.str(), num(n * 10)) && s.sv_nums().empty(), "a sparse matrix too large is named so"); sv_reach("end"); }
HARNESS(block_dimension) { size_t r = sv_size("rows", 0, 12), c = sv_size("columns", 0, 12); std::ostringstream s; s << Dim(r, c); sv_assert(s.str() == num(r) + "x" + num(c), "dimension of a block"); sv_reach("end"); }
HARNESS(zero) { size_t r = sv_size("rows", 0, 3), c = sv_size("columns", 0, 3); ZM m(r, c); std::ostringstream s; s << m; auto l = linesOf(s.str()); sv_assert(l.size() == 3 && begins(l[0], "Matrix<Zero>") && has(l[1], num(r * c)) && has(l[2], num(r) + " x " + num(c)), "name, size and dimension of a zero matrix"); sv_reach("end"); }
/// what a dynamic matrix holds is what is printed
template <class M> std::string text(M const& m, std::vector<double>& n) { std::ostringstream s; s << m; n = s.sv_nums(); return s.str(); }
template <class M> void dyn(M* m) { std::vector<double> a, b; std::string x = text(*m, a); DynamicMatrix d(m); sv_assert(text(d, b) == x, "a dynamic matrix prints what it holds"); sv_assert(a.size() == b.size(), "elements of a dynamic matrix"); for (size_t i = 0; i < a.size(); ++i) sv_assert(a[i] == b[i], "element of a dynamic matrix"); }
HARNESS(dynamic)
{
    Grid<double> g = symGrid<double>("e", 2, 1, 1000), h = symGrid<double>("h", 2, 1, 1000); MK_DENSE(DD, d, g); MK_DENSE(DD, e, h); AbsoluteValueRangeChecker<double> all(0.0);
    switch (sv_concretize(sv_int("kind", 0, 7))) {
    case 0: dyn(new ZM(2, 1)); break; case 1: dyn(new SF(d, all)); break; case 2: dyn(new DF(d)); break; case 3: dyn(new SD(d, all)); break;
    case 4: { typedef MultipleMatrix<SD, SF> M; auto a = std::shared_ptr<SD>(new SD(d, all)); auto b = std::shared_ptr<SF>(new SF(e, all)); M* m = new M(a, b); std::vector<double> n; std::string t = text(*m, n); size_t k = 0, p = t.rfind("Matrix<Sparse,float>"); std::ostringstream s; s << *m; sv_assert(p != std::string::npos && p > 0, "both summands are printed"); sparsePart(s, k, t.substr(0, p), *a, "Matrix<Sparse,double>"); sparsePart(s, k, t.substr(p), *b, "Matrix<Sparse,float>"); sv_assert(k == n.size(), "every value once"); dyn(m); break; }
    case 5: dyn(new MultipleMatrix<SD, DF>(std::shared_ptr<SD>(new SD(d, all)), std::shared_ptr<DF>(new DF(e)))); break; case 6: dyn(new DD(d)); break;
    default: { std::ostringstream s; DynamicMatrix none; s << none; sv_assert(has(s.str(), "No Matrix found"), "an empty dynamic matrix is named so"); }
    } sv_reach("end");
}
HARNESS(vectors)
{
    size_t n = sv_size("n", 0, 3), k = 0; std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(sv_fd("v", -1000, 1000)); std::ostringstream s; BlasBooster::operator<<(s, v); auto l = linesOf(s.str()); sv_assert(l.size() == n + 1 && has(l[0], "size = " + num(n)), "size and one line per element of a vector"); for (size_t i = 0; i < n; ++i) sv_assert(shows(s, k, l[i + 1], v[i]), "element of a vector"); sv_reach("end");
}
HARNESS(timer)
{
    std::ostringstream o; std::cout.kept = &o; { ScopedTimer a("outer"); { ScopedTimer b("inner", 3); } std::cout << "between" << std::endl; } std::cout.kept = nullptr;
    auto l = linesOf(o.str()); sv_assert(l.size() == 3, "one line per timer at the end of its scope"); sv_assert(begins(l[0], "inner: \1 s") && l[1] == "between" && begins(l[2], "outer: \1 s"), "label and time of a timer");
    auto& f = o.sv_formats(); sv_assert(f.size() == 2 && f[0].second == 3 && f[1].second == 6 && (f[0].first & std::ios_base::fixed) && (f[1].first & std::ios_base::fixed), "digits of a time"); sv_assert(o.sv_nums()[1] >= o.sv_nums()[0] && o.sv_nums()[0] >= 0, "an enclosing scope takes no less time"); sv_reach("end");
}
/// the table of the tracker: exactly the identifiers with calls, with their number of calls and their time
HARNESS(tracker)
{
    int id[3]; for (int& i : id) i = sv_concretize(sv_int("id", 0, LIM(2, 4))) * 6; int64_t ns[3]; for (auto& t : ns) t = sv_concretize(sv_int("time", 1, 2)) * 7; size_t calls = sv_size("calls", 0, LIM(2, 3)); for (size_t i = 0; i < calls; ++i) TrackerRegister::add(TrackerID(id[i]), BlasBooster::clock::duration(ns[i]));
    std::ostringstream s; s << "x\n"; TrackerRegister::print(s); auto l = linesOf(s.str()); size_t expect = 0; static const char* names[] = {"OpenBLAS_dgemm", "IntelMKL_dcsrmultcsr", "Blaze_dgemm", "Native_dense_sparse", "get_block_size"};
    for (int k = 0; k < 5; ++k) { size_t n = 0; int64_t t = 0; for (size_t i = 0; i < calls; ++i) if (id[i] == 6 * k) { ++n; t += ns[i]; } size_t found = 0; for (auto& x : l) if (has(x, names[k])) { ++found; Words w = wordsOf(x); sv_assert(w.size() == 4 && w[0] == names[k] && w[1] == num(n) && w[2] == num(size_t(t)) && w[3] == "ns", "calls and time of an identifier"); } sv_assert(found == (n ? 1u : 0u), "one line per identifier with calls"); expect += found; }
    sv_assert(l.size() == expect + 3, "nothing but the identifiers with calls"); sv_reach("end");
}
