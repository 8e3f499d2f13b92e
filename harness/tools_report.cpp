// The report of the benchmark: one line per pair and action with its name, its measured time and the norms of the
// difference to the first action; times are shown in seconds with the requested digits.
#define WITH_OPENBLAS 1
#include "tools.h"
#include "BlasBooster/Utilities/Tracker.h"
#include "../src/Benchmark/MatrixProvider.cpp"
#include "../src/Benchmark/ActionProvider.cpp"
#include "../src/Benchmark/time.cpp"
#undef BLASBOOSTER_USE_TRACKER
#include "../src/Benchmark/benchmark.cpp"
#include "backend.h"
#include "backend_product.h"
static double delta;
namespace BlasBooster {
void OpenBLAS_set_num_threads(int) {}
/// a back end whose first element is off by delta
void BlasInterface<OpenBLAS, dgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const double* f, const double* g, const int* h, const double* i, const int* j, const double* k, double* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); *l = *l + delta; }
void BlasInterface<OpenBLAS, sgemm>::operator()(const char* a, const char* b, const int* c, const int* d, const int* e, const float* f, const float* g, const int* h, const float* i, const int* j, const float* k, float* l, const int* m) const { refGemm(a, b, c, d, e, f, g, h, i, j, k, l, m); }
}
typedef std::vector<std::string> Words;
static std::vector<std::string> linesOf(std::string const& t) { std::vector<std::string> l; size_t b = 0; for (size_t i = 0; i <= t.size(); ++i) if (i == t.size() || t[i] == '\n') { l.push_back(t.substr(b, i - b)); b = i + 1; } return l; }
static Words wordsOf(std::string const& l) { Words w; size_t i = 0; for (;;) { while (i < l.size() && l[i] == ' ') ++i; if (i == l.size()) return w; size_t b = i; while (i < l.size() && l[i] != ' ') ++i; w.push_back(l.substr(b, i - b)); } }
static bool has(std::string const& t, const char* p) { return t.find(p) != std::string::npos; }
static PT fileSet(size_t n, const char* const* xml) { PT s; for (size_t i = 0; i < n; ++i) s.add("File", PT(xml[i])); return s; }
static const long long ns[5] = {0, 1, 999, 2500000000ll, 61000000001ll};
static long long someTime() { return ns[sv_concretize(sv_int("time", 0, 4))]; }
struct Shown { std::ostringstream o; size_t k = 0; Shown() { std::cout.kept = &o; } ~Shown() { std::cout.kept = nullptr; } double next() { sv_assert(k < o.sv_nums().size(), "a number in the report"); return o.sv_nums()[k++]; }
    void time(long long t, int digits) { sv_assert(k < o.sv_nums().size() && (o.sv_formats()[k].first & std::ios_base::floatfield) == std::ios_base::fixed && o.sv_formats()[k].second == digits, "a time is shown in fixed notation with the requested digits"); double v = next(), s = double(t) / 1e9; sv_assert(v <= s * (1 + 1e-14) && v >= s * (1 - 1e-14), "the measured time in seconds"); } };
static Grid<double> elements(const char* n, size_t r, size_t c, int64_t b) { if (b) return symGrid<double>(n, r, c, b); Grid<double> g(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = 1; return g; }
static const char* const OB = "openblas_dgemm";
static double off(const char* a, const char* first) { return (a == OB) == (first == OB) ? delta - delta : a == OB ? delta : -delta; }
static void stored(size_t i, size_t r, size_t c, double d)
{
    auto* f = svf::find("diff_" + std::to_string(i) + ".dat"); sv_assert(f != nullptr, "the difference of a pair is stored"); if (!f) return; sv_assert(f->size == r * c * sizeof(double), "size of the stored difference"); if (f->size != r * c * sizeof(double)) return;
    for (size_t k = 0; k < r * c; ++k) { double x; memcpy(&x, f->data + 8 * k, 8); sv_assert(x == (k == 0 ? d : 0.0), "the stored difference is that to the first action"); }
}
/// acts: the names of the actions; the back end of openblas_dgemm is off by delta
static void run(size_t n, size_t nact, const char* const* name, size_t ntimes, int64_t bound)
{
    bool diff = !ntimes && sv_bool("store the difference"); if (diff) optn("--diff", 1); delta = ntimes ? 0.0 : sv_fd("delta", -1000, 1000); bool given = sv_bool("digits given"); int digits = given ? int(sv_size("digits", 0, 2)) * 4 : 3; size_t r = 2, c = 1; const char* xa[2] = {"a0.xml", "a1.xml"}; const char* xb[2] = {"b0.xml", "b1.xml"}; const char* da[2] = {"a0", "a1"}; const char* db[2] = {"b0", "b1"};
    for (size_t i = 0; i < n; ++i) { matrixFile(elements("a", r, 1, bound), da[i], xa[i]); matrixFile(elements("b", 1, c, bound), db[i], xb[i]); }
    PT acts, mats; for (size_t a = 0; a < nact; ++a) acts.add(name[a], PT()); mats.add("A", fileSet(n, xa)); mats.add("B", fileSet(n, xb)); theSettings.add("actions", acts); theSettings.add("matrices", mats);
    svf::file("benchmark.json").set("s"); svf::files().reserve(20); if (given) optn("--duration_digits", size_t(digits)); std::vector<long long> t; for (size_t i = 0; i < n * (nact + ntimes); ++i) t.push_back(i < 1 ? someTime() : 1000000000ll * (long long)(i + 1)); svf_average_times() = t;
    Shown s; sv_assert(tool_main(0, noargs) == 0, "the benchmark ends successfully"); auto l = linesOf(s.o.str()); size_t row = 0; while (row < l.size() && l[row].find("----") != 0) ++row; sv_assert(row < l.size(), "a line below the heading"); ++row; size_t at = 0;
    for (size_t i = 0; i < n; ++i) for (size_t a = 0; a < nact; ++a, ++row)
    {
        Words w = row < l.size() ? wordsOf(l[row]) : Words(); sv_assert(w.size() >= 5 && w[0] == std::string(1, char('0' + i)) && w[1] == name[a] && w[2] == "\1" && w[3] == "\1" && w[4] == "\1", "number of the pair, name, time and norms of an action");
        long long total = 0; size_t parts = ntimes && name[a] != OB ? ntimes + 1 : 1; for (size_t p = 0; p < parts; ++p) total += t[at + p]; s.time(total, digits);
        double m = s.next(), two = s.next(), d = a == 0 ? 0.0 : off(name[a], name[0]); sv_assert(m == (d < 0 ? -d : d), "maximum norm of the difference to the first action"); sv_assert(two == std::sqrt(d * d), "2-norm of the difference to the first action");
        if (parts == 1) sv_assert(w.size() == 5, "no details"); else { static const char* const nm[3] = {"size:", "block:", "mult:"}; sv_assert(w.size() == 5 + 3 * parts, "a detail per part"); for (size_t p = 0; p < parts; ++p) { sv_assert(w[5 + 3 * p] == nm[p] && w[6 + 3 * p] == "\1" && w[7 + 3 * p] == "s", "name and time of a part"); s.time(t[at + p], digits); } }
        at += parts;
    }
    for (size_t i = 0; i < n; ++i) if (diff && nact > 1) stored(i, r, c, off(name[nact - 1], name[0])); else sv_assert(!svf::find("diff_" + std::to_string(i) + ".dat"), "no difference is stored unasked");
    sv_assert(s.k == s.o.sv_nums().size(), "no further lines"); sv_assert(has(s.o.str(), "successfully finished") && !has(s.o.str(), "aborted"), "success is announced"); sv_reach("end");
}
HARNESS(report) { size_t n = sv_size("pairs", 1, 2), k = sv_size("actions", 1, 2); bool first = sv_bool("first action differs"); const char* const a[2] = {first ? OB : "native_dense", first ? "native_dense" : OB}; run(n, k, a, 0, 100); }
/// every action is compared with the first one, not with its neighbour
HARNESS(report_three) { size_t k = sv_size("actions that differ", 0, 7); const char* a[3]; for (size_t i = 0; i < 3; ++i) a[i] = k >> i & 1 ? OB : "native_dense"; run(1, 3, a, 0, 100); }
HARNESS(report_block) { const char* const a[2] = {OB, "blasbooster_block"}; run(1, 2, a, 2, 0); }
/// a difference that cannot be stored is a failure
HARNESS(unwritable)
{
    matrixFile(symGrid<double>("a", 1, 1, 100), "a0", "a0.xml"); const char* x[1] = {"a0.xml"}; PT acts, mats; acts.add("native_dense", PT()); acts.add("native_dense", PT()); mats.add("A", fileSet(1, x)); mats.add("B", fileSet(1, x)); theSettings.add("actions", acts); theSettings.add("matrices", mats); svf::file("benchmark.json").set("s"); bool asked = sv_bool("store the difference"); if (asked) optn("--diff", 1);
    auto& f = svf::file("diff_0.dat"); f.exists = false; f.openable = false; Shown s; int rc = tool_main(0, noargs); auto t = s.o.str(); sv_assert((rc != 0) == asked, "a difference that cannot be stored is a failure"); sv_assert((rc != 0) == has(t, "exception") && (rc == 0) == has(t, "successfully finished"), "the reason of a failure is named"); sv_reach("end");
}
HARNESS(failure)
{
    matrixFile(symGrid<double>("a", 1, 1, 100), "a0", "a0.xml"); const char* x[1] = {"a0.xml"}; PT acts, mats; bool known = sv_bool("action known"); acts.add(known ? "native_dense" : "nothing", PT()); if (sv_bool("matrices given")) { mats.add("A", fileSet(1, x)); mats.add("B", fileSet(1, x)); } theSettings.add("actions", acts); theSettings.add("matrices", mats); svf::file("benchmark.json").set("s"); Shown s; int rc = tool_main(0, noargs); auto t = s.o.str();
    sv_assert((rc == 0) == has(t, "successfully finished"), "success is announced on success only"); sv_assert((rc != 0) == has(t, "exception") && (rc != 0) == has(t, "aborted"), "the reason of a failure is named"); sv_reach("end");
}
/// block limits that cannot be met are a failure of the run
HARNESS(failure_limits)
{
    matrixFile(symGrid<double>("a", 1, 1, 100), "a0", "a0.xml"); const char* x[1] = {"a0.xml"}; PT acts, mats, b, th; size_t lo = sv_size("min", 0, 3), hi = sv_size("max", 0, 4); th.add("min_block_size", PT(lo)); th.add("max_block_size", PT(hi)); b.add("threshold", th); acts.add("native_dense", PT()); acts.add("blasbooster_block", b); mats.add("A", fileSet(1, x)); mats.add("B", fileSet(1, x)); theSettings.add("actions", acts); theSettings.add("matrices", mats); svf::file("benchmark.json").set("s"); Shown s; int rc = tool_main(0, noargs); auto t = s.o.str();
    sv_assert((rc != 0) == (2 * lo > hi), "block limits that cannot be met end with an error status"); sv_assert((rc == 0) == has(t, "successfully finished") && (rc != 0) == has(t, "exception") && (rc != 0) == has(t, "aborted"), "the reason of a failure is named"); sv_reach("end");
}
/// a duration keeps the notation of the stream and shows every digit asked for
HARNESS(duration)
{
    using namespace std::chrono; Shown s; bool sci = sv_bool("scientific"); if (sci) std::cout << std::scientific; long long t = someTime(); int d = int(sv_size("digits", 0, 9)), d2 = int(sv_size("digits", 0, 9)); BrainTwister::myclock::duration x = duration_cast<BrainTwister::myclock::duration>(nanoseconds(t));
    std::cout << set_duration_accuracy(d) << x << " "; s.time(t, d); std::cout << 1.5 << " "; sv_assert(bool(s.o.sv_formats().back().first & std::ios_base::scientific) == sci && !(s.o.sv_formats().back().first & std::ios_base::fixed), "the notation of the stream is kept"); s.next(); std::ostringstream other; other << set_duration_accuracy(d2); std::cout << x << " "; s.time(t, d); std::cout << set_duration_accuracy(d2) << x; s.time(t, d2); sv_assert(duration_accuracy::get(std::cout) == d2, "the accuracy is kept per stream"); sv_reach("end");
}
HARNESS(command_line)
{
    svf_cli_wrong() = sv_bool("command line not understood"); if (sv_bool("help")) optn("--help", 1); else sv_assume(svf_cli_wrong()); matrixFile(symGrid<double>("a", 1, 1, 100), "a0", "a0.xml"); auto& f = svf::file("benchmark.json"); f.set("s"); Shown s; int rc = tool_main(0, noargs);
    sv_assert((rc != 0) == svf_cli_wrong(), "a command line that is not understood ends with an error status, a request for help does not"); sv_assert(svf_cli_shown() == 1, "the usage is shown"); sv_assert(f.opened == 0 && !has(s.o.str(), "successfully finished"), "nothing runs"); sv_reach("end");
}
