// Reading and writing files: a matrix file is read completely or refused, whatever its length and layout.
#include "env.h"
#include "bb.h"
#include "BlasBooster/Utilities/FileIO.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include "../src/MatrixFactory/MatrixFileImporter.cpp"
using svf::file; using svf::bytes; typedef boost::property_tree::ptree PT;
static PT settings(size_t r, size_t c, size_t lr, size_t lc, size_t ro, size_t co, const char* n)
{
    PT t; t.add("nbRows", PT(r)); t.add("nbColumns", PT(c)); t.add("rowLeadingDimension", PT(lr)); t.add("columnLeadingDimension", PT(lc)); t.add("rowOffset", PT(ro)); t.add("columnOffset", PT(co)); t.add("filename", PT(n)); return t;
}
/// data file of a column-major lr x lc array; cut = number of missing bytes
template <class T> void data(Grid<T> const& g, const char* n, size_t cut) { auto& f = file(n); for (size_t j = 0; j < g.c; ++j) for (size_t i = 0; i < g.r; ++i) bytes(f, &g.v[i][j], 1); f.size -= cut < f.size ? cut : f.size; }
template <class T, class F> void outcome(F f, bool ok, Grid<T> const& g, size_t r, size_t c, size_t ro, size_t co)
{
    int got = 0; Matrix<Dense, T> m;
    try { f(m); got = 1; } catch (BlasBoosterException const&) { got = 2; } catch (...) { sv_fail("unreadable files are reported by an exception of the library"); }
    sv_assert(got == 2 || ok, "a file that cannot supply every element is refused"); sv_assert(got == 1 || !ok, "a complete file is read");
    if (got == 1) { sv_assert(m.getNbRows() == r && m.getNbColumns() == c, "dimensions of the matrix read"); Grid<T> e(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) e.v[i][j] = g.v[i + ro][j + co]; auto h = gridOf(m); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(h.v[i][j], e.v[i][j]), "element read from the file"); }
    sv_reach("end");
}
/// bytes a reader of the block needs: up to its last element
static size_t need(size_t r, size_t c, size_t lr, size_t ro, size_t co) { return r && c ? ((co + c - 1) * lr + ro + r) : 0; }
template <class T, class P> void block(size_t mx)
{
    size_t lr = sv_size("ldRows", 0, mx), lc = sv_size("ldColumns", 0, 2), r = sv_size("rows", 0, lr), c = sv_size("columns", 0, lc), ro = sv_size("rowOffset", 0, lr - r + 1), co = sv_size("columnOffset", 0, lc - c + 1);
    Grid<T> g = rawGrid<T>("e", lr, lc); size_t cut = sv_size("missing", 0, 2) * (sizeof(T) / 2); data(g, "data", cut); file("m.xml").tree = settings(r, c, lr, lc, ro, co, "data");
    size_t have = lr * lc * sizeof(T); have -= cut < have ? cut : have; bool inside = r + ro <= lr && c + co <= lc; bool ok = inside && need(r, c, lr, ro, co) * sizeof(T) <= have;
    outcome<T>([](Matrix<Dense, T>& m) { P::read(m); }, ok, g, r, c, ro, co);
}
struct ByPath { template <class T> static void read(Matrix<Dense, T>& m) { m = Matrix<Dense, T>(filesystem::path("m.xml")); } };
struct ByStream { template <class T> static void read(Matrix<Dense, T>& m) { std::sv_ifstream is("m.xml"); m.resize(2, 1); m = T(7); is >> m; } };
HARNESS(block_double) { block<double, ByPath>(2); } HARNESS(block_float) { block<float, ByStream>(2); } HARNESS(block_rows) { block<double, ByStream>(3); }
/// long columns and many columns
template <class T, class P> void blockLong()
{
    static const size_t sh[][2] = {{60, 3}, {3, 60}, {190, 1}, {1, 190}, {13, 14}}; size_t n = sv_size("shape", 0, 4), lr = sh[n][0], lc = sh[n][1], ro = sv_size("rowOffset", 0, 1) * (lr / 2), co = sv_size("columnOffset", 0, 1) * (lc / 2), r = lr - ro - (lr > 1 ? sv_size("rowsLeft", 0, 1) : 0), c = lc - co - (lc > 1 ? sv_size("columnsLeft", 0, 1) : 0), cut = sv_size("missing", 0, 1);
    std::vector<T> e; auto& f = file("data"); for (size_t i = 0; i < lr * lc; ++i) { T x = SvRaw<T>::get("e"); e.push_back(x); bytes(f, &x, 1); } f.size -= cut; file("m.xml").tree = settings(r, c, lr, lc, ro, co, "data"); bool ok = need(r, c, lr, ro, co) * sizeof(T) <= lr * lc * sizeof(T) - cut, got = true; Matrix<Dense, T> m;
    try { P::read(m); } catch (BlasBoosterException const&) { got = false; } sv_assert(got == ok, "a complete file is read, any other refused"); if (!got) { sv_reach("refused"); return; }
    sv_assert(m.getNbRows() == r && m.getNbColumns() == c, "dimensions of the matrix read"); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(sv_same(m.getDataPointer()[j * r + i], e[(co + j) * lr + ro + i]), "element read from the file"); sv_reach("end");
}
HARNESS(block_long) { blockLong<double, ByPath>(); } HARNESS(block_long_f) { blockLong<float, ByStream>(); }
HARNESS(missing)
{
    bool hdr = sv_bool("header exists"), dat = sv_bool("data exists"); file("m.xml").tree = settings(1, 1, 1, 1, 0, 0, "data"); svf::find("m.xml")->exists = hdr; Grid<double> g = rawGrid<double>("e", 1, 1); data(g, "data", 0); svf::find("data")->exists = dat;
    outcome<double>([](DD& m) { m = DD(filesystem::path("m.xml")); }, hdr && dat, g, 1, 1, 0, 0);
}
HARNESS(importer)
{
    size_t r = sv_size("rows", 0, 2), c = sv_size("columns", 0, 2), cut = sv_size("missing", 0, 2) * 4, tk = sv_size("tokens", 0, 3); bool hdr = sv_bool("header exists"), dat = sv_bool("data exists");
    Grid<double> g = rawGrid<double>("e", r, c); data(g, "data", cut); auto& h = file("m.dat"); svf::Tok all[3] = {{true, r, ""}, {true, c, ""}, {false, 0, "data"}}; for (size_t i = 0; i < tk; ++i) h.tok.push_back(all[i]);
    svf::find("m.dat")->exists = hdr; svf::find("data")->exists = dat;
    outcome<double>([](DD& m) { MatrixFileImporter f(filesystem::path("m.dat")); DD x = f(); sv_assert(f.getNbRows() == x.getNbRows() && f.getNbColumns() == x.getNbColumns(), "dimensions of the factory"); m = x; }, hdr && dat && tk == 3 && (cut == 0 || r * c == 0), g, r, c, 0, 0);
}
/// one character per element: the first palette entry whose threshold is reached, the background otherwise
template <class T, class M> void pattern(size_t r, size_t c, size_t n)
{
    Grid<T> g = symGrid<T>("e", r, c, 50); M m(r, c); put(m, g); PatternGenerator::Settings s; const char* idx[3] = {"A", "B", "C"}; int th[3];
    for (size_t k = 0; k < n; ++k) { PatternGenerator::Color col; col.index = idx[k]; col.color = k ? "0000FF" : "FF0000"; th[k] = int(sv_concretize(sv_int("threshold", 1, 3))) * 10; col.threshold = th[k]; s.palette.push_back(col); }
    s.background_index = "."; s.background_color = "FFFFFF"; PatternGenerator{s}(m, filesystem::path("p.xpm"));
    std::string t = svf::find("p.xpm")->str(); std::string e = "/* XPM */\nstatic char * matrix_xpm[] = {\n\""; e += char('0' + c); e += ' '; e += char('0' + r); e += ' '; e += char('1' + n); e += " 1\",\n";
    for (size_t k = 0; k < n; ++k) { e += '"'; e += idx[k]; e += k ? "\tc #0000FF\",\n" : "\tc #FF0000\",\n"; } e += "\".\tc #FFFFFF\",\n/* Data section */\n";
    for (size_t i = 0; i < r; ++i) { e += '"'; for (size_t j = 0; j < c; ++j) { T a = g.v[i][j] < 0 ? -g.v[i][j] : g.v[i][j]; char p = '.'; for (size_t k = n; k-- > 0;) if (a >= T(th[k])) p = idx[k][0]; e += p; } e += i + 1 == r ? "\"" : "\",\n"; } e += "};\n";
    sv_assert(t == e, "image of the pattern"); sv_reach("end");
}
HARNESS(pattern_23) { pattern<double, DD>(2, 3, 0 + sv_size("colours", 0, 1)); } HARNESS(pattern_21) { pattern<double, DD>(2, 1, 2); } HARNESS(pattern_row) { pattern<float, DFR>(2, 1, 2); } HARNESS(pattern_12) { pattern<float, DFR>(1, 2, 2); }
HARNESS(pattern_view)
{
    Grid<double> g = symGrid<double>("e", 2, 2, 9); DD p(2, 2); put(p, g); size_t j = sv_size("column", 0, 1); Matrix<Dense, double, PCS> v(p, 1, 1, 1, j); PatternGenerator::Settings s; PatternGenerator::Color col; col.index = "X"; col.threshold = 5; s.palette.push_back(col); s.background_index = ".";
    PatternGenerator{s}(v, filesystem::path("p.xpm")); std::string t = svf::find("p.xpm")->str(); double a = g.v[1][j]; bool on = a >= 5 || a <= -5; sv_assert(t.size() > 7 && t.substr(t.size() - 7) == (on ? std::string("\n\"X\"};\n") : std::string("\n\".\"};\n")), "image of a view"); sv_reach("end");
}
// ---- settings files
static int calls; static bool wasLoad; static std::string kind, where, tag; static void* what;
void svf_archive(bool load, const char* k, std::string const& f, const char* n, void* o) { ++calls; wasLoad = load; kind = k; where = f; tag = n; what = o; if (load) *(int*)o = 42; else if (svf::find(f)) svf::find(f)->set("saved"); }
namespace boost { namespace filesystem { namespace detail {
file_status status(path const& p, system::error_code*) { svf::File* f = svf::find(p.string()); return file_status(f && f->exists ? regular_file : file_not_found); }
} } }
template <class F> void save(F f, const char* k)
{
    bool ex = sv_bool("exists"), ow = sv_bool("overwrite"); auto& x = file("s"); x.exists = ex; x.set("old"); int v = 5, thrown = 0; try { f(v, "name", filesystem::path("s"), ow); } catch (BlasBoosterException const&) { thrown = 1; }
    sv_assert(thrown == (ex && !ow), "an existing file is refused unless it may be overwritten"); if (thrown) sv_assert(svf::find("s")->written == 0 && svf::find("s")->str() == "old" && calls == 0, "a file that may not be overwritten is left alone");
    else sv_assert(calls == 1 && !wasLoad && kind == k && where == "s" && tag == "name" && what == &v && svf::find("s")->str() == "saved", "settings are written to the named file"); sv_reach("end");
}
template <class F> void load(F f, const char* k)
{
    bool ex = sv_bool("exists"); auto& x = file("s"); x.exists = ex; int v = 5, thrown = 0; try { f(v, "name", filesystem::path("s")); } catch (BlasBoosterException const&) { thrown = 1; }
    sv_assert(thrown == !ex, "a missing file is reported"); if (!ex) sv_assert(calls == 0 && v == 5, "settings are unchanged if there is no file"); else sv_assert(calls == 1 && wasLoad && kind == k && where == "s" && tag == "name" && v == 42, "settings are read from the named file"); sv_assert(svf::find("s")->written == 0, "reading does not write"); sv_reach("end");
}
HARNESS(write_xml) { save([](int& v, const char* n, filesystem::path const& p, bool o) { writeXML(v, n, p, o); }, "xml"); } HARNESS(write_binary) { save([](int& v, const char* n, filesystem::path const& p, bool o) { writeBinary(v, n, p, o); }, "binary"); }
HARNESS(read_xml) { load([](int& v, const char* n, filesystem::path const& p) { readXML(v, n, p); }, "xml"); } HARNESS(read_binary) { load([](int& v, const char* n, filesystem::path const& p) { readBinary(v, n, p); }, "binary"); }
