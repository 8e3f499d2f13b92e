// Matrices and actions of the benchmark: what the settings name is what is provided, anything else is an error.
#include "env.h"
#include <unordered_map>
#include "sym.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "../src/Benchmark/MatrixProvider.cpp"
typedef boost::property_tree::ptree PT;
void svf_archive(bool, const char*, std::string const&, const char*, void*) {}
static PT list(size_t n, const size_t* v) { PT t; for (size_t i = 0; i < n; ++i) t.add("", PT(v[i])); return t; }
static PT band(size_t nd, const size_t* d, size_t nb, const size_t* b, double v) { PT t; t.add("dimension", list(nd, d)); t.add("band_width", list(nb, b)); t.add("value", PT(v)); return t; }
static void isBand(DD const& m, size_t d, size_t b, double v)
{
    Grid<double> e(d, d); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) e.v[i][j] = (i > j ? i - j : j - i) < b ? v : 0.0; same(gridOf(m), e, "element of a band matrix");
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }
HARNESS(bands)
{
    size_t d[2], b[2], nd = sv_size("dimensions", 0, 2), nb = sv_size("widths", 0, 2); for (size_t i = 0; i < nd; ++i) d[i] = sv_size("dimension", 0, 3); for (size_t i = 0; i < nb; ++i) b[i] = sv_size("width", 0, 4);
    double v = sv_fd("value", -1000, 1000); PT root, set; set.add("DiagonalBand", band(nd, d, nb, b, v)); root.add("A", set); MatrixProvider p(root);
    if (nd * nb) { auto l = p.get("A"); sv_assert(l.size() == nd * nb, "one matrix per dimension and band width"); for (size_t i = 0; i < nd; ++i) for (size_t j = 0; j < nb; ++j) isBand(l[i * nb + j], d[i], b[j], v); } sv_reach("end");
}
HARNESS(sets)
{
    size_t d[2] = {1, 2}, b[1] = {1}; PT root, sa, sb, sc, sd; sa.add("DiagonalBand", band(2, d, 1, b, 3)); size_t d2[1] = {sv_size("dimension", 1, 2)}; sa.add("DiagonalBand", band(1, d2, 1, b, 5)); root.add("A", sa); if (sv_bool("replaced")) sb.add("DiagonalBand", band(1, d2, 1, b, 7)); sb.add("EqualTo", PT("A")); root.add("B", sb);
    Grid<double> g = symGrid<double>("f", 1, 2, 1000); auto& f = svf::file("data"); svf::bytes(f, &g.v[0][0], 2); bool whole = sv_bool("file is complete"); if (!whole) svf::find("data")->size = 8;
    PT t; t.add("nbRows", PT(size_t(1))); t.add("nbColumns", PT(size_t(2))); t.add("rowLeadingDimension", PT(size_t(1))); t.add("columnLeadingDimension", PT(size_t(2))); t.add("filename", PT("data")); svf::file("m.xml").tree = t; sc.add("File", PT("m.xml")); root.add("C", sc);
    MatrixProvider* p = nullptr; bool bad = throws([&] { p = new MatrixProvider(root); }); sv_assert(bad == !whole, "an incomplete matrix file is refused"); if (bad) { sv_reach("end"); return; }
    auto a = p->get("A"), e = p->get("B"), c = p->get("C"); sv_assert(a.size() == 3 && e.size() == 3 && c.size() == 1, "all matrices of a set are kept"); isBand(a[0], 1, 1, 3); isBand(a[1], 2, 1, 3); isBand(a[2], d2[0], 1, 5); for (size_t i = 0; i < 3; ++i) same(gridOf(e[i]), gridOf(a[i]), "an equal set has the same matrices"); same(gridOf(c[0]), g, "matrix of a file");
    sv_assert(throws([&] { p->get("D"); }), "an unknown set is reported"); delete p; sv_reach("end");
}
HARNESS(unknown)
{
    PT root, s; bool type = sv_bool("unknown type"); if (type) s.add("Diagonalband", PT("x")); else s.add("EqualTo", PT("Z")); root.add("A", s); sv_assert(throws([&] { MatrixProvider p(root); }), "an unknown kind of matrix set is reported"); sv_reach("end");
}
