// show_pattern: the image shows the elements or the type of every block.
#include "tools.h"
#include "../src/Benchmark/show_pattern.cpp"
/// what an image file shows: one character per element
static bool pixels(std::string const& t, size_t r, size_t c, char (&p)[8][8])
{
    size_t q = t.find("/* Data section */\n"); if (q == std::string::npos) return false; q += 19; for (size_t i = 0; i < r; ++i) { if (t[q++] != '"') return false; for (size_t j = 0; j < c; ++j) p[i][j] = t[q++]; if (t[q++] != '"') return false; if (i + 1 < r) { if (t[q++] != ',' || t[q++] != '\n') return false; } } return t.substr(q) == "};\n";
}
static void palette(size_t n) { PT pal; const char* nm[7] = {"0", "1", "2", "3", "4", "5", "6"}; double th = 1; for (size_t k = 0; k < n; ++k, th /= 10) { PT c; c.add("index", PT(nm[k])); c.add("color", PT("AABBCC")); c.add("threshold", PT(th * 0.5)); pal.add("", c); } PT pg; pg.add("palette", pal); pg.add("background_index", PT(".")); pg.add("background_color", PT("FFFFFF")); theSettings.add("pattern_generator_settings", pg); }
HARNESS(show_elements)
{
    size_t r = sv_size("rows", 1, 2), c = sv_size("columns", 1, 2); Grid<double> g = symGrid<double>("e", r, c, 3); matrixFile(g); opt("matrix", "m.xml"); palette(1); svf::file("settings").set("s"); opt("--settings", "settings"); const char* name = "pattern.xpm"; size_t given = sv_size("options given", 0, 2); if (given) opt("--pattern", name = "p"); if (given == 2) { opt("--pattern-type", "elements"); optn("--border_width", 2); } sv_assert(tool_main(0, noargs) == 0, "the tool ends successfully"); sv_assert(svf::find(name) != nullptr, "name of the image"); if (!svf::find(name)) return;
    char p[8][8]; sv_assert(pixels(svf::find(name)->str(), r, c, p), "format of the image"); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) sv_assert(p[i][j] == (g.v[i][j] == 0 ? '.' : '0'), "element in the image"); sv_reach("end");
}
/// every element is drawn in the colour of its block's type; the border lines of every block in the background colour
static void typeBlocks(Grid<double> const& g, size_t lo, size_t hi, size_t border)
{
    size_t r = g.r, c = g.c; matrixFile(g); opt("matrix", "m.xml"); palette(7); PT bs, th; bs.add("min_block_size", PT(lo)); bs.add("max_block_size", PT(hi)); th.add("significanceThresholdSinglePrecision", PT(1.0)); bs.add("threshold", th); theSettings.add("blocked_matrix_generator_settings", bs); svf::file("settings").set("s"); opt("--settings", "settings"); opt("--pattern", "p"); opt("--pattern-type", "type-blocks"); if (border || sv_bool("border given")) optn("--border_width", border);
    sv_assert(tool_main(0, noargs) == 0, "the tool ends successfully"); char p[8][8]; sv_assert(pixels(svf::find("p")->str(), r, c, p), "format of the image");
    MK_DENSE(DD, m, g); auto sizes = BlockSizeGenerator(int(lo), int(hi))(m); ThresholdSettings ts(th); auto bm = BlockedMatrixGenerator()(m, std::get<0>(sizes), std::get<1>(sizes), Threshold(ts)); auto tm = generateTypeMatrix(bm);
    size_t i0 = 0; for (size_t x = 0; x < std::get<0>(sizes).size(); ++x) { size_t j0 = 0, h = std::get<0>(sizes)[x]; for (size_t y = 0; y < std::get<1>(sizes).size(); ++y) { size_t w = std::get<1>(sizes)[y]; for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) sv_assert(p[i0 + i][j0 + j] == (i < border || j < border ? '.' : char('0' + sv_concretize(int(tm(x, y))))), "colour of a block in the image"); j0 += w; } i0 += h; } sv_reach("end");
}
static void typeBlocks(size_t r, size_t c, int b, size_t lo, size_t hi, size_t border) { typeBlocks(symGrid<double>("e", r, c, b), lo, hi, border); }
/// elements of three magnitudes, so that blocks of different sizes follow each other
static Grid<double> steps(size_t r, size_t c) { Grid<double> g(r, c); static const double m[3] = {1, 1048576, 1099511627776.0}; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) g.v[i][j] = m[sv_concretize(sv_int("magnitude", 0, 2))]; return g; }
HARNESS(blocks_31) { typeBlocks(3, 1, 1, 1, 2, sv_size("border", 0, 2)); } HARNESS(blocks_13) { typeBlocks(1, 3, 1, 1, 2, sv_size("border", 0, 2)); } HARNESS(blocks_22) { typeBlocks(2, 2, 1, 1, 2, sv_size("border", 0, 1)); } HARNESS(blocks_one) { typeBlocks(2, 1, 3, 1, 4, sv_size("border", 0, 3)); }
HARNESS(blocks_41) { typeBlocks(4, 1, 1, 1, 2, sv_size("border", 0, 1)); } HARNESS(blocks_14) { typeBlocks(1, 4, 1, 1, 2, sv_size("border", 0, 1)); }
HARNESS(show_locked) { Grid<double> g = symGrid<double>("e", 1, 1, 3); matrixFile(g); opt("matrix", "m.xml"); auto& f = svf::file("p"); f.exists = false; f.openable = false; opt("--pattern", "p"); if (sv_bool("blocks")) opt("--pattern-type", "type-blocks"); sv_assert(tool_main(0, noargs) != 0, "an image that cannot be written is reported"); sv_reach("end"); }
HARNESS(show_unknown) { Grid<double> g = symGrid<double>("e", 1, 1, 3); matrixFile(g); opt("matrix", "m.xml"); bool missing = sv_bool("matrix file missing"); if (missing) svf::find("data")->exists = false; else opt("--pattern-type", "blocks"); opt("--pattern", "p"); sv_assert(tool_main(0, noargs) != 0, "a failure ends with an error status"); sv_assert(!svf::find("p"), "no image is written on failure"); sv_reach("end"); }
HARNESS(steps_41) { typeBlocks(steps(4, 1), 1, 2, 0); } HARNESS(steps_14) { typeBlocks(steps(1, 4), 1, 2, 0); } extern "C" void hvt_steps_51() { typeBlocks(steps(5, 1), 1, 3, 1); } extern "C" void hvt_steps_15() { typeBlocks(steps(1, 5), 1, 3, 1); }
HARNESS(show_command_line)
{
    svf_cli_wrong() = sv_bool("command line not understood"); if (sv_bool("help")) optn("--help", 1); else sv_assume(svf_cli_wrong()); Grid<double> g = symGrid<double>("e", 1, 1, 3); matrixFile(g); opt("matrix", "m.xml"); opt("--pattern", "p"); std::ostringstream o; std::cout.kept = &o; int rc = tool_main(0, noargs); std::cout.kept = nullptr;
    sv_assert((rc != 0) == svf_cli_wrong(), "a command line that is not understood ends with an error status, a request for help does not"); sv_assert(svf_cli_shown() == 1, "the usage is shown"); sv_assert(!svf::find("p") && o.str().find("successfully finished") == std::string::npos, "no image is written"); sv_reach("end");
}
