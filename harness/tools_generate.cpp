// generate_matrix: the file holds the matrix the options ask for, or the tool reports a failure.
#include "tools.h"
#include "../src/Benchmark/generate_matrix.cpp"
HARNESS(generate_band)
{
    size_t r = sv_size("rows", 0, 3), c = sv_size("columns", 0, 3), b = sv_size("width", 0, 4); double v = sv_fd("value", -1000, 1000); bool open = sv_bool("file can be written"); auto& f = svf::file("out"); f.exists = false; f.openable = open;
    optn("--rows", r); optn("--cols", c); optn("--band-width", b); optd("--value", v); opt("--matrix-file", "out"); int rc = tool_main(0, noargs); svf::File& o = *svf::find("out");
    sv_assert((rc == 0) == open, "the exit status tells whether the matrix was written"); if (rc) { sv_reach("end"); return; }
    sv_assert(o.size == r * c * sizeof(double), "size of the generated file"); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { double x; memcpy(&x, o.data + (i + j * r) * 8, 8); sv_assert(x == ((i > j ? i - j : j - i) < b ? v : 0.0), "element of the generated matrix"); } sv_reach("end");
}
HARNESS(generate_command_line)
{
    svf_cli_wrong() = sv_bool("command line not understood"); if (sv_bool("help")) optn("--help", 1); else sv_assume(svf_cli_wrong()); opt("--matrix-file", "out"); std::ostringstream o; std::cout.kept = &o; int rc = tool_main(0, noargs); std::cout.kept = nullptr;
    sv_assert((rc != 0) == svf_cli_wrong(), "a command line that is not understood ends with an error status, a request for help does not"); sv_assert(svf_cli_shown() == 1, "the usage is shown"); sv_assert(!svf::find("out") && o.str().find("successfully finished") == std::string::npos, "nothing is written"); sv_reach("end");
}
/// what is not asked for is what the help text says
HARNESS(generate_defaults)
{
    size_t r = sv_size("rows", 0, 3), c = sv_size("columns", 0, 3), b = 1; double v = 1; optn("--rows", r); optn("--cols", c); const char* name = "matrix.dat"; size_t given = sv_size("option given", 0, 4);
    if (given == 1) optn("--band-width", b = sv_size("width", 0, 2)); else if (given == 2) optd("--value", v = sv_fd("value", -1000, 1000)); else if (given == 3) opt("--matrix-file", name = "out"); else if (given == 4) opt("--type", "band");
    sv_assert(tool_main(0, noargs) == 0, "the matrix was written"); auto* o = svf::find(name); sv_assert(o != nullptr, "name of the generated file"); if (!o) return; sv_assert(o->size == r * c * sizeof(double), "size of the generated file"); if (o->size != r * c * sizeof(double)) return;
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { double x; memcpy(&x, o->data + (i + j * r) * 8, 8); sv_assert(x == ((i > j ? i - j : j - i) < b ? v : 0.0), "element of the generated matrix"); } sv_reach("end");
}
