// tools.h - runs a command line tool: its main function under another name, options and files from the harness.
#pragma once
#define EIGEN_DONT_VECTORIZE
#include <range/v3/view/indices.hpp>
#include <range/v3/view/zip.hpp>
#include "env.h"
#include <chrono>
#include <functional>
#include <iterator>
#include <unordered_map>
#include "clara.hpp"
#include "BrainTwister/JSON.h"
#include "sym.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/MatrixFileIO.h"
typedef boost::property_tree::ptree PT;
void svf_archive(bool, const char*, std::string const&, const char*, void*) {}
static PT theSettings; PT const& svf_settings(std::string const&) { return theSettings; }
static void opt(const char* n, const char* s) { svf_options().push_back({n, 0, 0, s}); } static void optn(const char* n, size_t v) { svf_options().push_back({n, v, 0, ""}); } static void optd(const char* n, double v) { svf_options().push_back({n, 0, v, ""}); }
static char* noargs[1] = {nullptr};
int main(int, char**) __asm__("tool_main");
extern "C" int tool_main(int, char**);
static void matrixFile(Grid<double> const& g, const char* data = "data", const char* xml = "m.xml") { auto& f = svf::file(data); for (size_t j = 0; j < g.c; ++j) for (size_t i = 0; i < g.r; ++i) svf::bytes(f, &g.v[i][j], 1); PT t; t.add("nbRows", PT(g.r)); t.add("nbColumns", PT(g.c)); t.add("rowLeadingDimension", PT(g.r)); t.add("columnLeadingDimension", PT(g.c)); t.add("filename", PT(data)); svf::file(xml).tree = t; }
