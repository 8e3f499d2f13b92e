// Stand-in for the header cmake generates from Version.h.in.
#pragma once
#include <string>
namespace BlasBooster { const std::string version = "0.3"; const std::string revision = "0"; }
