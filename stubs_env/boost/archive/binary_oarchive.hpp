// Stand-in for the boost binary archive: hands every named value to the harness.
#pragma once
#include "sv_archive.h"
namespace boost { namespace archive {
struct binary_oarchive : sv_archive { template <class S> explicit binary_oarchive(S& s) : sv_archive(s.sv_name()) {} template <class T> binary_oarchive& operator<<(T const& t) { oo("binary", t); return *this; } };
} }
