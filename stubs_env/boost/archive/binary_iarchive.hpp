// Stand-in for the boost binary archive: hands every named value to the harness.
#pragma once
#include "sv_archive.h"
namespace boost { namespace archive {
struct binary_iarchive : sv_archive { template <class S> explicit binary_iarchive(S& s) : sv_archive(s.sv_name()) {} template <class T> binary_iarchive& operator>>(T const& t) { io("binary", t); return *this; } };
} }
