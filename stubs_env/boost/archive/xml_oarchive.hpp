// Stand-in for the boost xml archive: hands every named value to the harness.
#pragma once
#include "sv_archive.h"
namespace boost { namespace archive {
struct xml_oarchive : sv_archive { template <class S> explicit xml_oarchive(S& s) : sv_archive(s.sv_name()) {} template <class T> xml_oarchive& operator<<(T const& t) { oo("xml", t); return *this; } };
} }
