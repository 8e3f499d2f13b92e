// Stand-in for the boost xml archive: hands every named value to the harness.
#pragma once
#include "sv_archive.h"
namespace boost { namespace archive {
struct xml_iarchive : sv_archive { template <class S> explicit xml_iarchive(S& s) : sv_archive(s.sv_name()) {} template <class T> xml_iarchive& operator>>(T const& t) { io("xml", t); return *this; } };
} }
