// Stand-in for the XML parser: hands over the tree the harness attached to the stream.
#pragma once
#include "ptree.hpp"
namespace std { class sv_istream; }
boost::property_tree::ptree const& svf_tree_of(std::sv_istream&);
namespace boost { namespace property_tree {
inline void read_xml(std::sv_istream& is, ptree& t, int = 0) { t = svf_tree_of(is); }
} }
