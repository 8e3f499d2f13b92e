// Stand-in for BrainTwister/JSON.h: the settings text stands for the tree the harness prepared.
#pragma once
#include <boost/property_tree/ptree.hpp>
#include <string>
boost::property_tree::ptree const& svf_settings(std::string const&);
struct JSON : boost::property_tree::ptree { JSON(std::string const& s) : boost::property_tree::ptree(svf_settings(s)) {} };
