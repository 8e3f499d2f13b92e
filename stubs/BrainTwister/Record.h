// Stand-in for BrainTwister/Record.h (not installed here): a struct with defaults and chaining setters.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#define BT_REC_T(e) BOOST_PP_TUPLE_ELEM(0, e)
#define BT_REC_N(e) BOOST_PP_TUPLE_ELEM(1, e)
#define BT_REC_D(e) BOOST_PP_TUPLE_ELEM(2, e)
#define BT_REC_MEMBER(r, d, e) BT_REC_T(e) BT_REC_N(e) = BT_REC_D(e);
#define BT_REC_SETTER(r, R, e) R& BOOST_PP_CAT(set_, BT_REC_N(e))(BT_REC_T(e) const& v) { BT_REC_N(e) = v; return *this; }
#define BRAINTWISTER_RECORD(R, ELEMS) \
struct R { \
    R() {} \
    explicit R(boost::property_tree::ptree const&) {} \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_MEMBER, _, ELEMS) \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_SETTER, R, ELEMS) \
};
