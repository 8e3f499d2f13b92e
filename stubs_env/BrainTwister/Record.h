// Stand-in for BrainTwister/Record.h (not installed here): a struct with defaults, chaining setters and construction from a tree.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <string>
#include <type_traits>
namespace sv_record {
typedef boost::property_tree::ptree T_;
template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_same<T, std::string>::value>::type read(T_ const& t, const char* n, T& v) { if (t.count(n)) v = t.get<T>(n); }
template <class T> typename std::enable_if<!(std::is_arithmetic<T>::value || std::is_same<T, std::string>::value) && std::is_constructible<T, T_ const&>::value>::type read(T_ const& t, const char* n, T& v) { if (t.count(n)) v = T(t.get_child(n)); }
template <class T> void read(T_ const& t, const char* n, std::vector<T>& v) { if (t.count(n)) for (auto const& x : t.get_child(n)) v.push_back(T(x.second)); }
}
#define BT_REC_T(e) BOOST_PP_TUPLE_ELEM(0, e)
#define BT_REC_N(e) BOOST_PP_TUPLE_ELEM(1, e)
#define BT_REC_D(e) BOOST_PP_TUPLE_ELEM(2, e)
#define BT_REC_MEMBER(r, d, e) BT_REC_T(e) BT_REC_N(e) = BT_REC_D(e);
#define BT_REC_SETTER(r, R, e) R& BOOST_PP_CAT(set_, BT_REC_N(e))(BT_REC_T(e) const& v) { BT_REC_N(e) = v; return *this; }
#define BT_REC_READ(r, t, e) sv_record::read(t, BOOST_PP_STRINGIZE(BT_REC_N(e)), BT_REC_N(e));
#define BRAINTWISTER_RECORD(R, ELEMS) \
struct R { \
    R() {} \
    explicit R(boost::property_tree::ptree const& sv_tree) { BOOST_PP_SEQ_FOR_EACH(BT_REC_READ, sv_tree, ELEMS) } \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_MEMBER, _, ELEMS) \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_SETTER, R, ELEMS) \
};
