// Stand-in for boost::property_tree (parsing is not the subject here): an ordered tree of named values.
#pragma once
#define SV_STUB_PTREE
#include <cstddef>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace boost { namespace property_tree {
struct ptree_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct ptree_bad_path : ptree_error { using ptree_error::ptree_error; };
class ptree {
public:
    typedef std::string key_type; typedef std::string data_type; typedef std::pair<std::string, ptree> value_type; typedef std::vector<value_type> list;
    typedef list::iterator iterator; typedef list::const_iterator const_iterator;
    ptree() {} explicit ptree(std::string const& s) : str(s) {} explicit ptree(const char* s) : str(s) {} explicit ptree(size_t n) : num(n), dbl(0) {} explicit ptree(double d) : dbl(d) {}
    iterator begin() { return l.begin(); } iterator end() { return l.end(); } const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); }
    const_iterator cbegin() const { return l.begin(); } const_iterator cend() const { return l.end(); } bool empty() const { return l.empty(); } size_t size() const { return l.size(); }
    ptree& add(std::string const& k, ptree const& t) { l.push_back(value_type(k, t)); return l.back().second; }
    ptree& add_child(std::string const& k, ptree const& t) { return add(k, t); }
    iterator push_back(value_type const& v) { l.push_back(v); return l.end() - 1; }
    const_iterator find(std::string const& k) const { const_iterator i = l.begin(); while (i != l.end() && i->first != k) ++i; return i; }
    const_iterator not_found() const { return l.end(); }
    size_t count(std::string const& k) const { size_t n = 0; for (auto const& x : l) if (x.first == k) ++n; return n; }
    ptree const& get_child(std::string const& k) const { auto i = find(k); if (i == l.end()) throw ptree_bad_path("No such node"); return i->second; }
    ptree const& get_child(std::string const& k, ptree const& d) const { auto i = find(k); return i == l.end() ? d : i->second; }
    template <class T> T get_value() const { return val((T*)0); }
    template <class T> T get(std::string const& k) const { return get_child(k).template get_value<T>(); }
    template <class T> T get(std::string const& k, T const& d) const { auto i = find(k); return i == l.end() ? d : i->second.template get_value<T>(); }
    std::string const& data() const { return str; }
    size_t num = 0; double dbl = 0; std::string str;
private:
    list l;
    std::string val(std::string*) const { return str; } double val(double*) const { return dbl; } float val(float*) const { return float(dbl); }
    template <class T> typename std::enable_if<std::is_integral<T>::value, T>::type val(T*) const { return T(num); }
};
} }
