// Stand-in for the clara command line parser: binds variables by option name, the harness supplies the values.
#pragma once
#include <string>
#include <type_traits>
#include <vector>
struct svf_option { std::string name; size_t num; double dbl; std::string str; };
inline std::vector<svf_option>& svf_options() { static std::vector<svf_option> o; return o; }
inline bool& svf_cli_wrong() { static bool w = false; return w; } // the command line is not understood
inline int& svf_cli_shown() { static int n = 0; return n; } // how often the usage was shown
namespace clara {
struct Args { Args(int, char const* const*) {} };
struct Result { bool ok = true; explicit operator bool() const { return ok; } std::string errorMessage() const { return ok ? "" : "unrecognised token"; } };
struct Bound { std::string name; char kind; void* p; };
struct Parser {
    std::vector<Bound> b;
    Result parse(Args const&) const { if (svf_cli_wrong()) { Result r; r.ok = false; return r; } for (auto const& o : svf_options()) for (auto const& x : b) if (x.name == o.name) set(x, o); return Result(); }
    static void set(Bound const& x, svf_option const& o) { switch (x.kind) { case 's': *(std::string*)x.p = o.str; break; case 'u': *(size_t*)x.p = o.num; break; case 'd': *(double*)x.p = o.dbl; break; case 'i': *(int*)x.p = int(o.num); break; case 'b': *(bool*)x.p = o.num != 0; break; } }
    template <class O> Parser operator|(O const& o) const { Parser p(*this); p.b.push_back(o.bound); return p; }
};
template <class S> auto operator<<(S& s, Parser const&) -> decltype(s.flush(), s) { ++svf_cli_shown(); return s; }
template <class Self> struct Base {
    Bound bound; Base(std::string& v) : bound{"", 's', &v} {} Base(size_t& v) : bound{"", 'u', &v} {} Base(double& v) : bound{"", 'd', &v} {} Base(int& v) : bound{"", 'i', &v} {} Base(bool& v) : bound{"", 'b', &v} {}
    Self& operator[](const char* n) { bound.name = n; return static_cast<Self&>(*this); } Self& operator()(const char*) { return static_cast<Self&>(*this); } Self& required() { return static_cast<Self&>(*this); }
    template <class O> Parser operator|(O const& o) const { Parser p; p.b.push_back(bound); p.b.push_back(o.bound); return p; }
};
struct Opt : Base<Opt> { template <class T> Opt(T& v, const char* = "") : Base(v) {} };
struct Arg : Base<Arg> { template <class T> Arg(T& v, const char* n) : Base(v) { bound.name = n; } };
struct Help : Base<Help> { Help(bool& v) : Base(v) { bound.name = "--help"; } };
}
