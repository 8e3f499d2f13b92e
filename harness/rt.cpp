// rt.cpp - the parts of the C++ runtime that live in libstdc++.so, for the symbolic run only.
#include "sv.h"
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <list>
#include <map>
#include <memory>
extern "C" void* sv_rt_alloc(size_t);
extern "C" void sv_rt_free(void*);
extern "C" void sv_rt_throw_bad_alloc_() { throw std::bad_alloc(); }
extern "C" void sv_rt_throw_bad_cast_() { throw std::bad_cast(); }
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* dup(const char* s, size_t n) { char* p = (char*)sv_rt_alloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
// __cow_string has one pointer member; it points to a private NUL terminated copy here
static const char*& cow(__cow_string& s) { return *reinterpret_cast<const char**>(&s); }
static const char* cowc(const __cow_string& s) { return *reinterpret_cast<const char* const*>(&s); }
static size_t len(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
__cow_string::__cow_string() { cow(*this) = dup("", 0); }
__cow_string::__cow_string(const std::string& s) { cow(*this) = dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { cow(*this) = dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { cow(*this) = dup(cowc(o), len(cowc(o))); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { sv_rt_free((void*)cow(*this)); cow(*this) = dup(cowc(o), len(cowc(o))); } return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept { cow(*this) = cow(o); cow(o) = dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(cow(*this), cow(o)); return *this; }
__cow_string::~__cow_string() { sv_rt_free((void*)cow(*this)); }
#define ERR(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::C(const C& o) noexcept : B(o) {} C& C::operator=(const C& o) noexcept { B::operator=(o); return *this; } C::~C() noexcept {}
#define ERR2(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, len(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return cowc(_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, len(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return cowc(_M_msg); }
ERR2(domain_error, logic_error) ERR2(invalid_argument, logic_error) ERR2(length_error, logic_error) ERR2(out_of_range, logic_error)
ERR2(range_error, runtime_error) ERR2(overflow_error, runtime_error) ERR2(underflow_error, runtime_error)
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { sv_fail("libstdc++ precondition violated"); __builtin_unreachable(); }

// red-black tree primitives: an (unbalanced) binary search tree has the same observable behaviour
typedef _Rb_tree_node_base N;
static N* mn(N* x) { while (x->_M_left) x = x->_M_left; return x; }
static N* mx(N* x) { while (x->_M_right) x = x->_M_right; return x; }
static N* inc(N* x) {
    if (x->_M_right) return mn(x->_M_right);
    N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y; return x;
}
static N* dec(N* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return mx(x->_M_left);
    N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
N* _Rb_tree_increment(N* x) throw() { return inc(x); }
const N* _Rb_tree_increment(const N* x) throw() { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return dec(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return dec(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; // header stays red
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
    N* repl;
    auto put = [&](N* a, N* b) { // b takes a's place
        if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) { repl = z->_M_right; put(z, repl); }
    else if (!z->_M_right) { repl = z->_M_left; put(z, repl); }
    else {
        N* y = mn(z->_M_right);
        if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) { h._M_left = mn(h._M_parent); h._M_right = mx(h._M_parent); } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    bool ex = x._M_next == &x, ey = y._M_next == &y; std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
    if (!ey) x._M_next->_M_prev = x._M_prev->_M_next = &x; else x._M_next = x._M_prev = &x;
    if (!ex) y._M_next->_M_prev = y._M_prev->_M_next = &y; else y._M_next = y._M_prev = &y;
}
void _List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
} // namespace std
#include <chrono>
static long long sv_clock_ticks = 1000000, sv_clock_delta = 100;
extern "C" void sv_clock_advance(long long d) { sv_clock_ticks += d; }
extern "C" void sv_clock_step(long long d) { sv_clock_delta = d; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(sv_clock_ticks += sv_clock_delta)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(sv_clock_ticks += sv_clock_delta)); }
} } }
template class std::basic_string<char>; // out-of-line string members live in libstdc++.so
#include <ios>
int std::ios_base::xalloc() noexcept { static int next = 0; return next++; }
// unordered containers: any hash and any growing sequence of bucket counts has the same observable behaviour
#include <unordered_map>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 131 + static_cast<const unsigned char*>(p)[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 5; while (b < n) b = 2 * b + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins <= _M_next_resize && bkt > 1) return {false, 0}; size_t n = _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt); return {true, n}; }
} }
