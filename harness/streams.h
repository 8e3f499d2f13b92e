// streams.h - the standard streams as a model: text goes to strings and to files the harness prepared; numbers that
// are not integers appear in the text as the byte 1 and in order in `nums`. Included before the code under test.
#pragma once
#include "sv.h"
#include <bits/stdc++.h>
#include <boost/filesystem.hpp>
#include <boost/property_tree/ptree.hpp>
#if __has_include(<gtest/gtest.h>)
#include <gtest/gtest.h>
#endif
namespace svf {
struct Tok { bool num; size_t n; std::string s; };
struct File { std::string name; bool exists = true; bool openable = true; size_t size = 0; unsigned char data[1536]; std::vector<Tok> tok; boost::property_tree::ptree tree; std::vector<double> nums; int opened = 0, written = 0;
    std::string str() const { return std::string((const char*)data, size); } void append(const char* p, size_t n) { if (size + n > sizeof data) sv_unmodelled("file longer than the model"); memcpy(data + size, p, n); size += n; } File& set(const char* t) { size = 0; append(t, strlen(t)); return *this; } };
inline std::vector<File>& files() { static std::vector<File> f; return f; }
inline File* find(std::string const& n) { for (auto& f : files()) if (f.name == n) return &f; return nullptr; }
inline File& file(std::string const& n) { files().reserve(24); files().emplace_back(); files().back().name = n; return files().back(); }
template <class T> void bytes(File& f, T const* p, size_t n) { f.append((const char*)p, n * sizeof(T)); }
}
namespace std {
class sv_ostream;
/// state and formatting shared by all streams
class sv_ios {
public:
    typedef ios_base::openmode openmode; typedef ios_base::seekdir seekdir; typedef ios_base::fmtflags fmtflags; typedef ios_base::iostate iostate; typedef char char_type; typedef char_traits<char> traits_type; typedef ios_base::failure failure; typedef streampos pos_type; typedef streamoff off_type;
    static constexpr openmode in = ios_base::in, binary = ios_base::binary, out = ios_base::out, ate = ios_base::ate, app = ios_base::app, trunc = ios_base::trunc; static constexpr seekdir beg = ios_base::beg, cur = ios_base::cur, end = ios_base::end;
    static constexpr iostate goodbit = ios_base::goodbit, badbit = ios_base::badbit, failbit = ios_base::failbit, eofbit = ios_base::eofbit;
    static constexpr fmtflags left = ios_base::left, right = ios_base::right, fixed = ios_base::fixed, scientific = ios_base::scientific, hex = ios_base::hex, dec = ios_base::dec, boolalpha = ios_base::boolalpha, adjustfield = ios_base::adjustfield, floatfield = ios_base::floatfield, basefield = ios_base::basefield, showpos = ios_base::showpos, showpoint = ios_base::showpoint;
    virtual ~sv_ios() {}
    bool operator!() const { return fail_; } explicit operator bool() const { return !fail_; } bool fail() const { return fail_; } bool bad() const { return false; } bool eof() const { return eof_; } bool good() const { return !fail_ && !eof_; }
    iostate rdstate() const { return (fail_ ? failbit : goodbit) | (eof_ ? eofbit : goodbit); } void clear(iostate s = goodbit) { fail_ = (s & (failbit | badbit)) != 0; eof_ = (s & eofbit) != 0; raise(); } void setstate(iostate s) { if (s & (failbit | badbit)) fail_ = true; if (s & eofbit) eof_ = true; raise(); }
    iostate exceptions() const { return exc_; } void exceptions(iostate e) { exc_ = e; raise(); }
    fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
    streamsize precision() const { return pr_; } streamsize precision(streamsize p) { streamsize o = pr_; pr_ = p; return o; } streamsize width() const { return w_; } streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; } char fill() const { return fc_; } char fill(char c) { char o = fc_; fc_ = c; return o; }
    long& iword(int i) { if (size_t(i) >= iw_.size()) iw_.resize(i + 1, 0); return iw_[i]; } static int xalloc() { return ios_base::xalloc(); } static bool sync_with_stdio(bool = true) { return true; } sv_ostream* tie() const { return nullptr; } sv_ostream* tie(sv_ostream*) { return nullptr; } locale imbue(locale const& l) { return l; }
    sv_ios& copyfmt(sv_ios const& o) { fl_ = o.fl_; pr_ = o.pr_; w_ = o.w_; fc_ = o.fc_; iw_ = o.iw_; return *this; }
    virtual string const& sv_name() const { return name_; }
protected:
    void raise() { if ((fail_ && (exc_ & (failbit | badbit))) || (eof_ && (exc_ & eofbit))) throw runtime_error("basic_ios::clear"); }
    bool fail_ = false, eof_ = false; iostate exc_ = goodbit; fmtflags fl_ = ios_base::dec | ios_base::skipws; streamsize pr_ = 6, w_ = 0; char fc_ = ' '; vector<long> iw_; string name_;
};
class sv_ostream : public virtual sv_ios {
public:
    typedef sv_ostream sentry_owner; struct sentry { bool ok; explicit sentry(sv_ostream& o) : ok(o.good()) {} explicit operator bool() const { return ok; } };
    sv_ostream& write(const char* p, streamsize n) { text(p, size_t(n)); raise(); return *this; } sv_ostream& put(char c) { text(&c, 1); raise(); return *this; } sv_ostream& flush() { return *this; }
    virtual streampos tellp() { return fail_ ? streampos(-1) : streampos(streamoff(where())); } sv_ostream& seekp(streamoff) { sv_unmodelled("seekp"); return *this; } sv_ostream& seekp(streamoff, seekdir) { return seekp(0); }
    sv_ostream& operator<<(string const& s) { return show(s.data(), s.size()); } sv_ostream& operator<<(string_view s) { return show(s.data(), s.size()); } sv_ostream& operator<<(const char* s) { if (!s) { setstate(badbit); return *this; } return show(s, strlen(s)); } sv_ostream& operator<<(char c) { return show(&c, 1); } sv_ostream& operator<<(unsigned char c) { return *this << char(c); } sv_ostream& operator<<(signed char c) { return *this << char(c); }
    sv_ostream& operator<<(bool b) { if (fl_ & ios_base::boolalpha) return *this << (b ? "true" : "false"); return *this << int(b); }
    sv_ostream& operator<<(int v) { if (keeps()) v = int(sv_concretize(v)); return *this << (long long)v; } sv_ostream& operator<<(long v) { return *this << (long long)v; } sv_ostream& operator<<(long long v) { if (keeps()) v = sv_concretize(v); return v < 0 ? digits(0ull - (unsigned long long)v, true) : digits((unsigned long long)v, false); } sv_ostream& operator<<(short v) { return *this << int(v); }
    sv_ostream& operator<<(unsigned v) { return digits(v, false); } sv_ostream& operator<<(unsigned long v) { return digits(v, false); } sv_ostream& operator<<(unsigned long long v) { return digits(v, false); } sv_ostream& operator<<(unsigned short v) { return digits(v, false); }
    sv_ostream& operator<<(double v) { number(v); return show("\1", 1); } sv_ostream& operator<<(float v) { return *this << double(v); } sv_ostream& operator<<(long double v) { return *this << double(v); }
    sv_ostream& operator<<(const void*) { return show("pointer", 7); } sv_ostream& operator<<(nullptr_t) { return show("nullptr", 7); }
    sv_ostream& operator<<(sv_ostream& (*f)(sv_ostream&)) { return f(*this); } sv_ostream& operator<<(ios_base& (*f)(ios_base&)) { manip(f); return *this; } sv_ostream& operator<<(ios& (*)(ios&)) { return *this; }
    sv_ostream& operator<<(ostream& (*f)(ostream&)) { typedef ostream& (*F)(ostream&); if (f == F(endl<char, char_traits<char>>)) return *this << '\n'; if (f == F(ends<char, char_traits<char>>)) { char z = 0; return put(z); } return *this; }
    sv_ostream& operator<<(_Setw s) { w_ = s._M_n; return *this; } sv_ostream& operator<<(_Setprecision s) { pr_ = s._M_n; return *this; } sv_ostream& operator<<(_Setfill<char> s) { fc_ = s._M_c; return *this; } sv_ostream& operator<<(_Setiosflags s) { fl_ |= s._M_mask; return *this; } sv_ostream& operator<<(_Resetiosflags s) { fl_ &= ~s._M_mask; return *this; } sv_ostream& operator<<(_Setbase) { return *this; }
    template <class C, class = typename C::string_type, class = decltype(declval<C const&>().native())> sv_ostream& operator<<(C const& path) { return *this << '"' << path.native() << '"'; }
protected:
    virtual void text(const char* p, size_t n) = 0; virtual void number(double) {} virtual bool keeps() const { return true; } virtual size_t where() { return 0; }
private:
    void manip(ios_base& (*f)(ios_base&)) { typedef ios_base& (*F)(ios_base&); if (f == F(std::left)) fl_ = (fl_ & ~ios_base::adjustfield) | ios_base::left; else if (f == F(std::right)) fl_ = (fl_ & ~ios_base::adjustfield) | ios_base::right; else if (f == F(std::boolalpha)) fl_ |= ios_base::boolalpha; else if (f == F(std::noboolalpha)) fl_ &= ~ios_base::boolalpha; else if (f == F(std::hex)) sv_unmodelled("hexadecimal output"); else if (f == F(std::scientific)) fl_ = (fl_ & ~ios_base::floatfield) | ios_base::scientific; else if (f == F(std::fixed)) fl_ = (fl_ & ~ios_base::floatfield) | ios_base::fixed; }
    sv_ostream& show(const char* p, size_t n) { bool left = (fl_ & ios_base::adjustfield) == ios_base::left; size_t pad = size_t(w_) > n ? size_t(w_) - n : 0; w_ = 0; if (!left) for (size_t i = 0; i < pad; ++i) text(&fc_, 1); text(p, n); if (left) for (size_t i = 0; i < pad; ++i) text(&fc_, 1); raise(); return *this; }
    sv_ostream& digits(unsigned long long v, bool neg) { if (!keeps()) { w_ = 0; return *this; } v = (unsigned long long)sv_concretize((int64_t)v); char b[24]; int k = 24; do { b[--k] = char('0' + v % 10); v /= 10; } while (v); if (neg) b[--k] = '-'; return show(b + k, 24 - k); }
};
class sv_istream : public virtual sv_ios {
public:
    typedef int int_type; struct sentry { bool ok; explicit sentry(sv_istream& o, bool = false) : ok(o.good()) {} explicit operator bool() const { return ok; } };
    sv_istream& read(char* p, streamsize n)
    {
        cnt = 0; if (fail_ || eof_) { fail_ = true; raise(); return *this; }
        size_t left = pos < size() ? size() - pos : 0, m = size_t(n); if (n < 0) m = 0;
        if (m > left) { m = left; eof_ = fail_ = true; }
        if (m) memcpy(p, data() + pos, m); pos += m; cnt = m; raise(); return *this;
    }
    streamsize readsome(char* p, streamsize n) { size_t left = pos < size() ? size() - pos : 0; if (size_t(n) > left) n = left; read(p, n); return n; }
    int get() { char c; cnt = 0; if (fail_ || eof_ || pos >= size()) { eof_ = fail_ = true; raise(); return -1; } c = data()[pos++]; cnt = 1; return (unsigned char)c; } sv_istream& get(char& c) { int x = get(); if (x >= 0) c = char(x); return *this; } int peek() { if (fail_ || eof_) return -1; if (pos >= size()) { eof_ = true; raise(); return -1; } return (unsigned char)data()[pos]; } sv_istream& unget() { if (pos) --pos; return *this; }
    sv_istream& seekg(streamoff o, seekdir d) { eof_ = false; if (fail_) return *this; int64_t b = d == ios_base::beg ? 0 : d == ios_base::cur ? int64_t(pos) : int64_t(size()); if (b + o < 0) { fail_ = true; raise(); } else pos = size_t(b + o); return *this; }
    sv_istream& seekg(streamoff o) { return seekg(o, ios_base::beg); } sv_istream& seekg(streampos o) { return seekg(streamoff(o), ios_base::beg); } sv_istream& seekg(int o) { return seekg(streamoff(o), ios_base::beg); } sv_istream& seekg(size_t o) { return seekg(streamoff(o), ios_base::beg); }
    sv_istream& ignore(streamsize n = 1) { if (fail_) return *this; size_t left = pos < size() ? size() - pos : 0; if (size_t(n) > left) { n = left; eof_ = true; } pos += n; raise(); return *this; }
    streampos tellg() { return fail_ ? streampos(-1) : streampos(streamoff(pos)); } streamsize gcount() const { return cnt; }
    template <class T, class = typename enable_if<is_integral<T>::value>::type> sv_istream& operator>>(T& v) { if (svf::Tok* t = next()) { if (t->num) v = T(t->n); else { v = 0; fail_ = true; raise(); } } return *this; }
    sv_istream& operator>>(string& s) { if (svf::Tok* t = next()) s = t->s; return *this; } sv_istream& operator>>(double& v) { if (svf::Tok* t = next()) { if (t->num) v = double(t->n); else { v = 0; fail_ = true; raise(); } } return *this; }
    sv_istream& operator>>(boost::filesystem::path& s) { if (svf::Tok* t = next()) s = t->s; return *this; }
    sv_istream& operator>>(ios_base& (*)(ios_base&)) { return *this; } sv_istream& operator>>(istream& (*)(istream&)) { return *this; } sv_istream& operator>>(sv_istream& (*f)(sv_istream&)) { return f(*this); }
    virtual svf::File* sv_file() const { return nullptr; } virtual svf::Tok* sv_tok(size_t) { return nullptr; } const char* sv_here() const { return data() + pos; } const char* sv_end() const { return data() + size(); }
    sv_istream* rdbuf() { return this; }
protected:
    virtual const char* data() const = 0; virtual size_t size() const = 0; size_t pos = 0, tk = 0; streamsize cnt = 0;
private:
    svf::Tok* next() { svf::Tok* t = fail_ || eof_ ? nullptr : sv_tok(tk); if (!t) { fail_ = true; raise(); } else ++tk; return t; }
};
inline sv_istream& getline(sv_istream& s, string& l, char d = '\n') { l.clear(); for (;;) { int c = s.get(); if (c < 0) { if (!l.empty()) s.clear(sv_ios::eofbit); return s; } if (c == d) return s; l += char(c); } }
class sv_iostream : public sv_istream, public sv_ostream {};
class sv_ifstream : public sv_istream {
public:
    sv_ifstream() {} sv_ifstream(const char* n, openmode m = in) { open(n, m); } sv_ifstream(string const& n, openmode m = in) { open(n, m); } sv_ifstream(boost::filesystem::path const& n, openmode m = in) { open(n.string(), m); }
    void open(boost::filesystem::path const& n, openmode m = in) { open(n.string(), m); } void open(const char* n, openmode m = in) { open(string(n), m); }
    void open(string const& n, openmode m = in) { f = svf::find(n); name_ = n; pos = tk = 0; if (!f || !f->exists || !f->openable) { f = nullptr; fail_ = true; raise(); } else { ++f->opened; if (m & ios_base::ate) pos = f->size; } }
    bool is_open() const { return f != nullptr; } void close() { if (!f) fail_ = true; f = nullptr; raise(); }
    svf::File* sv_file() const override { return f; } svf::Tok* sv_tok(size_t k) override { return f && k < f->tok.size() ? &f->tok[k] : nullptr; }
protected:
    const char* data() const override { return f ? (const char*)f->data : nullptr; } size_t size() const override { return f ? f->size : 0; }
private:
    svf::File* f = nullptr;
};
class sv_ofstream : public sv_ostream {
public:
    sv_ofstream() {} sv_ofstream(const char* n, openmode m = out) { open(n, m); } sv_ofstream(string const& n, openmode m = out) { open(n, m); } sv_ofstream(boost::filesystem::path const& n, openmode m = out) { open(n.string(), m); }
    void open(boost::filesystem::path const& n, openmode m = out) { open(n.string(), m); } void open(const char* n, openmode m = out) { open(string(n), m); }
    void open(string const& n, openmode m = out) { name_ = n; f = svf::find(n); if (!f) f = &svf::file(n); if (!f->openable) { f = nullptr; fail_ = true; raise(); return; } f->exists = true; ++f->written; if (!(m & ios_base::app)) { f->nums.clear(); f->size = 0; } }
    bool is_open() const { return f != nullptr; } void close() { if (!f) fail_ = true; f = nullptr; raise(); }
protected:
    void text(const char* p, size_t n) override { if (!f) fail_ = true; else f->append(p, n); } void number(double v) override { if (f) f->nums.push_back(v); } size_t where() override { return f ? f->size : 0; }
private:
    svf::File* f = nullptr;
};
/// string streams; what is read from them is their text as words
class sv_stringstream : public sv_iostream {
public:
    sv_stringstream() {} explicit sv_stringstream(openmode) {} explicit sv_stringstream(string const& s, openmode = in) : t(s) {} sv_stringstream(sv_stringstream&& o) : t(std::move(o.t)), nums(std::move(o.nums)) {}
    string str() const { return t; } void str(string const& s) { t = s; nums.clear(); words.clear(); pos = tk = 0; } string_view view() const { return t; }
    svf::Tok* sv_tok(size_t k) override
    {
        if (words.empty()) { size_t i = 0; for (;;) { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t')) ++i; if (i == t.size()) break; svf::Tok w{true, 0, ""}; while (i < t.size() && t[i] != ' ' && t[i] != '\n' && t[i] != '\t') { w.num = w.num && t[i] >= '0' && t[i] <= '9'; w.n = w.n * 10 + size_t(t[i] - '0'); w.s += t[i++]; } words.push_back(w); } }
        return k < words.size() ? &words[k] : nullptr;
    }
    vector<double> const& sv_nums() const { return nums; } vector<pair<fmtflags, streamsize>> const& sv_formats() const { return fmts; } void sv_number(double v, fmtflags f, streamsize p) { nums.push_back(v); fmts.emplace_back(f, p); }
protected:
    void text(const char* p, size_t n) override { t.append(p, n); } void number(double v) override { nums.push_back(v); fmts.emplace_back(fl_, pr_); } const char* data() const override { return t.data(); } size_t size() const override { return t.size(); } size_t where() override { return t.size(); }
private:
    string t; vector<double> nums; vector<pair<fmtflags, streamsize>> fmts; vector<svf::Tok> words;
};
/// the terminal: nothing is kept unless the harness asks for it
class sv_terminal : public sv_ostream { public: sv_stringstream* kept = nullptr; protected: void text(const char* p, size_t n) override { if (kept) kept->sv_ostream::write(p, streamsize(n)); } void number(double v) override { if (kept) kept->sv_number(v, fl_, pr_); } bool keeps() const override { return kept; } };
inline sv_terminal sv_cout, sv_cerr;
template <class C, class T = char_traits<C>> struct sv_istreambuf_iterator {
    typedef input_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char* pointer; typedef char const& reference;
    const char* p = nullptr; const char* e = nullptr; sv_istreambuf_iterator() {} sv_istreambuf_iterator(sv_istream& s) : p(s.sv_here()), e(s.sv_end()) {} sv_istreambuf_iterator(sv_istream* s) : sv_istreambuf_iterator(*s) {}
    char const& operator*() const { return *p; } sv_istreambuf_iterator& operator++() { ++p; return *this; } sv_istreambuf_iterator operator++(int) { auto t = *this; ++p; return t; }
    bool operator==(sv_istreambuf_iterator const& o) const { return (p == e) == (o.p == o.e); } bool operator!=(sv_istreambuf_iterator const& o) const { return !(*this == o); }
};
template <class C, class T = char_traits<C>> struct sv_ostreambuf_iterator {
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; sv_ostream* s; sv_ostreambuf_iterator(sv_ostream& o) : s(&o) {} sv_ostreambuf_iterator(sv_ostream* o) : s(o) {}
    sv_ostreambuf_iterator& operator=(char c) { s->put(c); return *this; } sv_ostreambuf_iterator& operator*() { return *this; } sv_ostreambuf_iterator& operator++() { return *this; } sv_ostreambuf_iterator& operator++(int) { return *this; }
};
template <class V, class C = char, class T = char_traits<char>> struct sv_ostream_iterator {
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; sv_ostream* s; const char* d; sv_ostream_iterator(sv_ostream& o, const char* x = nullptr) : s(&o), d(x) {}
    sv_ostream_iterator& operator=(V const& v) { *s << v; if (d) *s << d; return *this; } sv_ostream_iterator& operator*() { return *this; } sv_ostream_iterator& operator++() { return *this; } sv_ostream_iterator& operator++(int) { return *this; }
};
}
inline boost::property_tree::ptree const& svf_tree_of(std::sv_istream& is) { svf::File* f = is.sv_file(); static boost::property_tree::ptree none; return f ? f->tree : none; }
#ifndef SV_STUB_PTREE
// the real parsers take real streams; a harness that reaches this code without the stand-in parsers gets no verdict
#include <boost/property_tree/xml_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
namespace boost { namespace property_tree {
inline void read_xml(std::sv_istream&, ptree&, int = 0) { sv_unmodelled("read_xml"); }
inline void read_json(std::sv_istream&, ptree&, int = 0) { sv_unmodelled("read_json"); }
} }
#endif
#define ostream sv_ostream
#define istream sv_istream
#define iostream sv_iostream
#define ifstream sv_ifstream
#define ofstream sv_ofstream
#define stringstream sv_stringstream
#define ostringstream sv_stringstream
#define istringstream sv_stringstream
#define istreambuf_iterator sv_istreambuf_iterator
#define ostreambuf_iterator sv_ostreambuf_iterator
#define ostream_iterator sv_ostream_iterator
#define cout sv_cout
#define cerr sv_cerr
#define clog sv_cerr
#define ios_base sv_ios
