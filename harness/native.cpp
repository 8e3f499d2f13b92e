// native.cpp - native side of sv.h: replays one assignment against the really compiled code.
// SV_INPUT names a file of "name value" lines; unknown names read as 0 (clamped into the range), or, with SV_FILL, as a
// value of the range derived from the name.
#include <chrono>
#include "sv.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#include <dlfcn.h>
namespace {
struct Blk { size_t n; int kind; };
template <class T> struct MA { // allocator on malloc so that bookkeeping never recurses into operator new
    typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
    template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; }
};
typedef std::basic_string<char, std::char_traits<char>, MA<char>> S;
typedef std::map<void*, Blk, std::less<void*>, MA<std::pair<void* const, Blk>>> Blocks;
Blocks& blocks() { static Blocks* b = new (malloc(sizeof(Blocks))) Blocks; return *b; }
typedef std::map<S, S, std::less<S>, MA<std::pair<const S, S>>> Inp;
Inp& inp()
{
    static Inp* m = nullptr;
    if (!m) {
        m = new (malloc(sizeof(Inp))) Inp;
        if (const char* f = getenv("SV_INPUT")) if (FILE* fp = fopen(f, "r")) { char l[600]; while (fgets(l, sizeof l, fp)) { size_t n = strlen(l); while (n && (l[n - 1] == '\n' || l[n - 1] == ' ')) l[--n] = 0; char* b = strrchr(l, ' '); if (b) { *b = 0; (*m)[S(l)] = S(b + 1); } } fclose(fp); }
    }
    return *m;
}
S& last() { static S* s = new (malloc(sizeof(S))) S; return *s; }
const char* in(const char* base)
{
    static std::map<S, int, std::less<S>, MA<std::pair<const S, int>>>* cnt = new (malloc(64)) std::map<S, int, std::less<S>, MA<std::pair<const S, int>>>;
    int& n = (*cnt)[S(base)]; char k[300]; if (n) snprintf(k, sizeof k, "%s#%d", base, n); else snprintf(k, sizeof k, "%s", base); ++n;
    auto it = inp().find(S(k)); last() = S(k); return it == inp().end() ? nullptr : it->second.c_str();
}
int64_t absent(int64_t lo, int64_t hi)
{
    const char* f = getenv("SV_FILL"); if (!f) return 0 < lo ? lo : 0 > hi ? hi : 0;
    uint64_t h = strtoull(f, 0, 0) * 0x9E3779B97F4A7C15ull + 1; for (char c : last()) h = (h ^ (unsigned char)c) * 1099511628211ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; if (h % 3 == 0 && hi - lo > 40) { lo = lo < -9 ? -9 : lo; hi = lo + 18; } // small values often
    uint64_t w = (uint64_t)hi - (uint64_t)lo + 1; return w ? (int64_t)((uint64_t)lo + (h >> 8) % w) : (int64_t)h;
}
[[noreturn]] void die(const char* kind, const char* msg) { fflush(stdout); fprintf(stderr, "SV-VIOLATION %s: %s\n", kind, msg); fflush(stderr); _exit(77); }
int64_t failAfter = -1;
void* get(size_t n, int kind)
{
    if (n > (size_t(1) << 34)) throw std::bad_alloc();
    if (failAfter >= 0 && failAfter-- == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (!getenv("SV_VALGRIND")) memset(p, 0xA5, n);
    blocks()[p] = Blk{n, kind}; return p;
}
void put(void* p, int kind)
{
    if (!p) return;
    auto it = blocks().find(p);
    if (it == blocks().end()) die("memory", "free of memory that is not a live heap block");
    if (it->second.kind != kind) die("memory", "mismatched allocation and deallocation functions");
    blocks().erase(it); if (!getenv("SV_VALGRIND")) memset(p, 0xDD, 1); free(p);
}
}
void* operator new(size_t n) { return get(n, 1); }
void* operator new[](size_t n) { return get(n, 2); }
void operator delete(void* p) noexcept { put(p, 1); }
void operator delete(void* p, size_t) noexcept { put(p, 1); }
void operator delete[](void* p) noexcept { put(p, 2); }
void operator delete[](void* p, size_t) noexcept { put(p, 2); }
extern "C" {
void sv_unmodelled(const char* w) { fprintf(stderr, "beyond the models: %s\n", w); _Exit(3); }
int64_t sv_int(const char* n, int64_t lo, int64_t hi) { const char* s = in(n); int64_t v = s ? strtoll(s, 0, 0) : absent(lo, hi); return v < lo ? lo : v > hi ? hi : v; }
uint64_t sv_u64(const char* n) { const char* s = in(n); return s ? strtoull(s, 0, 0) : 0; }
int32_t sv_i32(const char* n) { const char* s = in(n); return s ? (int32_t)strtoll(s, 0, 0) : 0; }
uint8_t sv_u8(const char* n) { const char* s = in(n); return s ? (uint8_t)strtoull(s, 0, 0) : 0; }
bool sv_bool(const char* n) { const char* s = in(n); return s && strtoll(s, 0, 0) != 0; }
double sv_rawd(const char* n) { uint64_t v = sv_u64(n); double d; memcpy(&d, &v, 8); return d; }
float sv_rawf(const char* n) { uint32_t v = (uint32_t)sv_u64(n); float d; memcpy(&d, &v, 4); return d; }
double sv_fd(const char* n, int64_t lo, int64_t hi) { const char* s = in(n); double v = s ? atof(s) : (double)absent(lo, hi); return v < lo ? lo : v > hi ? hi : v; }
float sv_ff(const char* n, int64_t lo, int64_t hi) { return (float)sv_fd(n, lo, hi); }
void sv_assume(bool b) { if (!b) { fflush(stdout); fprintf(stderr, "SV-ASSUMPTION-FALSE\n"); _exit(78); } }
void sv_assert(bool b, const char* l) { if (!b) die("assert", l); }
void sv_fail(const char* l) { die("assert", l); }
void sv_reach(const char* l) { (void)l; }
int64_t sv_concretize(int64_t v) { return v; }
void sv_obs_i(const char* l, int64_t v) { printf("OBS %s %lld\n", l, (long long)v); }
void sv_obs_d(const char* l, double v) { printf("OBS %s %.17g\n", l, v); }
int sv_is_native(void) { return 1; }
uint64_t sv_live_heap(void) { return blocks().size(); }
void sv_fail_alloc(int64_t n) { failAfter = n; }
int sv_owner(const void* p) { auto it = blocks().upper_bound(const_cast<void*>(p)); if (it == blocks().begin()) return 0; --it; return (const char*)p < (const char*)it->first + (it->second.n ? it->second.n : 1); }
int sv_is_init(const void*, size_t) { return 1; }
void sv_rt_enter(void) {}
void sv_rt_leave(void) {}
void* sv_blaze_alloc(size_t n) { return get(n, 3); }
void sv_blaze_free(void* p) { put(p, 3); }
}
// the clock advances only as the harness says
static long long ticks = 1000000, delta = 100;
extern "C" void sv_clock_advance(long long d) { ticks += d; }
extern "C" void sv_clock_step(long long d) { delta = d; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(ticks += delta)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(ticks += delta)); }
} } }
int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    inp();
    void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    try { f(); } catch (std::exception& e) { die("exception", e.what()); } catch (...) { die("exception", "unknown"); }
    printf("SV-OK\n"); return 0;
}
