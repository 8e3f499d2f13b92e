// sv.h - vocabulary shared by the symbolic run (engine/irsym) and the native replay (harness/native.cpp)
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
int64_t  sv_int(const char* name, int64_t lo, int64_t hi); // every integer in [lo,hi]
uint64_t sv_u64(const char* name);                          // every 64 bit pattern
int32_t  sv_i32(const char* name);
uint8_t  sv_u8(const char* name);
bool     sv_bool(const char* name);
double   sv_rawd(const char* name);                         // every IEEE-754 double
float    sv_rawf(const char* name);
double   sv_fd(const char* name, int64_t lo, int64_t hi);   // every integral double in [lo,hi] (exact domain)
float    sv_ff(const char* name, int64_t lo, int64_t hi);
void     sv_assume(bool);
void     sv_assert(bool, const char* label);
void     sv_fail(const char* label);
void     sv_unmodelled(const char* what);                    // beyond the models: no verdict
void     sv_reach(const char* label);                       // reachability witness
int64_t  sv_concretize(int64_t);                            // explores every feasible value separately
void     sv_obs_i(const char* label, int64_t);              // compared between engine and native run
void     sv_obs_d(const char* label, double);
int      sv_is_native(void);
uint64_t sv_live_heap(void);                                // number of live heap blocks
void     sv_fail_alloc(int64_t n);                          // the n-th next allocation throws bad_alloc
int      sv_owner(const void*);                             // points into a live heap block
int      sv_is_init(const void*, size_t);                   // every byte has been written
void     sv_rt_enter(void);
void     sv_rt_leave(void);
void*    sv_blaze_alloc(size_t);
void     sv_blaze_free(void*);
}
#define HARNESS(name) extern "C" void hv_##name()
static inline size_t sv_size(const char* n, int64_t lo, int64_t hi) { return (size_t)sv_concretize(sv_int(n, lo, hi)); }
template <class T> struct SvElem;
template <> struct SvElem<double> { static double get(const char* n, int64_t b) { return sv_fd(n, -b, b); } };
template <> struct SvElem<float> { static float get(const char* n, int64_t b) { return sv_ff(n, -b, b); } };
template <> struct SvElem<int> { static int get(const char* n, int64_t b) { return (int)sv_int(n, -b, b); } };
template <class T> struct SvRaw;
template <> struct SvRaw<double> { static double get(const char* n) { return sv_rawd(n); } };
template <> struct SvRaw<float> { static float get(const char* n) { return sv_rawf(n); } };
template <> struct SvRaw<int> { static int get(const char* n) { return sv_i32(n); } };
static inline bool sv_same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static inline bool sv_same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
static inline bool sv_same(int a, int b) { return a == b; }
