#!/usr/bin/env python3
"""gen_blas.py - writes harness/fw_openblas.cpp and harness/fw_mkl.cpp from tool/blas_functions.json
(the BLAS call signatures, committed here so that the specification does not come from the code under test)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); F = json.load(open(os.path.join(V, "tool", "blas_functions.json")))
CT = {"int": "int", "char": "char", "float": "float", "double": "double", "std::complex<float>": "std::complex<float>", "std::complex<double>": "std::complex<double>"}
HEAD = '''// GENERATED by tool/gen_blas.py. Every BLAS wrapper forwards each argument and the result of the function of the same name.
#include "sv.h"
#include <complex>
#include "BlasBooster/BlasInterface/%(hdr)s"
using namespace BlasBooster;
struct Slot { uint64_t w[4]; };
static Slot arg[20], out[20]; static int calls; static int called;
static void prepare(int n) { calls = 0; called = -1; for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) { arg[i].w[k] = sv_u64("arg"); out[i].w[k] = sv_u64("out"); } }
/// what the library function sees: the argument the caller supplied at this position
template <class T> static bool seen(const T* p, int i) { if ((const void*)p == (const void*)&arg[i]) return true; return memcmp(p, &arg[i], sizeof(T)) == 0; }
template <class T> static void writes(T* p, int i) { memcpy(p, &out[i], sizeof(T)); }
template <class T> static bool written(int i) { return memcmp(&arg[i], &out[i], sizeof(T)) == 0; }
'''
def const(a): return a.startswith("const ")
def base(a): return CT[a.replace("const ", "")]
def gen(api, hdr, fns, prefix, nth, setup, fname):
    o = [HEAD % dict(hdr=hdr)]
    for k, f in enumerate(fns):
        A = f["args"]; sym = f["sym"]; n = len(A)
        if f.get("kind") in ("sub", "hidden", "byvalue"): o.append(f["stub"]); continue
        o.append('static %s ret_%s;' % (f["ret"], f["name"]) if f["ret"] != "void" else "")
        o.append('extern "C" %s %s(%s)\n{' % (f["ret"], sym, ", ".join("%s* v%d" % (a, i) for i, a in enumerate(A))))
        o.append('    ++calls; called = %d;' % k)
        for i, a in enumerate(A): o.append('    sv_assert(seen(v%d, %d), "%s argument %d"); ' % (i, i, f["name"], i) + ("" if const(a) else 'writes(v%d, %d);' % (i, i)))
        if f["ret"] != "void": o.append('    return ret_%s;' % f["name"])
        o.append('}')
        o.append('static void use_%s()\n{\n    prepare(%d);%s' % (f["name"], n, " ret_%s = %s;" % (f["name"], {"int": 'sv_i32("result")', "float": 'sv_rawf("result")', "double": 'sv_rawd("result")'}[f["ret"]]) if f["ret"] != "void" else ""))
        call = 'BlasInterface<%s, %s>()(%s)' % (api, f["name"], ", ".join("(%s*)&arg[%d]" % (a, i) for i, a in enumerate(A)))
        if f["ret"] != "void": o.append('    %s r = %s; sv_assert(sv_same(r, ret_%s), "%s result");' % (f["ret"], call, f["name"], f["name"]))
        else: o.append('    %s;' % call)
        o.append('    sv_assert(calls == 1 && called == %d, "%s calls the function of its name once");' % (k, f["name"]))
        for i, a in enumerate(A):
            if not const(a): o.append('    sv_assert(written<%s>(%d), "%s output argument %d");' % (base(a), i, f["name"], i))
        o.append('    sv_assert(%s::name() == "%s", "name of %s");' % (f["name"], f["name"], f["name"]))
        o.append('}')
    o.append(setup)
    names = [f["name"] for f in fns]
    for b in range(0, len(names), nth): o.append('HARNESS(%s_%03d) { %s sv_reach("end"); }' % (prefix, b, " ".join("use_%s();" % n for n in names[b:b + nth])))
    open(os.path.join(V, "harness", fname), "w").write("\n".join(x for x in o if x) + "\n")
def dot(api, n, k, kind):
    T = "std::complex<float>" if n[0] == "c" else "std::complex<double>"
    body = '    ++calls; called = %d; sv_assert(seen(v0, 0), "%s argument 0"); sv_assert(seen(v1, 1), "%s argument 1"); sv_assert(seen(v2, 2), "%s argument 2"); sv_assert(seen(v3, 3), "%s argument 3"); sv_assert(seen(v4, 4), "%s argument 4");\n' % (k, n, n, n, n, n)
    fort = 'const int* v0, const %s* v1, const int* v2, const %s* v3, const int* v4' % (T, T)
    s = ""
    if kind == "openblas": # both ways the library offers: by value (gfortran convention) and the C interface
        s += 'extern "C" %s %s_(%s)\n{\n%s    %s r; memcpy(&r, &out[0], sizeof r); return r;\n}\n' % (T, n, fort, body, T)
        s += 'extern "C" void cblas_%s_sub(int n, const void* x, int incx, const void* y, int incy, void* r)\n{\n    int *v0 = &n, *v2 = &incx, *v4 = &incy; const %s *v1 = (const %s*)x, *v3 = (const %s*)y;\n%s    memcpy(r, &out[0], sizeof(%s));\n}\n' % (n, T, T, T, body, T)
    else:
        s += 'extern "C" void %s_(%s* r, %s)\n{\n%s    memcpy(r, &out[0], sizeof *r);\n}\n' % (n, T, fort, body)
    s += 'static void use_%s()\n{\n    prepare(5); %s r = BlasInterface<%s, %s>()((int*)&arg[0], (%s*)&arg[1], (int*)&arg[2], (%s*)&arg[3], (int*)&arg[4]);\n    sv_assert(memcmp(&r, &out[0], sizeof r) == 0, "%s result"); sv_assert(calls == 1 && called == %d, "%s calls the function of its name once");\n}' % (n, T, api, n, T, T, n, k, n)
    return dict(name=n, args=[], sym=n + "_", ret="void", kind="sub", stub=s)
def withsym(l, fmt): return [dict(f, sym=fmt % f["name"]) for f in l]
D = ["cdotc", "cdotu", "zdotc", "zdotu"]
b = withsym(F["functions_blas"], "%s_")
gen("OpenBLAS", "BlasInterface_OpenBLAS.h", b + [dot("OpenBLAS", n, len(b) + i, "openblas") for i, n in enumerate(D)], "ob", 8,
    'static int threads_seen; extern "C" void openblas_set_num_threads(int n) { ++calls; threads_seen = n; }\nHARNESS(ob_threads) { int n = sv_i32("n"); calls = 0; OpenBLAS_set_num_threads(n); sv_assert(calls == 1 && threads_seen == n, "number of threads"); sv_reach("end"); }', "fw_openblas.cpp")
m = b + withsym(F["functions_spblas"], "mkl_%s")
gen("IntelMKL", "BlasInterface_IntelMKL.h", m + [dot("IntelMKL", n, len(m) + i, "mkl") for i, n in enumerate(D)], "mkl", 8,
    'static int threads_seen; extern "C" void MKL_Set_Num_Threads(int n) { ++calls; threads_seen = n; } extern "C" void MKL_Set_Dynamic(int) {}\nHARNESS(mkl_threads) { int n = sv_i32("n"); calls = 0; IntelMKL_set_num_threads(n); sv_assert(calls == 1 && threads_seen == n, "number of threads"); sv_reach("end"); }', "fw_mkl.cpp")
