// GENERATED by tool/gen_blas.py. Every BLAS wrapper forwards each argument and the result of the function of the same name.
#include "sv.h"
#include <complex>
#include "BlasBooster/BlasInterface/BlasInterface_IntelMKL.h"
using namespace BlasBooster;
struct Slot { uint64_t w[4]; };
static Slot arg[20], out[20]; static int calls; static int called;
static void prepare(int n) { calls = 0; called = -1; for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) { arg[i].w[k] = sv_u64("arg"); out[i].w[k] = sv_u64("out"); } }
/// what the library function sees: the argument the caller supplied at this position
template <class T> static bool seen(const T* p, int i) { if ((const void*)p == (const void*)&arg[i]) return true; return memcmp(p, &arg[i], sizeof(T)) == 0; }
template <class T> static void writes(T* p, int i) { memcpy(p, &out[i], sizeof(T)); }
template <class T> static bool written(int i) { return memcmp(&arg[i], &out[i], sizeof(T)) == 0; }

static float ret_scabs1;
extern "C" float scabs1_(const std::complex<float>* v0)
{
    ++calls; called = 0;
    sv_assert(seen(v0, 0), "scabs1 argument 0"); 
    return ret_scabs1;
}
static void use_scabs1()
{
    prepare(1); ret_scabs1 = sv_rawf("result");
    float r = BlasInterface<IntelMKL, scabs1>()((const std::complex<float>*)&arg[0]); sv_assert(sv_same(r, ret_scabs1), "scabs1 result");
    sv_assert(calls == 1 && called == 0, "scabs1 calls the function of its name once");
    sv_assert(scabs1::name() == "scabs1", "name of scabs1");
}
static float ret_sasum;
extern "C" float sasum_(const int* v0, const float* v1, const int* v2)
{
    ++calls; called = 1;
    sv_assert(seen(v0, 0), "sasum argument 0"); 
    sv_assert(seen(v1, 1), "sasum argument 1"); 
    sv_assert(seen(v2, 2), "sasum argument 2"); 
    return ret_sasum;
}
static void use_sasum()
{
    prepare(3); ret_sasum = sv_rawf("result");
    float r = BlasInterface<IntelMKL, sasum>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_sasum), "sasum result");
    sv_assert(calls == 1 && called == 1, "sasum calls the function of its name once");
    sv_assert(sasum::name() == "sasum", "name of sasum");
}
extern "C" void saxpy_(const int* v0, const float* v1, const float* v2, const int* v3, float* v4, const int* v5)
{
    ++calls; called = 2;
    sv_assert(seen(v0, 0), "saxpy argument 0"); 
    sv_assert(seen(v1, 1), "saxpy argument 1"); 
    sv_assert(seen(v2, 2), "saxpy argument 2"); 
    sv_assert(seen(v3, 3), "saxpy argument 3"); 
    sv_assert(seen(v4, 4), "saxpy argument 4"); writes(v4, 4);
    sv_assert(seen(v5, 5), "saxpy argument 5"); 
}
static void use_saxpy()
{
    prepare(6);
    BlasInterface<IntelMKL, saxpy>()((const int*)&arg[0], (const float*)&arg[1], (const float*)&arg[2], (const int*)&arg[3], (float*)&arg[4], (const int*)&arg[5]);
    sv_assert(calls == 1 && called == 2, "saxpy calls the function of its name once");
    sv_assert(written<float>(4), "saxpy output argument 4");
    sv_assert(saxpy::name() == "saxpy", "name of saxpy");
}
extern "C" void saxpby_(const int* v0, const float* v1, const float* v2, const int* v3, const float* v4, float* v5, const int* v6)
{
    ++calls; called = 3;
    sv_assert(seen(v0, 0), "saxpby argument 0"); 
    sv_assert(seen(v1, 1), "saxpby argument 1"); 
    sv_assert(seen(v2, 2), "saxpby argument 2"); 
    sv_assert(seen(v3, 3), "saxpby argument 3"); 
    sv_assert(seen(v4, 4), "saxpby argument 4"); 
    sv_assert(seen(v5, 5), "saxpby argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "saxpby argument 6"); 
}
static void use_saxpby()
{
    prepare(7);
    BlasInterface<IntelMKL, saxpby>()((const int*)&arg[0], (const float*)&arg[1], (const float*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (float*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 3, "saxpby calls the function of its name once");
    sv_assert(written<float>(5), "saxpby output argument 5");
    sv_assert(saxpby::name() == "saxpby", "name of saxpby");
}
static float ret_scasum;
extern "C" float scasum_(const int* v0, const std::complex<float>* v1, const int* v2)
{
    ++calls; called = 4;
    sv_assert(seen(v0, 0), "scasum argument 0"); 
    sv_assert(seen(v1, 1), "scasum argument 1"); 
    sv_assert(seen(v2, 2), "scasum argument 2"); 
    return ret_scasum;
}
static void use_scasum()
{
    prepare(3); ret_scasum = sv_rawf("result");
    float r = BlasInterface<IntelMKL, scasum>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_scasum), "scasum result");
    sv_assert(calls == 1 && called == 4, "scasum calls the function of its name once");
    sv_assert(scasum::name() == "scasum", "name of scasum");
}
static float ret_scnrm2;
extern "C" float scnrm2_(const int* v0, const std::complex<float>* v1, const int* v2)
{
    ++calls; called = 5;
    sv_assert(seen(v0, 0), "scnrm2 argument 0"); 
    sv_assert(seen(v1, 1), "scnrm2 argument 1"); 
    sv_assert(seen(v2, 2), "scnrm2 argument 2"); 
    return ret_scnrm2;
}
static void use_scnrm2()
{
    prepare(3); ret_scnrm2 = sv_rawf("result");
    float r = BlasInterface<IntelMKL, scnrm2>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_scnrm2), "scnrm2 result");
    sv_assert(calls == 1 && called == 5, "scnrm2 calls the function of its name once");
    sv_assert(scnrm2::name() == "scnrm2", "name of scnrm2");
}
extern "C" void scopy_(const int* v0, const float* v1, const int* v2, float* v3, const int* v4)
{
    ++calls; called = 6;
    sv_assert(seen(v0, 0), "scopy argument 0"); 
    sv_assert(seen(v1, 1), "scopy argument 1"); 
    sv_assert(seen(v2, 2), "scopy argument 2"); 
    sv_assert(seen(v3, 3), "scopy argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "scopy argument 4"); 
}
static void use_scopy()
{
    prepare(5);
    BlasInterface<IntelMKL, scopy>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2], (float*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 6, "scopy calls the function of its name once");
    sv_assert(written<float>(3), "scopy output argument 3");
    sv_assert(scopy::name() == "scopy", "name of scopy");
}
static float ret_sdot;
extern "C" float sdot_(const int* v0, const float* v1, const int* v2, const float* v3, const int* v4)
{
    ++calls; called = 7;
    sv_assert(seen(v0, 0), "sdot argument 0"); 
    sv_assert(seen(v1, 1), "sdot argument 1"); 
    sv_assert(seen(v2, 2), "sdot argument 2"); 
    sv_assert(seen(v3, 3), "sdot argument 3"); 
    sv_assert(seen(v4, 4), "sdot argument 4"); 
    return ret_sdot;
}
static void use_sdot()
{
    prepare(5); ret_sdot = sv_rawf("result");
    float r = BlasInterface<IntelMKL, sdot>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2], (const float*)&arg[3], (const int*)&arg[4]); sv_assert(sv_same(r, ret_sdot), "sdot result");
    sv_assert(calls == 1 && called == 7, "sdot calls the function of its name once");
    sv_assert(sdot::name() == "sdot", "name of sdot");
}
static float ret_sdsdot;
extern "C" float sdsdot_(const int* v0, const float* v1, const float* v2, const int* v3, const float* v4, const int* v5)
{
    ++calls; called = 8;
    sv_assert(seen(v0, 0), "sdsdot argument 0"); 
    sv_assert(seen(v1, 1), "sdsdot argument 1"); 
    sv_assert(seen(v2, 2), "sdsdot argument 2"); 
    sv_assert(seen(v3, 3), "sdsdot argument 3"); 
    sv_assert(seen(v4, 4), "sdsdot argument 4"); 
    sv_assert(seen(v5, 5), "sdsdot argument 5"); 
    return ret_sdsdot;
}
static void use_sdsdot()
{
    prepare(6); ret_sdsdot = sv_rawf("result");
    float r = BlasInterface<IntelMKL, sdsdot>()((const int*)&arg[0], (const float*)&arg[1], (const float*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const int*)&arg[5]); sv_assert(sv_same(r, ret_sdsdot), "sdsdot result");
    sv_assert(calls == 1 && called == 8, "sdsdot calls the function of its name once");
    sv_assert(sdsdot::name() == "sdsdot", "name of sdsdot");
}
static float ret_snrm2;
extern "C" float snrm2_(const int* v0, const float* v1, const int* v2)
{
    ++calls; called = 9;
    sv_assert(seen(v0, 0), "snrm2 argument 0"); 
    sv_assert(seen(v1, 1), "snrm2 argument 1"); 
    sv_assert(seen(v2, 2), "snrm2 argument 2"); 
    return ret_snrm2;
}
static void use_snrm2()
{
    prepare(3); ret_snrm2 = sv_rawf("result");
    float r = BlasInterface<IntelMKL, snrm2>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_snrm2), "snrm2 result");
    sv_assert(calls == 1 && called == 9, "snrm2 calls the function of its name once");
    sv_assert(snrm2::name() == "snrm2", "name of snrm2");
}
extern "C" void srot_(const int* v0, float* v1, const int* v2, float* v3, const int* v4, const float* v5, const float* v6)
{
    ++calls; called = 10;
    sv_assert(seen(v0, 0), "srot argument 0"); 
    sv_assert(seen(v1, 1), "srot argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "srot argument 2"); 
    sv_assert(seen(v3, 3), "srot argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "srot argument 4"); 
    sv_assert(seen(v5, 5), "srot argument 5"); 
    sv_assert(seen(v6, 6), "srot argument 6"); 
}
static void use_srot()
{
    prepare(7);
    BlasInterface<IntelMKL, srot>()((const int*)&arg[0], (float*)&arg[1], (const int*)&arg[2], (float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const float*)&arg[6]);
    sv_assert(calls == 1 && called == 10, "srot calls the function of its name once");
    sv_assert(written<float>(1), "srot output argument 1");
    sv_assert(written<float>(3), "srot output argument 3");
    sv_assert(srot::name() == "srot", "name of srot");
}
extern "C" void srotg_(float* v0, float* v1, float* v2, float* v3)
{
    ++calls; called = 11;
    sv_assert(seen(v0, 0), "srotg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "srotg argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "srotg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "srotg argument 3"); writes(v3, 3);
}
static void use_srotg()
{
    prepare(4);
    BlasInterface<IntelMKL, srotg>()((float*)&arg[0], (float*)&arg[1], (float*)&arg[2], (float*)&arg[3]);
    sv_assert(calls == 1 && called == 11, "srotg calls the function of its name once");
    sv_assert(written<float>(0), "srotg output argument 0");
    sv_assert(written<float>(1), "srotg output argument 1");
    sv_assert(written<float>(2), "srotg output argument 2");
    sv_assert(written<float>(3), "srotg output argument 3");
    sv_assert(srotg::name() == "srotg", "name of srotg");
}
extern "C" void srotm_(const int* v0, float* v1, const int* v2, float* v3, const int* v4, const float* v5)
{
    ++calls; called = 12;
    sv_assert(seen(v0, 0), "srotm argument 0"); 
    sv_assert(seen(v1, 1), "srotm argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "srotm argument 2"); 
    sv_assert(seen(v3, 3), "srotm argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "srotm argument 4"); 
    sv_assert(seen(v5, 5), "srotm argument 5"); 
}
static void use_srotm()
{
    prepare(6);
    BlasInterface<IntelMKL, srotm>()((const int*)&arg[0], (float*)&arg[1], (const int*)&arg[2], (float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5]);
    sv_assert(calls == 1 && called == 12, "srotm calls the function of its name once");
    sv_assert(written<float>(1), "srotm output argument 1");
    sv_assert(written<float>(3), "srotm output argument 3");
    sv_assert(srotm::name() == "srotm", "name of srotm");
}
extern "C" void srotmg_(float* v0, float* v1, float* v2, const float* v3, float* v4)
{
    ++calls; called = 13;
    sv_assert(seen(v0, 0), "srotmg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "srotmg argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "srotmg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "srotmg argument 3"); 
    sv_assert(seen(v4, 4), "srotmg argument 4"); writes(v4, 4);
}
static void use_srotmg()
{
    prepare(5);
    BlasInterface<IntelMKL, srotmg>()((float*)&arg[0], (float*)&arg[1], (float*)&arg[2], (const float*)&arg[3], (float*)&arg[4]);
    sv_assert(calls == 1 && called == 13, "srotmg calls the function of its name once");
    sv_assert(written<float>(0), "srotmg output argument 0");
    sv_assert(written<float>(1), "srotmg output argument 1");
    sv_assert(written<float>(2), "srotmg output argument 2");
    sv_assert(written<float>(4), "srotmg output argument 4");
    sv_assert(srotmg::name() == "srotmg", "name of srotmg");
}
extern "C" void sscal_(const int* v0, const float* v1, float* v2, const int* v3)
{
    ++calls; called = 14;
    sv_assert(seen(v0, 0), "sscal argument 0"); 
    sv_assert(seen(v1, 1), "sscal argument 1"); 
    sv_assert(seen(v2, 2), "sscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "sscal argument 3"); 
}
static void use_sscal()
{
    prepare(4);
    BlasInterface<IntelMKL, sscal>()((const int*)&arg[0], (const float*)&arg[1], (float*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 14, "sscal calls the function of its name once");
    sv_assert(written<float>(2), "sscal output argument 2");
    sv_assert(sscal::name() == "sscal", "name of sscal");
}
extern "C" void sswap_(const int* v0, float* v1, const int* v2, float* v3, const int* v4)
{
    ++calls; called = 15;
    sv_assert(seen(v0, 0), "sswap argument 0"); 
    sv_assert(seen(v1, 1), "sswap argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "sswap argument 2"); 
    sv_assert(seen(v3, 3), "sswap argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "sswap argument 4"); 
}
static void use_sswap()
{
    prepare(5);
    BlasInterface<IntelMKL, sswap>()((const int*)&arg[0], (float*)&arg[1], (const int*)&arg[2], (float*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 15, "sswap calls the function of its name once");
    sv_assert(written<float>(1), "sswap output argument 1");
    sv_assert(written<float>(3), "sswap output argument 3");
    sv_assert(sswap::name() == "sswap", "name of sswap");
}
static int ret_isamax;
extern "C" int isamax_(const int* v0, const float* v1, const int* v2)
{
    ++calls; called = 16;
    sv_assert(seen(v0, 0), "isamax argument 0"); 
    sv_assert(seen(v1, 1), "isamax argument 1"); 
    sv_assert(seen(v2, 2), "isamax argument 2"); 
    return ret_isamax;
}
static void use_isamax()
{
    prepare(3); ret_isamax = sv_i32("result");
    int r = BlasInterface<IntelMKL, isamax>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_isamax), "isamax result");
    sv_assert(calls == 1 && called == 16, "isamax calls the function of its name once");
    sv_assert(isamax::name() == "isamax", "name of isamax");
}
static int ret_isamin;
extern "C" int isamin_(const int* v0, const float* v1, const int* v2)
{
    ++calls; called = 17;
    sv_assert(seen(v0, 0), "isamin argument 0"); 
    sv_assert(seen(v1, 1), "isamin argument 1"); 
    sv_assert(seen(v2, 2), "isamin argument 2"); 
    return ret_isamin;
}
static void use_isamin()
{
    prepare(3); ret_isamin = sv_i32("result");
    int r = BlasInterface<IntelMKL, isamin>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_isamin), "isamin result");
    sv_assert(calls == 1 && called == 17, "isamin calls the function of its name once");
    sv_assert(isamin::name() == "isamin", "name of isamin");
}
extern "C" void caxpy_(const int* v0, const std::complex<float>* v1, const std::complex<float>* v2, const int* v3, std::complex<float>* v4, const int* v5)
{
    ++calls; called = 18;
    sv_assert(seen(v0, 0), "caxpy argument 0"); 
    sv_assert(seen(v1, 1), "caxpy argument 1"); 
    sv_assert(seen(v2, 2), "caxpy argument 2"); 
    sv_assert(seen(v3, 3), "caxpy argument 3"); 
    sv_assert(seen(v4, 4), "caxpy argument 4"); writes(v4, 4);
    sv_assert(seen(v5, 5), "caxpy argument 5"); 
}
static void use_caxpy()
{
    prepare(6);
    BlasInterface<IntelMKL, caxpy>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const std::complex<float>*)&arg[2], (const int*)&arg[3], (std::complex<float>*)&arg[4], (const int*)&arg[5]);
    sv_assert(calls == 1 && called == 18, "caxpy calls the function of its name once");
    sv_assert(written<std::complex<float>>(4), "caxpy output argument 4");
    sv_assert(caxpy::name() == "caxpy", "name of caxpy");
}
extern "C" void caxpby_(const int* v0, const std::complex<float>* v1, const std::complex<float>* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6)
{
    ++calls; called = 19;
    sv_assert(seen(v0, 0), "caxpby argument 0"); 
    sv_assert(seen(v1, 1), "caxpby argument 1"); 
    sv_assert(seen(v2, 2), "caxpby argument 2"); 
    sv_assert(seen(v3, 3), "caxpby argument 3"); 
    sv_assert(seen(v4, 4), "caxpby argument 4"); 
    sv_assert(seen(v5, 5), "caxpby argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "caxpby argument 6"); 
}
static void use_caxpby()
{
    prepare(7);
    BlasInterface<IntelMKL, caxpby>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const std::complex<float>*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (std::complex<float>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 19, "caxpby calls the function of its name once");
    sv_assert(written<std::complex<float>>(5), "caxpby output argument 5");
    sv_assert(caxpby::name() == "caxpby", "name of caxpby");
}
extern "C" void ccopy_(const int* v0, const std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4)
{
    ++calls; called = 20;
    sv_assert(seen(v0, 0), "ccopy argument 0"); 
    sv_assert(seen(v1, 1), "ccopy argument 1"); 
    sv_assert(seen(v2, 2), "ccopy argument 2"); 
    sv_assert(seen(v3, 3), "ccopy argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "ccopy argument 4"); 
}
static void use_ccopy()
{
    prepare(5);
    BlasInterface<IntelMKL, ccopy>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const int*)&arg[2], (std::complex<float>*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 20, "ccopy calls the function of its name once");
    sv_assert(written<std::complex<float>>(3), "ccopy output argument 3");
    sv_assert(ccopy::name() == "ccopy", "name of ccopy");
}
extern "C" void crotg_(std::complex<float>* v0, const std::complex<float>* v1, float* v2, std::complex<float>* v3)
{
    ++calls; called = 21;
    sv_assert(seen(v0, 0), "crotg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "crotg argument 1"); 
    sv_assert(seen(v2, 2), "crotg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "crotg argument 3"); writes(v3, 3);
}
static void use_crotg()
{
    prepare(4);
    BlasInterface<IntelMKL, crotg>()((std::complex<float>*)&arg[0], (const std::complex<float>*)&arg[1], (float*)&arg[2], (std::complex<float>*)&arg[3]);
    sv_assert(calls == 1 && called == 21, "crotg calls the function of its name once");
    sv_assert(written<std::complex<float>>(0), "crotg output argument 0");
    sv_assert(written<float>(2), "crotg output argument 2");
    sv_assert(written<std::complex<float>>(3), "crotg output argument 3");
    sv_assert(crotg::name() == "crotg", "name of crotg");
}
extern "C" void cscal_(const int* v0, const std::complex<float>* v1, std::complex<float>* v2, const int* v3)
{
    ++calls; called = 22;
    sv_assert(seen(v0, 0), "cscal argument 0"); 
    sv_assert(seen(v1, 1), "cscal argument 1"); 
    sv_assert(seen(v2, 2), "cscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "cscal argument 3"); 
}
static void use_cscal()
{
    prepare(4);
    BlasInterface<IntelMKL, cscal>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (std::complex<float>*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 22, "cscal calls the function of its name once");
    sv_assert(written<std::complex<float>>(2), "cscal output argument 2");
    sv_assert(cscal::name() == "cscal", "name of cscal");
}
extern "C" void csrot_(const int* v0, std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4, const float* v5, const float* v6)
{
    ++calls; called = 23;
    sv_assert(seen(v0, 0), "csrot argument 0"); 
    sv_assert(seen(v1, 1), "csrot argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "csrot argument 2"); 
    sv_assert(seen(v3, 3), "csrot argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "csrot argument 4"); 
    sv_assert(seen(v5, 5), "csrot argument 5"); 
    sv_assert(seen(v6, 6), "csrot argument 6"); 
}
static void use_csrot()
{
    prepare(7);
    BlasInterface<IntelMKL, csrot>()((const int*)&arg[0], (std::complex<float>*)&arg[1], (const int*)&arg[2], (std::complex<float>*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const float*)&arg[6]);
    sv_assert(calls == 1 && called == 23, "csrot calls the function of its name once");
    sv_assert(written<std::complex<float>>(1), "csrot output argument 1");
    sv_assert(written<std::complex<float>>(3), "csrot output argument 3");
    sv_assert(csrot::name() == "csrot", "name of csrot");
}
extern "C" void csscal_(const int* v0, const float* v1, std::complex<float>* v2, const int* v3)
{
    ++calls; called = 24;
    sv_assert(seen(v0, 0), "csscal argument 0"); 
    sv_assert(seen(v1, 1), "csscal argument 1"); 
    sv_assert(seen(v2, 2), "csscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "csscal argument 3"); 
}
static void use_csscal()
{
    prepare(4);
    BlasInterface<IntelMKL, csscal>()((const int*)&arg[0], (const float*)&arg[1], (std::complex<float>*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 24, "csscal calls the function of its name once");
    sv_assert(written<std::complex<float>>(2), "csscal output argument 2");
    sv_assert(csscal::name() == "csscal", "name of csscal");
}
extern "C" void cswap_(const int* v0, std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4)
{
    ++calls; called = 25;
    sv_assert(seen(v0, 0), "cswap argument 0"); 
    sv_assert(seen(v1, 1), "cswap argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "cswap argument 2"); 
    sv_assert(seen(v3, 3), "cswap argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "cswap argument 4"); 
}
static void use_cswap()
{
    prepare(5);
    BlasInterface<IntelMKL, cswap>()((const int*)&arg[0], (std::complex<float>*)&arg[1], (const int*)&arg[2], (std::complex<float>*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 25, "cswap calls the function of its name once");
    sv_assert(written<std::complex<float>>(1), "cswap output argument 1");
    sv_assert(written<std::complex<float>>(3), "cswap output argument 3");
    sv_assert(cswap::name() == "cswap", "name of cswap");
}
static int ret_icamax;
extern "C" int icamax_(const int* v0, const std::complex<float>* v1, const int* v2)
{
    ++calls; called = 26;
    sv_assert(seen(v0, 0), "icamax argument 0"); 
    sv_assert(seen(v1, 1), "icamax argument 1"); 
    sv_assert(seen(v2, 2), "icamax argument 2"); 
    return ret_icamax;
}
static void use_icamax()
{
    prepare(3); ret_icamax = sv_i32("result");
    int r = BlasInterface<IntelMKL, icamax>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_icamax), "icamax result");
    sv_assert(calls == 1 && called == 26, "icamax calls the function of its name once");
    sv_assert(icamax::name() == "icamax", "name of icamax");
}
static int ret_icamin;
extern "C" int icamin_(const int* v0, const std::complex<float>* v1, const int* v2)
{
    ++calls; called = 27;
    sv_assert(seen(v0, 0), "icamin argument 0"); 
    sv_assert(seen(v1, 1), "icamin argument 1"); 
    sv_assert(seen(v2, 2), "icamin argument 2"); 
    return ret_icamin;
}
static void use_icamin()
{
    prepare(3); ret_icamin = sv_i32("result");
    int r = BlasInterface<IntelMKL, icamin>()((const int*)&arg[0], (const std::complex<float>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_icamin), "icamin result");
    sv_assert(calls == 1 && called == 27, "icamin calls the function of its name once");
    sv_assert(icamin::name() == "icamin", "name of icamin");
}
static double ret_dcabs1;
extern "C" double dcabs1_(const std::complex<double>* v0)
{
    ++calls; called = 28;
    sv_assert(seen(v0, 0), "dcabs1 argument 0"); 
    return ret_dcabs1;
}
static void use_dcabs1()
{
    prepare(1); ret_dcabs1 = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dcabs1>()((const std::complex<double>*)&arg[0]); sv_assert(sv_same(r, ret_dcabs1), "dcabs1 result");
    sv_assert(calls == 1 && called == 28, "dcabs1 calls the function of its name once");
    sv_assert(dcabs1::name() == "dcabs1", "name of dcabs1");
}
static double ret_dasum;
extern "C" double dasum_(const int* v0, const double* v1, const int* v2)
{
    ++calls; called = 29;
    sv_assert(seen(v0, 0), "dasum argument 0"); 
    sv_assert(seen(v1, 1), "dasum argument 1"); 
    sv_assert(seen(v2, 2), "dasum argument 2"); 
    return ret_dasum;
}
static void use_dasum()
{
    prepare(3); ret_dasum = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dasum>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_dasum), "dasum result");
    sv_assert(calls == 1 && called == 29, "dasum calls the function of its name once");
    sv_assert(dasum::name() == "dasum", "name of dasum");
}
extern "C" void daxpy_(const int* v0, const double* v1, const double* v2, const int* v3, double* v4, const int* v5)
{
    ++calls; called = 30;
    sv_assert(seen(v0, 0), "daxpy argument 0"); 
    sv_assert(seen(v1, 1), "daxpy argument 1"); 
    sv_assert(seen(v2, 2), "daxpy argument 2"); 
    sv_assert(seen(v3, 3), "daxpy argument 3"); 
    sv_assert(seen(v4, 4), "daxpy argument 4"); writes(v4, 4);
    sv_assert(seen(v5, 5), "daxpy argument 5"); 
}
static void use_daxpy()
{
    prepare(6);
    BlasInterface<IntelMKL, daxpy>()((const int*)&arg[0], (const double*)&arg[1], (const double*)&arg[2], (const int*)&arg[3], (double*)&arg[4], (const int*)&arg[5]);
    sv_assert(calls == 1 && called == 30, "daxpy calls the function of its name once");
    sv_assert(written<double>(4), "daxpy output argument 4");
    sv_assert(daxpy::name() == "daxpy", "name of daxpy");
}
extern "C" void daxpby_(const int* v0, const double* v1, const double* v2, const int* v3, const double* v4, double* v5, const int* v6)
{
    ++calls; called = 31;
    sv_assert(seen(v0, 0), "daxpby argument 0"); 
    sv_assert(seen(v1, 1), "daxpby argument 1"); 
    sv_assert(seen(v2, 2), "daxpby argument 2"); 
    sv_assert(seen(v3, 3), "daxpby argument 3"); 
    sv_assert(seen(v4, 4), "daxpby argument 4"); 
    sv_assert(seen(v5, 5), "daxpby argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "daxpby argument 6"); 
}
static void use_daxpby()
{
    prepare(7);
    BlasInterface<IntelMKL, daxpby>()((const int*)&arg[0], (const double*)&arg[1], (const double*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (double*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 31, "daxpby calls the function of its name once");
    sv_assert(written<double>(5), "daxpby output argument 5");
    sv_assert(daxpby::name() == "daxpby", "name of daxpby");
}
extern "C" void dcopy_(const int* v0, const double* v1, const int* v2, double* v3, const int* v4)
{
    ++calls; called = 32;
    sv_assert(seen(v0, 0), "dcopy argument 0"); 
    sv_assert(seen(v1, 1), "dcopy argument 1"); 
    sv_assert(seen(v2, 2), "dcopy argument 2"); 
    sv_assert(seen(v3, 3), "dcopy argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "dcopy argument 4"); 
}
static void use_dcopy()
{
    prepare(5);
    BlasInterface<IntelMKL, dcopy>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2], (double*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 32, "dcopy calls the function of its name once");
    sv_assert(written<double>(3), "dcopy output argument 3");
    sv_assert(dcopy::name() == "dcopy", "name of dcopy");
}
static double ret_ddot;
extern "C" double ddot_(const int* v0, const double* v1, const int* v2, const double* v3, const int* v4)
{
    ++calls; called = 33;
    sv_assert(seen(v0, 0), "ddot argument 0"); 
    sv_assert(seen(v1, 1), "ddot argument 1"); 
    sv_assert(seen(v2, 2), "ddot argument 2"); 
    sv_assert(seen(v3, 3), "ddot argument 3"); 
    sv_assert(seen(v4, 4), "ddot argument 4"); 
    return ret_ddot;
}
static void use_ddot()
{
    prepare(5); ret_ddot = sv_rawd("result");
    double r = BlasInterface<IntelMKL, ddot>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2], (const double*)&arg[3], (const int*)&arg[4]); sv_assert(sv_same(r, ret_ddot), "ddot result");
    sv_assert(calls == 1 && called == 33, "ddot calls the function of its name once");
    sv_assert(ddot::name() == "ddot", "name of ddot");
}
static double ret_dsdot;
extern "C" double dsdot_(const int* v0, const float* v1, const int* v2, const float* v3, const int* v4)
{
    ++calls; called = 34;
    sv_assert(seen(v0, 0), "dsdot argument 0"); 
    sv_assert(seen(v1, 1), "dsdot argument 1"); 
    sv_assert(seen(v2, 2), "dsdot argument 2"); 
    sv_assert(seen(v3, 3), "dsdot argument 3"); 
    sv_assert(seen(v4, 4), "dsdot argument 4"); 
    return ret_dsdot;
}
static void use_dsdot()
{
    prepare(5); ret_dsdot = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dsdot>()((const int*)&arg[0], (const float*)&arg[1], (const int*)&arg[2], (const float*)&arg[3], (const int*)&arg[4]); sv_assert(sv_same(r, ret_dsdot), "dsdot result");
    sv_assert(calls == 1 && called == 34, "dsdot calls the function of its name once");
    sv_assert(dsdot::name() == "dsdot", "name of dsdot");
}
static double ret_dnrm2;
extern "C" double dnrm2_(const int* v0, const double* v1, const int* v2)
{
    ++calls; called = 35;
    sv_assert(seen(v0, 0), "dnrm2 argument 0"); 
    sv_assert(seen(v1, 1), "dnrm2 argument 1"); 
    sv_assert(seen(v2, 2), "dnrm2 argument 2"); 
    return ret_dnrm2;
}
static void use_dnrm2()
{
    prepare(3); ret_dnrm2 = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dnrm2>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_dnrm2), "dnrm2 result");
    sv_assert(calls == 1 && called == 35, "dnrm2 calls the function of its name once");
    sv_assert(dnrm2::name() == "dnrm2", "name of dnrm2");
}
extern "C" void drot_(const int* v0, double* v1, const int* v2, double* v3, const int* v4, const double* v5, const double* v6)
{
    ++calls; called = 36;
    sv_assert(seen(v0, 0), "drot argument 0"); 
    sv_assert(seen(v1, 1), "drot argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "drot argument 2"); 
    sv_assert(seen(v3, 3), "drot argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "drot argument 4"); 
    sv_assert(seen(v5, 5), "drot argument 5"); 
    sv_assert(seen(v6, 6), "drot argument 6"); 
}
static void use_drot()
{
    prepare(7);
    BlasInterface<IntelMKL, drot>()((const int*)&arg[0], (double*)&arg[1], (const int*)&arg[2], (double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const double*)&arg[6]);
    sv_assert(calls == 1 && called == 36, "drot calls the function of its name once");
    sv_assert(written<double>(1), "drot output argument 1");
    sv_assert(written<double>(3), "drot output argument 3");
    sv_assert(drot::name() == "drot", "name of drot");
}
extern "C" void drotg_(double* v0, double* v1, double* v2, double* v3)
{
    ++calls; called = 37;
    sv_assert(seen(v0, 0), "drotg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "drotg argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "drotg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "drotg argument 3"); writes(v3, 3);
}
static void use_drotg()
{
    prepare(4);
    BlasInterface<IntelMKL, drotg>()((double*)&arg[0], (double*)&arg[1], (double*)&arg[2], (double*)&arg[3]);
    sv_assert(calls == 1 && called == 37, "drotg calls the function of its name once");
    sv_assert(written<double>(0), "drotg output argument 0");
    sv_assert(written<double>(1), "drotg output argument 1");
    sv_assert(written<double>(2), "drotg output argument 2");
    sv_assert(written<double>(3), "drotg output argument 3");
    sv_assert(drotg::name() == "drotg", "name of drotg");
}
extern "C" void drotm_(const int* v0, double* v1, const int* v2, double* v3, const int* v4, const double* v5)
{
    ++calls; called = 38;
    sv_assert(seen(v0, 0), "drotm argument 0"); 
    sv_assert(seen(v1, 1), "drotm argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "drotm argument 2"); 
    sv_assert(seen(v3, 3), "drotm argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "drotm argument 4"); 
    sv_assert(seen(v5, 5), "drotm argument 5"); 
}
static void use_drotm()
{
    prepare(6);
    BlasInterface<IntelMKL, drotm>()((const int*)&arg[0], (double*)&arg[1], (const int*)&arg[2], (double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5]);
    sv_assert(calls == 1 && called == 38, "drotm calls the function of its name once");
    sv_assert(written<double>(1), "drotm output argument 1");
    sv_assert(written<double>(3), "drotm output argument 3");
    sv_assert(drotm::name() == "drotm", "name of drotm");
}
extern "C" void drotmg_(double* v0, double* v1, double* v2, const double* v3, double* v4)
{
    ++calls; called = 39;
    sv_assert(seen(v0, 0), "drotmg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "drotmg argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "drotmg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "drotmg argument 3"); 
    sv_assert(seen(v4, 4), "drotmg argument 4"); writes(v4, 4);
}
static void use_drotmg()
{
    prepare(5);
    BlasInterface<IntelMKL, drotmg>()((double*)&arg[0], (double*)&arg[1], (double*)&arg[2], (const double*)&arg[3], (double*)&arg[4]);
    sv_assert(calls == 1 && called == 39, "drotmg calls the function of its name once");
    sv_assert(written<double>(0), "drotmg output argument 0");
    sv_assert(written<double>(1), "drotmg output argument 1");
    sv_assert(written<double>(2), "drotmg output argument 2");
    sv_assert(written<double>(4), "drotmg output argument 4");
    sv_assert(drotmg::name() == "drotmg", "name of drotmg");
}
extern "C" void dscal_(const int* v0, const double* v1, double* v2, const int* v3)
{
    ++calls; called = 40;
    sv_assert(seen(v0, 0), "dscal argument 0"); 
    sv_assert(seen(v1, 1), "dscal argument 1"); 
    sv_assert(seen(v2, 2), "dscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "dscal argument 3"); 
}
static void use_dscal()
{
    prepare(4);
    BlasInterface<IntelMKL, dscal>()((const int*)&arg[0], (const double*)&arg[1], (double*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 40, "dscal calls the function of its name once");
    sv_assert(written<double>(2), "dscal output argument 2");
    sv_assert(dscal::name() == "dscal", "name of dscal");
}
extern "C" void dswap_(const int* v0, double* v1, const int* v2, double* v3, const int* v4)
{
    ++calls; called = 41;
    sv_assert(seen(v0, 0), "dswap argument 0"); 
    sv_assert(seen(v1, 1), "dswap argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "dswap argument 2"); 
    sv_assert(seen(v3, 3), "dswap argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "dswap argument 4"); 
}
static void use_dswap()
{
    prepare(5);
    BlasInterface<IntelMKL, dswap>()((const int*)&arg[0], (double*)&arg[1], (const int*)&arg[2], (double*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 41, "dswap calls the function of its name once");
    sv_assert(written<double>(1), "dswap output argument 1");
    sv_assert(written<double>(3), "dswap output argument 3");
    sv_assert(dswap::name() == "dswap", "name of dswap");
}
static double ret_dzasum;
extern "C" double dzasum_(const int* v0, const std::complex<double>* v1, const int* v2)
{
    ++calls; called = 42;
    sv_assert(seen(v0, 0), "dzasum argument 0"); 
    sv_assert(seen(v1, 1), "dzasum argument 1"); 
    sv_assert(seen(v2, 2), "dzasum argument 2"); 
    return ret_dzasum;
}
static void use_dzasum()
{
    prepare(3); ret_dzasum = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dzasum>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_dzasum), "dzasum result");
    sv_assert(calls == 1 && called == 42, "dzasum calls the function of its name once");
    sv_assert(dzasum::name() == "dzasum", "name of dzasum");
}
static double ret_dznrm2;
extern "C" double dznrm2_(const int* v0, const std::complex<double>* v1, const int* v2)
{
    ++calls; called = 43;
    sv_assert(seen(v0, 0), "dznrm2 argument 0"); 
    sv_assert(seen(v1, 1), "dznrm2 argument 1"); 
    sv_assert(seen(v2, 2), "dznrm2 argument 2"); 
    return ret_dznrm2;
}
static void use_dznrm2()
{
    prepare(3); ret_dznrm2 = sv_rawd("result");
    double r = BlasInterface<IntelMKL, dznrm2>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_dznrm2), "dznrm2 result");
    sv_assert(calls == 1 && called == 43, "dznrm2 calls the function of its name once");
    sv_assert(dznrm2::name() == "dznrm2", "name of dznrm2");
}
static int ret_idamax;
extern "C" int idamax_(const int* v0, const double* v1, const int* v2)
{
    ++calls; called = 44;
    sv_assert(seen(v0, 0), "idamax argument 0"); 
    sv_assert(seen(v1, 1), "idamax argument 1"); 
    sv_assert(seen(v2, 2), "idamax argument 2"); 
    return ret_idamax;
}
static void use_idamax()
{
    prepare(3); ret_idamax = sv_i32("result");
    int r = BlasInterface<IntelMKL, idamax>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_idamax), "idamax result");
    sv_assert(calls == 1 && called == 44, "idamax calls the function of its name once");
    sv_assert(idamax::name() == "idamax", "name of idamax");
}
static int ret_idamin;
extern "C" int idamin_(const int* v0, const double* v1, const int* v2)
{
    ++calls; called = 45;
    sv_assert(seen(v0, 0), "idamin argument 0"); 
    sv_assert(seen(v1, 1), "idamin argument 1"); 
    sv_assert(seen(v2, 2), "idamin argument 2"); 
    return ret_idamin;
}
static void use_idamin()
{
    prepare(3); ret_idamin = sv_i32("result");
    int r = BlasInterface<IntelMKL, idamin>()((const int*)&arg[0], (const double*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_idamin), "idamin result");
    sv_assert(calls == 1 && called == 45, "idamin calls the function of its name once");
    sv_assert(idamin::name() == "idamin", "name of idamin");
}
extern "C" void zaxpy_(const int* v0, const std::complex<double>* v1, const std::complex<double>* v2, const int* v3, std::complex<double>* v4, const int* v5)
{
    ++calls; called = 46;
    sv_assert(seen(v0, 0), "zaxpy argument 0"); 
    sv_assert(seen(v1, 1), "zaxpy argument 1"); 
    sv_assert(seen(v2, 2), "zaxpy argument 2"); 
    sv_assert(seen(v3, 3), "zaxpy argument 3"); 
    sv_assert(seen(v4, 4), "zaxpy argument 4"); writes(v4, 4);
    sv_assert(seen(v5, 5), "zaxpy argument 5"); 
}
static void use_zaxpy()
{
    prepare(6);
    BlasInterface<IntelMKL, zaxpy>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const std::complex<double>*)&arg[2], (const int*)&arg[3], (std::complex<double>*)&arg[4], (const int*)&arg[5]);
    sv_assert(calls == 1 && called == 46, "zaxpy calls the function of its name once");
    sv_assert(written<std::complex<double>>(4), "zaxpy output argument 4");
    sv_assert(zaxpy::name() == "zaxpy", "name of zaxpy");
}
extern "C" void zaxpby_(const int* v0, const std::complex<double>* v1, const std::complex<double>* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6)
{
    ++calls; called = 47;
    sv_assert(seen(v0, 0), "zaxpby argument 0"); 
    sv_assert(seen(v1, 1), "zaxpby argument 1"); 
    sv_assert(seen(v2, 2), "zaxpby argument 2"); 
    sv_assert(seen(v3, 3), "zaxpby argument 3"); 
    sv_assert(seen(v4, 4), "zaxpby argument 4"); 
    sv_assert(seen(v5, 5), "zaxpby argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "zaxpby argument 6"); 
}
static void use_zaxpby()
{
    prepare(7);
    BlasInterface<IntelMKL, zaxpby>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const std::complex<double>*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (std::complex<double>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 47, "zaxpby calls the function of its name once");
    sv_assert(written<std::complex<double>>(5), "zaxpby output argument 5");
    sv_assert(zaxpby::name() == "zaxpby", "name of zaxpby");
}
extern "C" void zcopy_(const int* v0, const std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4)
{
    ++calls; called = 48;
    sv_assert(seen(v0, 0), "zcopy argument 0"); 
    sv_assert(seen(v1, 1), "zcopy argument 1"); 
    sv_assert(seen(v2, 2), "zcopy argument 2"); 
    sv_assert(seen(v3, 3), "zcopy argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "zcopy argument 4"); 
}
static void use_zcopy()
{
    prepare(5);
    BlasInterface<IntelMKL, zcopy>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const int*)&arg[2], (std::complex<double>*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 48, "zcopy calls the function of its name once");
    sv_assert(written<std::complex<double>>(3), "zcopy output argument 3");
    sv_assert(zcopy::name() == "zcopy", "name of zcopy");
}
extern "C" void zdrot_(const int* v0, std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4, const double* v5, const double* v6)
{
    ++calls; called = 49;
    sv_assert(seen(v0, 0), "zdrot argument 0"); 
    sv_assert(seen(v1, 1), "zdrot argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "zdrot argument 2"); 
    sv_assert(seen(v3, 3), "zdrot argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "zdrot argument 4"); 
    sv_assert(seen(v5, 5), "zdrot argument 5"); 
    sv_assert(seen(v6, 6), "zdrot argument 6"); 
}
static void use_zdrot()
{
    prepare(7);
    BlasInterface<IntelMKL, zdrot>()((const int*)&arg[0], (std::complex<double>*)&arg[1], (const int*)&arg[2], (std::complex<double>*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const double*)&arg[6]);
    sv_assert(calls == 1 && called == 49, "zdrot calls the function of its name once");
    sv_assert(written<std::complex<double>>(1), "zdrot output argument 1");
    sv_assert(written<std::complex<double>>(3), "zdrot output argument 3");
    sv_assert(zdrot::name() == "zdrot", "name of zdrot");
}
extern "C" void zdscal_(const int* v0, const double* v1, std::complex<double>* v2, const int* v3)
{
    ++calls; called = 50;
    sv_assert(seen(v0, 0), "zdscal argument 0"); 
    sv_assert(seen(v1, 1), "zdscal argument 1"); 
    sv_assert(seen(v2, 2), "zdscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "zdscal argument 3"); 
}
static void use_zdscal()
{
    prepare(4);
    BlasInterface<IntelMKL, zdscal>()((const int*)&arg[0], (const double*)&arg[1], (std::complex<double>*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 50, "zdscal calls the function of its name once");
    sv_assert(written<std::complex<double>>(2), "zdscal output argument 2");
    sv_assert(zdscal::name() == "zdscal", "name of zdscal");
}
extern "C" void zrotg_(std::complex<double>* v0, const std::complex<double>* v1, double* v2, std::complex<double>* v3)
{
    ++calls; called = 51;
    sv_assert(seen(v0, 0), "zrotg argument 0"); writes(v0, 0);
    sv_assert(seen(v1, 1), "zrotg argument 1"); 
    sv_assert(seen(v2, 2), "zrotg argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "zrotg argument 3"); writes(v3, 3);
}
static void use_zrotg()
{
    prepare(4);
    BlasInterface<IntelMKL, zrotg>()((std::complex<double>*)&arg[0], (const std::complex<double>*)&arg[1], (double*)&arg[2], (std::complex<double>*)&arg[3]);
    sv_assert(calls == 1 && called == 51, "zrotg calls the function of its name once");
    sv_assert(written<std::complex<double>>(0), "zrotg output argument 0");
    sv_assert(written<double>(2), "zrotg output argument 2");
    sv_assert(written<std::complex<double>>(3), "zrotg output argument 3");
    sv_assert(zrotg::name() == "zrotg", "name of zrotg");
}
extern "C" void zscal_(const int* v0, const std::complex<double>* v1, std::complex<double>* v2, const int* v3)
{
    ++calls; called = 52;
    sv_assert(seen(v0, 0), "zscal argument 0"); 
    sv_assert(seen(v1, 1), "zscal argument 1"); 
    sv_assert(seen(v2, 2), "zscal argument 2"); writes(v2, 2);
    sv_assert(seen(v3, 3), "zscal argument 3"); 
}
static void use_zscal()
{
    prepare(4);
    BlasInterface<IntelMKL, zscal>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (std::complex<double>*)&arg[2], (const int*)&arg[3]);
    sv_assert(calls == 1 && called == 52, "zscal calls the function of its name once");
    sv_assert(written<std::complex<double>>(2), "zscal output argument 2");
    sv_assert(zscal::name() == "zscal", "name of zscal");
}
extern "C" void zswap_(const int* v0, std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4)
{
    ++calls; called = 53;
    sv_assert(seen(v0, 0), "zswap argument 0"); 
    sv_assert(seen(v1, 1), "zswap argument 1"); writes(v1, 1);
    sv_assert(seen(v2, 2), "zswap argument 2"); 
    sv_assert(seen(v3, 3), "zswap argument 3"); writes(v3, 3);
    sv_assert(seen(v4, 4), "zswap argument 4"); 
}
static void use_zswap()
{
    prepare(5);
    BlasInterface<IntelMKL, zswap>()((const int*)&arg[0], (std::complex<double>*)&arg[1], (const int*)&arg[2], (std::complex<double>*)&arg[3], (const int*)&arg[4]);
    sv_assert(calls == 1 && called == 53, "zswap calls the function of its name once");
    sv_assert(written<std::complex<double>>(1), "zswap output argument 1");
    sv_assert(written<std::complex<double>>(3), "zswap output argument 3");
    sv_assert(zswap::name() == "zswap", "name of zswap");
}
static int ret_izamax;
extern "C" int izamax_(const int* v0, const std::complex<double>* v1, const int* v2)
{
    ++calls; called = 54;
    sv_assert(seen(v0, 0), "izamax argument 0"); 
    sv_assert(seen(v1, 1), "izamax argument 1"); 
    sv_assert(seen(v2, 2), "izamax argument 2"); 
    return ret_izamax;
}
static void use_izamax()
{
    prepare(3); ret_izamax = sv_i32("result");
    int r = BlasInterface<IntelMKL, izamax>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_izamax), "izamax result");
    sv_assert(calls == 1 && called == 54, "izamax calls the function of its name once");
    sv_assert(izamax::name() == "izamax", "name of izamax");
}
static int ret_izamin;
extern "C" int izamin_(const int* v0, const std::complex<double>* v1, const int* v2)
{
    ++calls; called = 55;
    sv_assert(seen(v0, 0), "izamin argument 0"); 
    sv_assert(seen(v1, 1), "izamin argument 1"); 
    sv_assert(seen(v2, 2), "izamin argument 2"); 
    return ret_izamin;
}
static void use_izamin()
{
    prepare(3); ret_izamin = sv_i32("result");
    int r = BlasInterface<IntelMKL, izamin>()((const int*)&arg[0], (const std::complex<double>*)&arg[1], (const int*)&arg[2]); sv_assert(sv_same(r, ret_izamin), "izamin result");
    sv_assert(calls == 1 && called == 55, "izamin calls the function of its name once");
    sv_assert(izamin::name() == "izamin", "name of izamin");
}
extern "C" void sgbmv_(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const float* v5, const float* v6, const int* v7, const float* v8, const int* v9, const float* v10, float* v11, const int* v12)
{
    ++calls; called = 56;
    sv_assert(seen(v0, 0), "sgbmv argument 0"); 
    sv_assert(seen(v1, 1), "sgbmv argument 1"); 
    sv_assert(seen(v2, 2), "sgbmv argument 2"); 
    sv_assert(seen(v3, 3), "sgbmv argument 3"); 
    sv_assert(seen(v4, 4), "sgbmv argument 4"); 
    sv_assert(seen(v5, 5), "sgbmv argument 5"); 
    sv_assert(seen(v6, 6), "sgbmv argument 6"); 
    sv_assert(seen(v7, 7), "sgbmv argument 7"); 
    sv_assert(seen(v8, 8), "sgbmv argument 8"); 
    sv_assert(seen(v9, 9), "sgbmv argument 9"); 
    sv_assert(seen(v10, 10), "sgbmv argument 10"); 
    sv_assert(seen(v11, 11), "sgbmv argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "sgbmv argument 12"); 
}
static void use_sgbmv()
{
    prepare(13);
    BlasInterface<IntelMKL, sgbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const float*)&arg[6], (const int*)&arg[7], (const float*)&arg[8], (const int*)&arg[9], (const float*)&arg[10], (float*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 56, "sgbmv calls the function of its name once");
    sv_assert(written<float>(11), "sgbmv output argument 11");
    sv_assert(sgbmv::name() == "sgbmv", "name of sgbmv");
}
extern "C" void sgemv_(const char* v0, const int* v1, const int* v2, const float* v3, const float* v4, const int* v5, const float* v6, const int* v7, const float* v8, float* v9, const int* v10)
{
    ++calls; called = 57;
    sv_assert(seen(v0, 0), "sgemv argument 0"); 
    sv_assert(seen(v1, 1), "sgemv argument 1"); 
    sv_assert(seen(v2, 2), "sgemv argument 2"); 
    sv_assert(seen(v3, 3), "sgemv argument 3"); 
    sv_assert(seen(v4, 4), "sgemv argument 4"); 
    sv_assert(seen(v5, 5), "sgemv argument 5"); 
    sv_assert(seen(v6, 6), "sgemv argument 6"); 
    sv_assert(seen(v7, 7), "sgemv argument 7"); 
    sv_assert(seen(v8, 8), "sgemv argument 8"); 
    sv_assert(seen(v9, 9), "sgemv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "sgemv argument 10"); 
}
static void use_sgemv()
{
    prepare(11);
    BlasInterface<IntelMKL, sgemv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const float*)&arg[3], (const float*)&arg[4], (const int*)&arg[5], (const float*)&arg[6], (const int*)&arg[7], (const float*)&arg[8], (float*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 57, "sgemv calls the function of its name once");
    sv_assert(written<float>(9), "sgemv output argument 9");
    sv_assert(sgemv::name() == "sgemv", "name of sgemv");
}
extern "C" void sger_(const int* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8)
{
    ++calls; called = 58;
    sv_assert(seen(v0, 0), "sger argument 0"); 
    sv_assert(seen(v1, 1), "sger argument 1"); 
    sv_assert(seen(v2, 2), "sger argument 2"); 
    sv_assert(seen(v3, 3), "sger argument 3"); 
    sv_assert(seen(v4, 4), "sger argument 4"); 
    sv_assert(seen(v5, 5), "sger argument 5"); 
    sv_assert(seen(v6, 6), "sger argument 6"); 
    sv_assert(seen(v7, 7), "sger argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "sger argument 8"); 
}
static void use_sger()
{
    prepare(9);
    BlasInterface<IntelMKL, sger>()((const int*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (float*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 58, "sger calls the function of its name once");
    sv_assert(written<float>(7), "sger output argument 7");
    sv_assert(sger::name() == "sger", "name of sger");
}
extern "C" void ssbmv_(const char* v0, const int* v1, const int* v2, const float* v3, const float* v4, const int* v5, const float* v6, const int* v7, const float* v8, float* v9, const int* v10)
{
    ++calls; called = 59;
    sv_assert(seen(v0, 0), "ssbmv argument 0"); 
    sv_assert(seen(v1, 1), "ssbmv argument 1"); 
    sv_assert(seen(v2, 2), "ssbmv argument 2"); 
    sv_assert(seen(v3, 3), "ssbmv argument 3"); 
    sv_assert(seen(v4, 4), "ssbmv argument 4"); 
    sv_assert(seen(v5, 5), "ssbmv argument 5"); 
    sv_assert(seen(v6, 6), "ssbmv argument 6"); 
    sv_assert(seen(v7, 7), "ssbmv argument 7"); 
    sv_assert(seen(v8, 8), "ssbmv argument 8"); 
    sv_assert(seen(v9, 9), "ssbmv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "ssbmv argument 10"); 
}
static void use_ssbmv()
{
    prepare(11);
    BlasInterface<IntelMKL, ssbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const float*)&arg[3], (const float*)&arg[4], (const int*)&arg[5], (const float*)&arg[6], (const int*)&arg[7], (const float*)&arg[8], (float*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 59, "ssbmv calls the function of its name once");
    sv_assert(written<float>(9), "ssbmv output argument 9");
    sv_assert(ssbmv::name() == "ssbmv", "name of ssbmv");
}
extern "C" void sspmv_(const char* v0, const int* v1, const float* v2, const float* v3, const float* v4, const int* v5, const float* v6, float* v7, const int* v8)
{
    ++calls; called = 60;
    sv_assert(seen(v0, 0), "sspmv argument 0"); 
    sv_assert(seen(v1, 1), "sspmv argument 1"); 
    sv_assert(seen(v2, 2), "sspmv argument 2"); 
    sv_assert(seen(v3, 3), "sspmv argument 3"); 
    sv_assert(seen(v4, 4), "sspmv argument 4"); 
    sv_assert(seen(v5, 5), "sspmv argument 5"); 
    sv_assert(seen(v6, 6), "sspmv argument 6"); 
    sv_assert(seen(v7, 7), "sspmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "sspmv argument 8"); 
}
static void use_sspmv()
{
    prepare(9);
    BlasInterface<IntelMKL, sspmv>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const float*)&arg[4], (const int*)&arg[5], (const float*)&arg[6], (float*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 60, "sspmv calls the function of its name once");
    sv_assert(written<float>(7), "sspmv output argument 7");
    sv_assert(sspmv::name() == "sspmv", "name of sspmv");
}
extern "C" void sspr_(const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, float* v5)
{
    ++calls; called = 61;
    sv_assert(seen(v0, 0), "sspr argument 0"); 
    sv_assert(seen(v1, 1), "sspr argument 1"); 
    sv_assert(seen(v2, 2), "sspr argument 2"); 
    sv_assert(seen(v3, 3), "sspr argument 3"); 
    sv_assert(seen(v4, 4), "sspr argument 4"); 
    sv_assert(seen(v5, 5), "sspr argument 5"); writes(v5, 5);
}
static void use_sspr()
{
    prepare(6);
    BlasInterface<IntelMKL, sspr>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (float*)&arg[5]);
    sv_assert(calls == 1 && called == 61, "sspr calls the function of its name once");
    sv_assert(written<float>(5), "sspr output argument 5");
    sv_assert(sspr::name() == "sspr", "name of sspr");
}
extern "C" void sspr2_(const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7)
{
    ++calls; called = 62;
    sv_assert(seen(v0, 0), "sspr2 argument 0"); 
    sv_assert(seen(v1, 1), "sspr2 argument 1"); 
    sv_assert(seen(v2, 2), "sspr2 argument 2"); 
    sv_assert(seen(v3, 3), "sspr2 argument 3"); 
    sv_assert(seen(v4, 4), "sspr2 argument 4"); 
    sv_assert(seen(v5, 5), "sspr2 argument 5"); 
    sv_assert(seen(v6, 6), "sspr2 argument 6"); 
    sv_assert(seen(v7, 7), "sspr2 argument 7"); writes(v7, 7);
}
static void use_sspr2()
{
    prepare(8);
    BlasInterface<IntelMKL, sspr2>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (float*)&arg[7]);
    sv_assert(calls == 1 && called == 62, "sspr2 calls the function of its name once");
    sv_assert(written<float>(7), "sspr2 output argument 7");
    sv_assert(sspr2::name() == "sspr2", "name of sspr2");
}
extern "C" void ssymv_(const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, const float* v7, float* v8, const int* v9)
{
    ++calls; called = 63;
    sv_assert(seen(v0, 0), "ssymv argument 0"); 
    sv_assert(seen(v1, 1), "ssymv argument 1"); 
    sv_assert(seen(v2, 2), "ssymv argument 2"); 
    sv_assert(seen(v3, 3), "ssymv argument 3"); 
    sv_assert(seen(v4, 4), "ssymv argument 4"); 
    sv_assert(seen(v5, 5), "ssymv argument 5"); 
    sv_assert(seen(v6, 6), "ssymv argument 6"); 
    sv_assert(seen(v7, 7), "ssymv argument 7"); 
    sv_assert(seen(v8, 8), "ssymv argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "ssymv argument 9"); 
}
static void use_ssymv()
{
    prepare(10);
    BlasInterface<IntelMKL, ssymv>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (const float*)&arg[7], (float*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 63, "ssymv calls the function of its name once");
    sv_assert(written<float>(8), "ssymv output argument 8");
    sv_assert(ssymv::name() == "ssymv", "name of ssymv");
}
extern "C" void ssyr_(const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, float* v5, const int* v6)
{
    ++calls; called = 64;
    sv_assert(seen(v0, 0), "ssyr argument 0"); 
    sv_assert(seen(v1, 1), "ssyr argument 1"); 
    sv_assert(seen(v2, 2), "ssyr argument 2"); 
    sv_assert(seen(v3, 3), "ssyr argument 3"); 
    sv_assert(seen(v4, 4), "ssyr argument 4"); 
    sv_assert(seen(v5, 5), "ssyr argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "ssyr argument 6"); 
}
static void use_ssyr()
{
    prepare(7);
    BlasInterface<IntelMKL, ssyr>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (float*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 64, "ssyr calls the function of its name once");
    sv_assert(written<float>(5), "ssyr output argument 5");
    sv_assert(ssyr::name() == "ssyr", "name of ssyr");
}
extern "C" void ssyr2_(const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8)
{
    ++calls; called = 65;
    sv_assert(seen(v0, 0), "ssyr2 argument 0"); 
    sv_assert(seen(v1, 1), "ssyr2 argument 1"); 
    sv_assert(seen(v2, 2), "ssyr2 argument 2"); 
    sv_assert(seen(v3, 3), "ssyr2 argument 3"); 
    sv_assert(seen(v4, 4), "ssyr2 argument 4"); 
    sv_assert(seen(v5, 5), "ssyr2 argument 5"); 
    sv_assert(seen(v6, 6), "ssyr2 argument 6"); 
    sv_assert(seen(v7, 7), "ssyr2 argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "ssyr2 argument 8"); 
}
static void use_ssyr2()
{
    prepare(9);
    BlasInterface<IntelMKL, ssyr2>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const float*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (float*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 65, "ssyr2 calls the function of its name once");
    sv_assert(written<float>(7), "ssyr2 output argument 7");
    sv_assert(ssyr2::name() == "ssyr2", "name of ssyr2");
}
extern "C" void stbmv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8)
{
    ++calls; called = 66;
    sv_assert(seen(v0, 0), "stbmv argument 0"); 
    sv_assert(seen(v1, 1), "stbmv argument 1"); 
    sv_assert(seen(v2, 2), "stbmv argument 2"); 
    sv_assert(seen(v3, 3), "stbmv argument 3"); 
    sv_assert(seen(v4, 4), "stbmv argument 4"); 
    sv_assert(seen(v5, 5), "stbmv argument 5"); 
    sv_assert(seen(v6, 6), "stbmv argument 6"); 
    sv_assert(seen(v7, 7), "stbmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "stbmv argument 8"); 
}
static void use_stbmv()
{
    prepare(9);
    BlasInterface<IntelMKL, stbmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (float*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 66, "stbmv calls the function of its name once");
    sv_assert(written<float>(7), "stbmv output argument 7");
    sv_assert(stbmv::name() == "stbmv", "name of stbmv");
}
extern "C" void stbsv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8)
{
    ++calls; called = 67;
    sv_assert(seen(v0, 0), "stbsv argument 0"); 
    sv_assert(seen(v1, 1), "stbsv argument 1"); 
    sv_assert(seen(v2, 2), "stbsv argument 2"); 
    sv_assert(seen(v3, 3), "stbsv argument 3"); 
    sv_assert(seen(v4, 4), "stbsv argument 4"); 
    sv_assert(seen(v5, 5), "stbsv argument 5"); 
    sv_assert(seen(v6, 6), "stbsv argument 6"); 
    sv_assert(seen(v7, 7), "stbsv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "stbsv argument 8"); 
}
static void use_stbsv()
{
    prepare(9);
    BlasInterface<IntelMKL, stbsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (float*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 67, "stbsv calls the function of its name once");
    sv_assert(written<float>(7), "stbsv output argument 7");
    sv_assert(stbsv::name() == "stbsv", "name of stbsv");
}
extern "C" void stpmv_(const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, float* v5, const int* v6)
{
    ++calls; called = 68;
    sv_assert(seen(v0, 0), "stpmv argument 0"); 
    sv_assert(seen(v1, 1), "stpmv argument 1"); 
    sv_assert(seen(v2, 2), "stpmv argument 2"); 
    sv_assert(seen(v3, 3), "stpmv argument 3"); 
    sv_assert(seen(v4, 4), "stpmv argument 4"); 
    sv_assert(seen(v5, 5), "stpmv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "stpmv argument 6"); 
}
static void use_stpmv()
{
    prepare(7);
    BlasInterface<IntelMKL, stpmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (float*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 68, "stpmv calls the function of its name once");
    sv_assert(written<float>(5), "stpmv output argument 5");
    sv_assert(stpmv::name() == "stpmv", "name of stpmv");
}
extern "C" void stpsv_(const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, float* v5, const int* v6)
{
    ++calls; called = 69;
    sv_assert(seen(v0, 0), "stpsv argument 0"); 
    sv_assert(seen(v1, 1), "stpsv argument 1"); 
    sv_assert(seen(v2, 2), "stpsv argument 2"); 
    sv_assert(seen(v3, 3), "stpsv argument 3"); 
    sv_assert(seen(v4, 4), "stpsv argument 4"); 
    sv_assert(seen(v5, 5), "stpsv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "stpsv argument 6"); 
}
static void use_stpsv()
{
    prepare(7);
    BlasInterface<IntelMKL, stpsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (float*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 69, "stpsv calls the function of its name once");
    sv_assert(written<float>(5), "stpsv output argument 5");
    sv_assert(stpsv::name() == "stpsv", "name of stpsv");
}
extern "C" void strmv_(const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, const int* v5, float* v6, const int* v7)
{
    ++calls; called = 70;
    sv_assert(seen(v0, 0), "strmv argument 0"); 
    sv_assert(seen(v1, 1), "strmv argument 1"); 
    sv_assert(seen(v2, 2), "strmv argument 2"); 
    sv_assert(seen(v3, 3), "strmv argument 3"); 
    sv_assert(seen(v4, 4), "strmv argument 4"); 
    sv_assert(seen(v5, 5), "strmv argument 5"); 
    sv_assert(seen(v6, 6), "strmv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "strmv argument 7"); 
}
static void use_strmv()
{
    prepare(8);
    BlasInterface<IntelMKL, strmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const int*)&arg[5], (float*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 70, "strmv calls the function of its name once");
    sv_assert(written<float>(6), "strmv output argument 6");
    sv_assert(strmv::name() == "strmv", "name of strmv");
}
extern "C" void strsv_(const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, const int* v5, float* v6, const int* v7)
{
    ++calls; called = 71;
    sv_assert(seen(v0, 0), "strsv argument 0"); 
    sv_assert(seen(v1, 1), "strsv argument 1"); 
    sv_assert(seen(v2, 2), "strsv argument 2"); 
    sv_assert(seen(v3, 3), "strsv argument 3"); 
    sv_assert(seen(v4, 4), "strsv argument 4"); 
    sv_assert(seen(v5, 5), "strsv argument 5"); 
    sv_assert(seen(v6, 6), "strsv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "strsv argument 7"); 
}
static void use_strsv()
{
    prepare(8);
    BlasInterface<IntelMKL, strsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const int*)&arg[5], (float*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 71, "strsv calls the function of its name once");
    sv_assert(written<float>(6), "strsv output argument 6");
    sv_assert(strsv::name() == "strsv", "name of strsv");
}
extern "C" void cgbmv_(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12)
{
    ++calls; called = 72;
    sv_assert(seen(v0, 0), "cgbmv argument 0"); 
    sv_assert(seen(v1, 1), "cgbmv argument 1"); 
    sv_assert(seen(v2, 2), "cgbmv argument 2"); 
    sv_assert(seen(v3, 3), "cgbmv argument 3"); 
    sv_assert(seen(v4, 4), "cgbmv argument 4"); 
    sv_assert(seen(v5, 5), "cgbmv argument 5"); 
    sv_assert(seen(v6, 6), "cgbmv argument 6"); 
    sv_assert(seen(v7, 7), "cgbmv argument 7"); 
    sv_assert(seen(v8, 8), "cgbmv argument 8"); 
    sv_assert(seen(v9, 9), "cgbmv argument 9"); 
    sv_assert(seen(v10, 10), "cgbmv argument 10"); 
    sv_assert(seen(v11, 11), "cgbmv argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "cgbmv argument 12"); 
}
static void use_cgbmv()
{
    prepare(13);
    BlasInterface<IntelMKL, cgbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const std::complex<float>*)&arg[6], (const int*)&arg[7], (const std::complex<float>*)&arg[8], (const int*)&arg[9], (const std::complex<float>*)&arg[10], (std::complex<float>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 72, "cgbmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(11), "cgbmv output argument 11");
    sv_assert(cgbmv::name() == "cgbmv", "name of cgbmv");
}
extern "C" void cgemv_(const char* v0, const int* v1, const int* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, std::complex<float>* v9, const int* v10)
{
    ++calls; called = 73;
    sv_assert(seen(v0, 0), "cgemv argument 0"); 
    sv_assert(seen(v1, 1), "cgemv argument 1"); 
    sv_assert(seen(v2, 2), "cgemv argument 2"); 
    sv_assert(seen(v3, 3), "cgemv argument 3"); 
    sv_assert(seen(v4, 4), "cgemv argument 4"); 
    sv_assert(seen(v5, 5), "cgemv argument 5"); 
    sv_assert(seen(v6, 6), "cgemv argument 6"); 
    sv_assert(seen(v7, 7), "cgemv argument 7"); 
    sv_assert(seen(v8, 8), "cgemv argument 8"); 
    sv_assert(seen(v9, 9), "cgemv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "cgemv argument 10"); 
}
static void use_cgemv()
{
    prepare(11);
    BlasInterface<IntelMKL, cgemv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const std::complex<float>*)&arg[3], (const std::complex<float>*)&arg[4], (const int*)&arg[5], (const std::complex<float>*)&arg[6], (const int*)&arg[7], (const std::complex<float>*)&arg[8], (std::complex<float>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 73, "cgemv calls the function of its name once");
    sv_assert(written<std::complex<float>>(9), "cgemv output argument 9");
    sv_assert(cgemv::name() == "cgemv", "name of cgemv");
}
extern "C" void cgerc_(const int* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 74;
    sv_assert(seen(v0, 0), "cgerc argument 0"); 
    sv_assert(seen(v1, 1), "cgerc argument 1"); 
    sv_assert(seen(v2, 2), "cgerc argument 2"); 
    sv_assert(seen(v3, 3), "cgerc argument 3"); 
    sv_assert(seen(v4, 4), "cgerc argument 4"); 
    sv_assert(seen(v5, 5), "cgerc argument 5"); 
    sv_assert(seen(v6, 6), "cgerc argument 6"); 
    sv_assert(seen(v7, 7), "cgerc argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "cgerc argument 8"); 
}
static void use_cgerc()
{
    prepare(9);
    BlasInterface<IntelMKL, cgerc>()((const int*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 74, "cgerc calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "cgerc output argument 7");
    sv_assert(cgerc::name() == "cgerc", "name of cgerc");
}
extern "C" void cgeru_(const int* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 75;
    sv_assert(seen(v0, 0), "cgeru argument 0"); 
    sv_assert(seen(v1, 1), "cgeru argument 1"); 
    sv_assert(seen(v2, 2), "cgeru argument 2"); 
    sv_assert(seen(v3, 3), "cgeru argument 3"); 
    sv_assert(seen(v4, 4), "cgeru argument 4"); 
    sv_assert(seen(v5, 5), "cgeru argument 5"); 
    sv_assert(seen(v6, 6), "cgeru argument 6"); 
    sv_assert(seen(v7, 7), "cgeru argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "cgeru argument 8"); 
}
static void use_cgeru()
{
    prepare(9);
    BlasInterface<IntelMKL, cgeru>()((const int*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 75, "cgeru calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "cgeru output argument 7");
    sv_assert(cgeru::name() == "cgeru", "name of cgeru");
}
extern "C" void chbmv_(const char* v0, const int* v1, const int* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, std::complex<float>* v9, const int* v10)
{
    ++calls; called = 76;
    sv_assert(seen(v0, 0), "chbmv argument 0"); 
    sv_assert(seen(v1, 1), "chbmv argument 1"); 
    sv_assert(seen(v2, 2), "chbmv argument 2"); 
    sv_assert(seen(v3, 3), "chbmv argument 3"); 
    sv_assert(seen(v4, 4), "chbmv argument 4"); 
    sv_assert(seen(v5, 5), "chbmv argument 5"); 
    sv_assert(seen(v6, 6), "chbmv argument 6"); 
    sv_assert(seen(v7, 7), "chbmv argument 7"); 
    sv_assert(seen(v8, 8), "chbmv argument 8"); 
    sv_assert(seen(v9, 9), "chbmv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "chbmv argument 10"); 
}
static void use_chbmv()
{
    prepare(11);
    BlasInterface<IntelMKL, chbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const std::complex<float>*)&arg[3], (const std::complex<float>*)&arg[4], (const int*)&arg[5], (const std::complex<float>*)&arg[6], (const int*)&arg[7], (const std::complex<float>*)&arg[8], (std::complex<float>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 76, "chbmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(9), "chbmv output argument 9");
    sv_assert(chbmv::name() == "chbmv", "name of chbmv");
}
extern "C" void chemv_(const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, std::complex<float>* v8, const int* v9)
{
    ++calls; called = 77;
    sv_assert(seen(v0, 0), "chemv argument 0"); 
    sv_assert(seen(v1, 1), "chemv argument 1"); 
    sv_assert(seen(v2, 2), "chemv argument 2"); 
    sv_assert(seen(v3, 3), "chemv argument 3"); 
    sv_assert(seen(v4, 4), "chemv argument 4"); 
    sv_assert(seen(v5, 5), "chemv argument 5"); 
    sv_assert(seen(v6, 6), "chemv argument 6"); 
    sv_assert(seen(v7, 7), "chemv argument 7"); 
    sv_assert(seen(v8, 8), "chemv argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "chemv argument 9"); 
}
static void use_chemv()
{
    prepare(10);
    BlasInterface<IntelMKL, chemv>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (std::complex<float>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 77, "chemv calls the function of its name once");
    sv_assert(written<std::complex<float>>(8), "chemv output argument 8");
    sv_assert(chemv::name() == "chemv", "name of chemv");
}
extern "C" void cher_(const char* v0, const int* v1, const float* v2, const std::complex<float>* v3, const int* v4, std::complex<float>* v5, const int* v6)
{
    ++calls; called = 78;
    sv_assert(seen(v0, 0), "cher argument 0"); 
    sv_assert(seen(v1, 1), "cher argument 1"); 
    sv_assert(seen(v2, 2), "cher argument 2"); 
    sv_assert(seen(v3, 3), "cher argument 3"); 
    sv_assert(seen(v4, 4), "cher argument 4"); 
    sv_assert(seen(v5, 5), "cher argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "cher argument 6"); 
}
static void use_cher()
{
    prepare(7);
    BlasInterface<IntelMKL, cher>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (std::complex<float>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 78, "cher calls the function of its name once");
    sv_assert(written<std::complex<float>>(5), "cher output argument 5");
    sv_assert(cher::name() == "cher", "name of cher");
}
extern "C" void cher2_(const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 79;
    sv_assert(seen(v0, 0), "cher2 argument 0"); 
    sv_assert(seen(v1, 1), "cher2 argument 1"); 
    sv_assert(seen(v2, 2), "cher2 argument 2"); 
    sv_assert(seen(v3, 3), "cher2 argument 3"); 
    sv_assert(seen(v4, 4), "cher2 argument 4"); 
    sv_assert(seen(v5, 5), "cher2 argument 5"); 
    sv_assert(seen(v6, 6), "cher2 argument 6"); 
    sv_assert(seen(v7, 7), "cher2 argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "cher2 argument 8"); 
}
static void use_cher2()
{
    prepare(9);
    BlasInterface<IntelMKL, cher2>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 79, "cher2 calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "cher2 output argument 7");
    sv_assert(cher2::name() == "cher2", "name of cher2");
}
extern "C" void chpmv_(const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 80;
    sv_assert(seen(v0, 0), "chpmv argument 0"); 
    sv_assert(seen(v1, 1), "chpmv argument 1"); 
    sv_assert(seen(v2, 2), "chpmv argument 2"); 
    sv_assert(seen(v3, 3), "chpmv argument 3"); 
    sv_assert(seen(v4, 4), "chpmv argument 4"); 
    sv_assert(seen(v5, 5), "chpmv argument 5"); 
    sv_assert(seen(v6, 6), "chpmv argument 6"); 
    sv_assert(seen(v7, 7), "chpmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "chpmv argument 8"); 
}
static void use_chpmv()
{
    prepare(9);
    BlasInterface<IntelMKL, chpmv>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const std::complex<float>*)&arg[4], (const int*)&arg[5], (const std::complex<float>*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 80, "chpmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "chpmv output argument 7");
    sv_assert(chpmv::name() == "chpmv", "name of chpmv");
}
extern "C" void chpr_(const char* v0, const int* v1, const float* v2, const std::complex<float>* v3, const int* v4, std::complex<float>* v5)
{
    ++calls; called = 81;
    sv_assert(seen(v0, 0), "chpr argument 0"); 
    sv_assert(seen(v1, 1), "chpr argument 1"); 
    sv_assert(seen(v2, 2), "chpr argument 2"); 
    sv_assert(seen(v3, 3), "chpr argument 3"); 
    sv_assert(seen(v4, 4), "chpr argument 4"); 
    sv_assert(seen(v5, 5), "chpr argument 5"); writes(v5, 5);
}
static void use_chpr()
{
    prepare(6);
    BlasInterface<IntelMKL, chpr>()((const char*)&arg[0], (const int*)&arg[1], (const float*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (std::complex<float>*)&arg[5]);
    sv_assert(calls == 1 && called == 81, "chpr calls the function of its name once");
    sv_assert(written<std::complex<float>>(5), "chpr output argument 5");
    sv_assert(chpr::name() == "chpr", "name of chpr");
}
extern "C" void chpr2_(const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7)
{
    ++calls; called = 82;
    sv_assert(seen(v0, 0), "chpr2 argument 0"); 
    sv_assert(seen(v1, 1), "chpr2 argument 1"); 
    sv_assert(seen(v2, 2), "chpr2 argument 2"); 
    sv_assert(seen(v3, 3), "chpr2 argument 3"); 
    sv_assert(seen(v4, 4), "chpr2 argument 4"); 
    sv_assert(seen(v5, 5), "chpr2 argument 5"); 
    sv_assert(seen(v6, 6), "chpr2 argument 6"); 
    sv_assert(seen(v7, 7), "chpr2 argument 7"); writes(v7, 7);
}
static void use_chpr2()
{
    prepare(8);
    BlasInterface<IntelMKL, chpr2>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<float>*)&arg[2], (const std::complex<float>*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7]);
    sv_assert(calls == 1 && called == 82, "chpr2 calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "chpr2 output argument 7");
    sv_assert(chpr2::name() == "chpr2", "name of chpr2");
}
extern "C" void ctbmv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 83;
    sv_assert(seen(v0, 0), "ctbmv argument 0"); 
    sv_assert(seen(v1, 1), "ctbmv argument 1"); 
    sv_assert(seen(v2, 2), "ctbmv argument 2"); 
    sv_assert(seen(v3, 3), "ctbmv argument 3"); 
    sv_assert(seen(v4, 4), "ctbmv argument 4"); 
    sv_assert(seen(v5, 5), "ctbmv argument 5"); 
    sv_assert(seen(v6, 6), "ctbmv argument 6"); 
    sv_assert(seen(v7, 7), "ctbmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "ctbmv argument 8"); 
}
static void use_ctbmv()
{
    prepare(9);
    BlasInterface<IntelMKL, ctbmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 83, "ctbmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "ctbmv output argument 7");
    sv_assert(ctbmv::name() == "ctbmv", "name of ctbmv");
}
extern "C" void ctbsv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8)
{
    ++calls; called = 84;
    sv_assert(seen(v0, 0), "ctbsv argument 0"); 
    sv_assert(seen(v1, 1), "ctbsv argument 1"); 
    sv_assert(seen(v2, 2), "ctbsv argument 2"); 
    sv_assert(seen(v3, 3), "ctbsv argument 3"); 
    sv_assert(seen(v4, 4), "ctbsv argument 4"); 
    sv_assert(seen(v5, 5), "ctbsv argument 5"); 
    sv_assert(seen(v6, 6), "ctbsv argument 6"); 
    sv_assert(seen(v7, 7), "ctbsv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "ctbsv argument 8"); 
}
static void use_ctbsv()
{
    prepare(9);
    BlasInterface<IntelMKL, ctbsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (std::complex<float>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 84, "ctbsv calls the function of its name once");
    sv_assert(written<std::complex<float>>(7), "ctbsv output argument 7");
    sv_assert(ctbsv::name() == "ctbsv", "name of ctbsv");
}
extern "C" void ctpmv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6)
{
    ++calls; called = 85;
    sv_assert(seen(v0, 0), "ctpmv argument 0"); 
    sv_assert(seen(v1, 1), "ctpmv argument 1"); 
    sv_assert(seen(v2, 2), "ctpmv argument 2"); 
    sv_assert(seen(v3, 3), "ctpmv argument 3"); 
    sv_assert(seen(v4, 4), "ctpmv argument 4"); 
    sv_assert(seen(v5, 5), "ctpmv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "ctpmv argument 6"); 
}
static void use_ctpmv()
{
    prepare(7);
    BlasInterface<IntelMKL, ctpmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (std::complex<float>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 85, "ctpmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(5), "ctpmv output argument 5");
    sv_assert(ctpmv::name() == "ctpmv", "name of ctpmv");
}
extern "C" void ctpsv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6)
{
    ++calls; called = 86;
    sv_assert(seen(v0, 0), "ctpsv argument 0"); 
    sv_assert(seen(v1, 1), "ctpsv argument 1"); 
    sv_assert(seen(v2, 2), "ctpsv argument 2"); 
    sv_assert(seen(v3, 3), "ctpsv argument 3"); 
    sv_assert(seen(v4, 4), "ctpsv argument 4"); 
    sv_assert(seen(v5, 5), "ctpsv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "ctpsv argument 6"); 
}
static void use_ctpsv()
{
    prepare(7);
    BlasInterface<IntelMKL, ctpsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (std::complex<float>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 86, "ctpsv calls the function of its name once");
    sv_assert(written<std::complex<float>>(5), "ctpsv output argument 5");
    sv_assert(ctpsv::name() == "ctpsv", "name of ctpsv");
}
extern "C" void ctrmv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, const int* v5, std::complex<float>* v6, const int* v7)
{
    ++calls; called = 87;
    sv_assert(seen(v0, 0), "ctrmv argument 0"); 
    sv_assert(seen(v1, 1), "ctrmv argument 1"); 
    sv_assert(seen(v2, 2), "ctrmv argument 2"); 
    sv_assert(seen(v3, 3), "ctrmv argument 3"); 
    sv_assert(seen(v4, 4), "ctrmv argument 4"); 
    sv_assert(seen(v5, 5), "ctrmv argument 5"); 
    sv_assert(seen(v6, 6), "ctrmv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "ctrmv argument 7"); 
}
static void use_ctrmv()
{
    prepare(8);
    BlasInterface<IntelMKL, ctrmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const int*)&arg[5], (std::complex<float>*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 87, "ctrmv calls the function of its name once");
    sv_assert(written<std::complex<float>>(6), "ctrmv output argument 6");
    sv_assert(ctrmv::name() == "ctrmv", "name of ctrmv");
}
extern "C" void ctrsv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, const int* v5, std::complex<float>* v6, const int* v7)
{
    ++calls; called = 88;
    sv_assert(seen(v0, 0), "ctrsv argument 0"); 
    sv_assert(seen(v1, 1), "ctrsv argument 1"); 
    sv_assert(seen(v2, 2), "ctrsv argument 2"); 
    sv_assert(seen(v3, 3), "ctrsv argument 3"); 
    sv_assert(seen(v4, 4), "ctrsv argument 4"); 
    sv_assert(seen(v5, 5), "ctrsv argument 5"); 
    sv_assert(seen(v6, 6), "ctrsv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "ctrsv argument 7"); 
}
static void use_ctrsv()
{
    prepare(8);
    BlasInterface<IntelMKL, ctrsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const int*)&arg[5], (std::complex<float>*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 88, "ctrsv calls the function of its name once");
    sv_assert(written<std::complex<float>>(6), "ctrsv output argument 6");
    sv_assert(ctrsv::name() == "ctrsv", "name of ctrsv");
}
extern "C" void dgbmv_(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const double* v5, const double* v6, const int* v7, const double* v8, const int* v9, const double* v10, double* v11, const int* v12)
{
    ++calls; called = 89;
    sv_assert(seen(v0, 0), "dgbmv argument 0"); 
    sv_assert(seen(v1, 1), "dgbmv argument 1"); 
    sv_assert(seen(v2, 2), "dgbmv argument 2"); 
    sv_assert(seen(v3, 3), "dgbmv argument 3"); 
    sv_assert(seen(v4, 4), "dgbmv argument 4"); 
    sv_assert(seen(v5, 5), "dgbmv argument 5"); 
    sv_assert(seen(v6, 6), "dgbmv argument 6"); 
    sv_assert(seen(v7, 7), "dgbmv argument 7"); 
    sv_assert(seen(v8, 8), "dgbmv argument 8"); 
    sv_assert(seen(v9, 9), "dgbmv argument 9"); 
    sv_assert(seen(v10, 10), "dgbmv argument 10"); 
    sv_assert(seen(v11, 11), "dgbmv argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "dgbmv argument 12"); 
}
static void use_dgbmv()
{
    prepare(13);
    BlasInterface<IntelMKL, dgbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const double*)&arg[6], (const int*)&arg[7], (const double*)&arg[8], (const int*)&arg[9], (const double*)&arg[10], (double*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 89, "dgbmv calls the function of its name once");
    sv_assert(written<double>(11), "dgbmv output argument 11");
    sv_assert(dgbmv::name() == "dgbmv", "name of dgbmv");
}
extern "C" void dgemv_(const char* v0, const int* v1, const int* v2, const double* v3, const double* v4, const int* v5, const double* v6, const int* v7, const double* v8, double* v9, const int* v10)
{
    ++calls; called = 90;
    sv_assert(seen(v0, 0), "dgemv argument 0"); 
    sv_assert(seen(v1, 1), "dgemv argument 1"); 
    sv_assert(seen(v2, 2), "dgemv argument 2"); 
    sv_assert(seen(v3, 3), "dgemv argument 3"); 
    sv_assert(seen(v4, 4), "dgemv argument 4"); 
    sv_assert(seen(v5, 5), "dgemv argument 5"); 
    sv_assert(seen(v6, 6), "dgemv argument 6"); 
    sv_assert(seen(v7, 7), "dgemv argument 7"); 
    sv_assert(seen(v8, 8), "dgemv argument 8"); 
    sv_assert(seen(v9, 9), "dgemv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "dgemv argument 10"); 
}
static void use_dgemv()
{
    prepare(11);
    BlasInterface<IntelMKL, dgemv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const double*)&arg[3], (const double*)&arg[4], (const int*)&arg[5], (const double*)&arg[6], (const int*)&arg[7], (const double*)&arg[8], (double*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 90, "dgemv calls the function of its name once");
    sv_assert(written<double>(9), "dgemv output argument 9");
    sv_assert(dgemv::name() == "dgemv", "name of dgemv");
}
extern "C" void dger_(const int* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8)
{
    ++calls; called = 91;
    sv_assert(seen(v0, 0), "dger argument 0"); 
    sv_assert(seen(v1, 1), "dger argument 1"); 
    sv_assert(seen(v2, 2), "dger argument 2"); 
    sv_assert(seen(v3, 3), "dger argument 3"); 
    sv_assert(seen(v4, 4), "dger argument 4"); 
    sv_assert(seen(v5, 5), "dger argument 5"); 
    sv_assert(seen(v6, 6), "dger argument 6"); 
    sv_assert(seen(v7, 7), "dger argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dger argument 8"); 
}
static void use_dger()
{
    prepare(9);
    BlasInterface<IntelMKL, dger>()((const int*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (double*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 91, "dger calls the function of its name once");
    sv_assert(written<double>(7), "dger output argument 7");
    sv_assert(dger::name() == "dger", "name of dger");
}
extern "C" void dsbmv_(const char* v0, const int* v1, const int* v2, const double* v3, const double* v4, const int* v5, const double* v6, const int* v7, const double* v8, double* v9, const int* v10)
{
    ++calls; called = 92;
    sv_assert(seen(v0, 0), "dsbmv argument 0"); 
    sv_assert(seen(v1, 1), "dsbmv argument 1"); 
    sv_assert(seen(v2, 2), "dsbmv argument 2"); 
    sv_assert(seen(v3, 3), "dsbmv argument 3"); 
    sv_assert(seen(v4, 4), "dsbmv argument 4"); 
    sv_assert(seen(v5, 5), "dsbmv argument 5"); 
    sv_assert(seen(v6, 6), "dsbmv argument 6"); 
    sv_assert(seen(v7, 7), "dsbmv argument 7"); 
    sv_assert(seen(v8, 8), "dsbmv argument 8"); 
    sv_assert(seen(v9, 9), "dsbmv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "dsbmv argument 10"); 
}
static void use_dsbmv()
{
    prepare(11);
    BlasInterface<IntelMKL, dsbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const double*)&arg[3], (const double*)&arg[4], (const int*)&arg[5], (const double*)&arg[6], (const int*)&arg[7], (const double*)&arg[8], (double*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 92, "dsbmv calls the function of its name once");
    sv_assert(written<double>(9), "dsbmv output argument 9");
    sv_assert(dsbmv::name() == "dsbmv", "name of dsbmv");
}
extern "C" void dspmv_(const char* v0, const int* v1, const double* v2, const double* v3, const double* v4, const int* v5, const double* v6, double* v7, const int* v8)
{
    ++calls; called = 93;
    sv_assert(seen(v0, 0), "dspmv argument 0"); 
    sv_assert(seen(v1, 1), "dspmv argument 1"); 
    sv_assert(seen(v2, 2), "dspmv argument 2"); 
    sv_assert(seen(v3, 3), "dspmv argument 3"); 
    sv_assert(seen(v4, 4), "dspmv argument 4"); 
    sv_assert(seen(v5, 5), "dspmv argument 5"); 
    sv_assert(seen(v6, 6), "dspmv argument 6"); 
    sv_assert(seen(v7, 7), "dspmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dspmv argument 8"); 
}
static void use_dspmv()
{
    prepare(9);
    BlasInterface<IntelMKL, dspmv>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const double*)&arg[4], (const int*)&arg[5], (const double*)&arg[6], (double*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 93, "dspmv calls the function of its name once");
    sv_assert(written<double>(7), "dspmv output argument 7");
    sv_assert(dspmv::name() == "dspmv", "name of dspmv");
}
extern "C" void dspr_(const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, double* v5)
{
    ++calls; called = 94;
    sv_assert(seen(v0, 0), "dspr argument 0"); 
    sv_assert(seen(v1, 1), "dspr argument 1"); 
    sv_assert(seen(v2, 2), "dspr argument 2"); 
    sv_assert(seen(v3, 3), "dspr argument 3"); 
    sv_assert(seen(v4, 4), "dspr argument 4"); 
    sv_assert(seen(v5, 5), "dspr argument 5"); writes(v5, 5);
}
static void use_dspr()
{
    prepare(6);
    BlasInterface<IntelMKL, dspr>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (double*)&arg[5]);
    sv_assert(calls == 1 && called == 94, "dspr calls the function of its name once");
    sv_assert(written<double>(5), "dspr output argument 5");
    sv_assert(dspr::name() == "dspr", "name of dspr");
}
extern "C" void dspr2_(const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7)
{
    ++calls; called = 95;
    sv_assert(seen(v0, 0), "dspr2 argument 0"); 
    sv_assert(seen(v1, 1), "dspr2 argument 1"); 
    sv_assert(seen(v2, 2), "dspr2 argument 2"); 
    sv_assert(seen(v3, 3), "dspr2 argument 3"); 
    sv_assert(seen(v4, 4), "dspr2 argument 4"); 
    sv_assert(seen(v5, 5), "dspr2 argument 5"); 
    sv_assert(seen(v6, 6), "dspr2 argument 6"); 
    sv_assert(seen(v7, 7), "dspr2 argument 7"); writes(v7, 7);
}
static void use_dspr2()
{
    prepare(8);
    BlasInterface<IntelMKL, dspr2>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (double*)&arg[7]);
    sv_assert(calls == 1 && called == 95, "dspr2 calls the function of its name once");
    sv_assert(written<double>(7), "dspr2 output argument 7");
    sv_assert(dspr2::name() == "dspr2", "name of dspr2");
}
extern "C" void dsymv_(const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, const double* v7, double* v8, const int* v9)
{
    ++calls; called = 96;
    sv_assert(seen(v0, 0), "dsymv argument 0"); 
    sv_assert(seen(v1, 1), "dsymv argument 1"); 
    sv_assert(seen(v2, 2), "dsymv argument 2"); 
    sv_assert(seen(v3, 3), "dsymv argument 3"); 
    sv_assert(seen(v4, 4), "dsymv argument 4"); 
    sv_assert(seen(v5, 5), "dsymv argument 5"); 
    sv_assert(seen(v6, 6), "dsymv argument 6"); 
    sv_assert(seen(v7, 7), "dsymv argument 7"); 
    sv_assert(seen(v8, 8), "dsymv argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "dsymv argument 9"); 
}
static void use_dsymv()
{
    prepare(10);
    BlasInterface<IntelMKL, dsymv>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (const double*)&arg[7], (double*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 96, "dsymv calls the function of its name once");
    sv_assert(written<double>(8), "dsymv output argument 8");
    sv_assert(dsymv::name() == "dsymv", "name of dsymv");
}
extern "C" void dsyr_(const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, double* v5, const int* v6)
{
    ++calls; called = 97;
    sv_assert(seen(v0, 0), "dsyr argument 0"); 
    sv_assert(seen(v1, 1), "dsyr argument 1"); 
    sv_assert(seen(v2, 2), "dsyr argument 2"); 
    sv_assert(seen(v3, 3), "dsyr argument 3"); 
    sv_assert(seen(v4, 4), "dsyr argument 4"); 
    sv_assert(seen(v5, 5), "dsyr argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "dsyr argument 6"); 
}
static void use_dsyr()
{
    prepare(7);
    BlasInterface<IntelMKL, dsyr>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (double*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 97, "dsyr calls the function of its name once");
    sv_assert(written<double>(5), "dsyr output argument 5");
    sv_assert(dsyr::name() == "dsyr", "name of dsyr");
}
extern "C" void dsyr2_(const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8)
{
    ++calls; called = 98;
    sv_assert(seen(v0, 0), "dsyr2 argument 0"); 
    sv_assert(seen(v1, 1), "dsyr2 argument 1"); 
    sv_assert(seen(v2, 2), "dsyr2 argument 2"); 
    sv_assert(seen(v3, 3), "dsyr2 argument 3"); 
    sv_assert(seen(v4, 4), "dsyr2 argument 4"); 
    sv_assert(seen(v5, 5), "dsyr2 argument 5"); 
    sv_assert(seen(v6, 6), "dsyr2 argument 6"); 
    sv_assert(seen(v7, 7), "dsyr2 argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dsyr2 argument 8"); 
}
static void use_dsyr2()
{
    prepare(9);
    BlasInterface<IntelMKL, dsyr2>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const double*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (double*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 98, "dsyr2 calls the function of its name once");
    sv_assert(written<double>(7), "dsyr2 output argument 7");
    sv_assert(dsyr2::name() == "dsyr2", "name of dsyr2");
}
extern "C" void dtbmv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8)
{
    ++calls; called = 99;
    sv_assert(seen(v0, 0), "dtbmv argument 0"); 
    sv_assert(seen(v1, 1), "dtbmv argument 1"); 
    sv_assert(seen(v2, 2), "dtbmv argument 2"); 
    sv_assert(seen(v3, 3), "dtbmv argument 3"); 
    sv_assert(seen(v4, 4), "dtbmv argument 4"); 
    sv_assert(seen(v5, 5), "dtbmv argument 5"); 
    sv_assert(seen(v6, 6), "dtbmv argument 6"); 
    sv_assert(seen(v7, 7), "dtbmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dtbmv argument 8"); 
}
static void use_dtbmv()
{
    prepare(9);
    BlasInterface<IntelMKL, dtbmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (double*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 99, "dtbmv calls the function of its name once");
    sv_assert(written<double>(7), "dtbmv output argument 7");
    sv_assert(dtbmv::name() == "dtbmv", "name of dtbmv");
}
extern "C" void dtbsv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8)
{
    ++calls; called = 100;
    sv_assert(seen(v0, 0), "dtbsv argument 0"); 
    sv_assert(seen(v1, 1), "dtbsv argument 1"); 
    sv_assert(seen(v2, 2), "dtbsv argument 2"); 
    sv_assert(seen(v3, 3), "dtbsv argument 3"); 
    sv_assert(seen(v4, 4), "dtbsv argument 4"); 
    sv_assert(seen(v5, 5), "dtbsv argument 5"); 
    sv_assert(seen(v6, 6), "dtbsv argument 6"); 
    sv_assert(seen(v7, 7), "dtbsv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dtbsv argument 8"); 
}
static void use_dtbsv()
{
    prepare(9);
    BlasInterface<IntelMKL, dtbsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (double*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 100, "dtbsv calls the function of its name once");
    sv_assert(written<double>(7), "dtbsv output argument 7");
    sv_assert(dtbsv::name() == "dtbsv", "name of dtbsv");
}
extern "C" void dtpmv_(const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, double* v5, const int* v6)
{
    ++calls; called = 101;
    sv_assert(seen(v0, 0), "dtpmv argument 0"); 
    sv_assert(seen(v1, 1), "dtpmv argument 1"); 
    sv_assert(seen(v2, 2), "dtpmv argument 2"); 
    sv_assert(seen(v3, 3), "dtpmv argument 3"); 
    sv_assert(seen(v4, 4), "dtpmv argument 4"); 
    sv_assert(seen(v5, 5), "dtpmv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "dtpmv argument 6"); 
}
static void use_dtpmv()
{
    prepare(7);
    BlasInterface<IntelMKL, dtpmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (double*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 101, "dtpmv calls the function of its name once");
    sv_assert(written<double>(5), "dtpmv output argument 5");
    sv_assert(dtpmv::name() == "dtpmv", "name of dtpmv");
}
extern "C" void dtpsv_(const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, double* v5, const int* v6)
{
    ++calls; called = 102;
    sv_assert(seen(v0, 0), "dtpsv argument 0"); 
    sv_assert(seen(v1, 1), "dtpsv argument 1"); 
    sv_assert(seen(v2, 2), "dtpsv argument 2"); 
    sv_assert(seen(v3, 3), "dtpsv argument 3"); 
    sv_assert(seen(v4, 4), "dtpsv argument 4"); 
    sv_assert(seen(v5, 5), "dtpsv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "dtpsv argument 6"); 
}
static void use_dtpsv()
{
    prepare(7);
    BlasInterface<IntelMKL, dtpsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (double*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 102, "dtpsv calls the function of its name once");
    sv_assert(written<double>(5), "dtpsv output argument 5");
    sv_assert(dtpsv::name() == "dtpsv", "name of dtpsv");
}
extern "C" void dtrmv_(const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, const int* v5, double* v6, const int* v7)
{
    ++calls; called = 103;
    sv_assert(seen(v0, 0), "dtrmv argument 0"); 
    sv_assert(seen(v1, 1), "dtrmv argument 1"); 
    sv_assert(seen(v2, 2), "dtrmv argument 2"); 
    sv_assert(seen(v3, 3), "dtrmv argument 3"); 
    sv_assert(seen(v4, 4), "dtrmv argument 4"); 
    sv_assert(seen(v5, 5), "dtrmv argument 5"); 
    sv_assert(seen(v6, 6), "dtrmv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "dtrmv argument 7"); 
}
static void use_dtrmv()
{
    prepare(8);
    BlasInterface<IntelMKL, dtrmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const int*)&arg[5], (double*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 103, "dtrmv calls the function of its name once");
    sv_assert(written<double>(6), "dtrmv output argument 6");
    sv_assert(dtrmv::name() == "dtrmv", "name of dtrmv");
}
extern "C" void dtrsv_(const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, const int* v5, double* v6, const int* v7)
{
    ++calls; called = 104;
    sv_assert(seen(v0, 0), "dtrsv argument 0"); 
    sv_assert(seen(v1, 1), "dtrsv argument 1"); 
    sv_assert(seen(v2, 2), "dtrsv argument 2"); 
    sv_assert(seen(v3, 3), "dtrsv argument 3"); 
    sv_assert(seen(v4, 4), "dtrsv argument 4"); 
    sv_assert(seen(v5, 5), "dtrsv argument 5"); 
    sv_assert(seen(v6, 6), "dtrsv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "dtrsv argument 7"); 
}
static void use_dtrsv()
{
    prepare(8);
    BlasInterface<IntelMKL, dtrsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const int*)&arg[5], (double*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 104, "dtrsv calls the function of its name once");
    sv_assert(written<double>(6), "dtrsv output argument 6");
    sv_assert(dtrsv::name() == "dtrsv", "name of dtrsv");
}
extern "C" void zgbmv_(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12)
{
    ++calls; called = 105;
    sv_assert(seen(v0, 0), "zgbmv argument 0"); 
    sv_assert(seen(v1, 1), "zgbmv argument 1"); 
    sv_assert(seen(v2, 2), "zgbmv argument 2"); 
    sv_assert(seen(v3, 3), "zgbmv argument 3"); 
    sv_assert(seen(v4, 4), "zgbmv argument 4"); 
    sv_assert(seen(v5, 5), "zgbmv argument 5"); 
    sv_assert(seen(v6, 6), "zgbmv argument 6"); 
    sv_assert(seen(v7, 7), "zgbmv argument 7"); 
    sv_assert(seen(v8, 8), "zgbmv argument 8"); 
    sv_assert(seen(v9, 9), "zgbmv argument 9"); 
    sv_assert(seen(v10, 10), "zgbmv argument 10"); 
    sv_assert(seen(v11, 11), "zgbmv argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "zgbmv argument 12"); 
}
static void use_zgbmv()
{
    prepare(13);
    BlasInterface<IntelMKL, zgbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const std::complex<double>*)&arg[6], (const int*)&arg[7], (const std::complex<double>*)&arg[8], (const int*)&arg[9], (const std::complex<double>*)&arg[10], (std::complex<double>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 105, "zgbmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(11), "zgbmv output argument 11");
    sv_assert(zgbmv::name() == "zgbmv", "name of zgbmv");
}
extern "C" void zgemv_(const char* v0, const int* v1, const int* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, std::complex<double>* v9, const int* v10)
{
    ++calls; called = 106;
    sv_assert(seen(v0, 0), "zgemv argument 0"); 
    sv_assert(seen(v1, 1), "zgemv argument 1"); 
    sv_assert(seen(v2, 2), "zgemv argument 2"); 
    sv_assert(seen(v3, 3), "zgemv argument 3"); 
    sv_assert(seen(v4, 4), "zgemv argument 4"); 
    sv_assert(seen(v5, 5), "zgemv argument 5"); 
    sv_assert(seen(v6, 6), "zgemv argument 6"); 
    sv_assert(seen(v7, 7), "zgemv argument 7"); 
    sv_assert(seen(v8, 8), "zgemv argument 8"); 
    sv_assert(seen(v9, 9), "zgemv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "zgemv argument 10"); 
}
static void use_zgemv()
{
    prepare(11);
    BlasInterface<IntelMKL, zgemv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const std::complex<double>*)&arg[3], (const std::complex<double>*)&arg[4], (const int*)&arg[5], (const std::complex<double>*)&arg[6], (const int*)&arg[7], (const std::complex<double>*)&arg[8], (std::complex<double>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 106, "zgemv calls the function of its name once");
    sv_assert(written<std::complex<double>>(9), "zgemv output argument 9");
    sv_assert(zgemv::name() == "zgemv", "name of zgemv");
}
extern "C" void zgerc_(const int* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 107;
    sv_assert(seen(v0, 0), "zgerc argument 0"); 
    sv_assert(seen(v1, 1), "zgerc argument 1"); 
    sv_assert(seen(v2, 2), "zgerc argument 2"); 
    sv_assert(seen(v3, 3), "zgerc argument 3"); 
    sv_assert(seen(v4, 4), "zgerc argument 4"); 
    sv_assert(seen(v5, 5), "zgerc argument 5"); 
    sv_assert(seen(v6, 6), "zgerc argument 6"); 
    sv_assert(seen(v7, 7), "zgerc argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "zgerc argument 8"); 
}
static void use_zgerc()
{
    prepare(9);
    BlasInterface<IntelMKL, zgerc>()((const int*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 107, "zgerc calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "zgerc output argument 7");
    sv_assert(zgerc::name() == "zgerc", "name of zgerc");
}
extern "C" void zgeru_(const int* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 108;
    sv_assert(seen(v0, 0), "zgeru argument 0"); 
    sv_assert(seen(v1, 1), "zgeru argument 1"); 
    sv_assert(seen(v2, 2), "zgeru argument 2"); 
    sv_assert(seen(v3, 3), "zgeru argument 3"); 
    sv_assert(seen(v4, 4), "zgeru argument 4"); 
    sv_assert(seen(v5, 5), "zgeru argument 5"); 
    sv_assert(seen(v6, 6), "zgeru argument 6"); 
    sv_assert(seen(v7, 7), "zgeru argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "zgeru argument 8"); 
}
static void use_zgeru()
{
    prepare(9);
    BlasInterface<IntelMKL, zgeru>()((const int*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 108, "zgeru calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "zgeru output argument 7");
    sv_assert(zgeru::name() == "zgeru", "name of zgeru");
}
extern "C" void zhbmv_(const char* v0, const int* v1, const int* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, std::complex<double>* v9, const int* v10)
{
    ++calls; called = 109;
    sv_assert(seen(v0, 0), "zhbmv argument 0"); 
    sv_assert(seen(v1, 1), "zhbmv argument 1"); 
    sv_assert(seen(v2, 2), "zhbmv argument 2"); 
    sv_assert(seen(v3, 3), "zhbmv argument 3"); 
    sv_assert(seen(v4, 4), "zhbmv argument 4"); 
    sv_assert(seen(v5, 5), "zhbmv argument 5"); 
    sv_assert(seen(v6, 6), "zhbmv argument 6"); 
    sv_assert(seen(v7, 7), "zhbmv argument 7"); 
    sv_assert(seen(v8, 8), "zhbmv argument 8"); 
    sv_assert(seen(v9, 9), "zhbmv argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "zhbmv argument 10"); 
}
static void use_zhbmv()
{
    prepare(11);
    BlasInterface<IntelMKL, zhbmv>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const std::complex<double>*)&arg[3], (const std::complex<double>*)&arg[4], (const int*)&arg[5], (const std::complex<double>*)&arg[6], (const int*)&arg[7], (const std::complex<double>*)&arg[8], (std::complex<double>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 109, "zhbmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(9), "zhbmv output argument 9");
    sv_assert(zhbmv::name() == "zhbmv", "name of zhbmv");
}
extern "C" void zhemv_(const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, std::complex<double>* v8, const int* v9)
{
    ++calls; called = 110;
    sv_assert(seen(v0, 0), "zhemv argument 0"); 
    sv_assert(seen(v1, 1), "zhemv argument 1"); 
    sv_assert(seen(v2, 2), "zhemv argument 2"); 
    sv_assert(seen(v3, 3), "zhemv argument 3"); 
    sv_assert(seen(v4, 4), "zhemv argument 4"); 
    sv_assert(seen(v5, 5), "zhemv argument 5"); 
    sv_assert(seen(v6, 6), "zhemv argument 6"); 
    sv_assert(seen(v7, 7), "zhemv argument 7"); 
    sv_assert(seen(v8, 8), "zhemv argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "zhemv argument 9"); 
}
static void use_zhemv()
{
    prepare(10);
    BlasInterface<IntelMKL, zhemv>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (std::complex<double>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 110, "zhemv calls the function of its name once");
    sv_assert(written<std::complex<double>>(8), "zhemv output argument 8");
    sv_assert(zhemv::name() == "zhemv", "name of zhemv");
}
extern "C" void zher_(const char* v0, const int* v1, const double* v2, const std::complex<double>* v3, const int* v4, std::complex<double>* v5, const int* v6)
{
    ++calls; called = 111;
    sv_assert(seen(v0, 0), "zher argument 0"); 
    sv_assert(seen(v1, 1), "zher argument 1"); 
    sv_assert(seen(v2, 2), "zher argument 2"); 
    sv_assert(seen(v3, 3), "zher argument 3"); 
    sv_assert(seen(v4, 4), "zher argument 4"); 
    sv_assert(seen(v5, 5), "zher argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "zher argument 6"); 
}
static void use_zher()
{
    prepare(7);
    BlasInterface<IntelMKL, zher>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (std::complex<double>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 111, "zher calls the function of its name once");
    sv_assert(written<std::complex<double>>(5), "zher output argument 5");
    sv_assert(zher::name() == "zher", "name of zher");
}
extern "C" void zher2_(const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 112;
    sv_assert(seen(v0, 0), "zher2 argument 0"); 
    sv_assert(seen(v1, 1), "zher2 argument 1"); 
    sv_assert(seen(v2, 2), "zher2 argument 2"); 
    sv_assert(seen(v3, 3), "zher2 argument 3"); 
    sv_assert(seen(v4, 4), "zher2 argument 4"); 
    sv_assert(seen(v5, 5), "zher2 argument 5"); 
    sv_assert(seen(v6, 6), "zher2 argument 6"); 
    sv_assert(seen(v7, 7), "zher2 argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "zher2 argument 8"); 
}
static void use_zher2()
{
    prepare(9);
    BlasInterface<IntelMKL, zher2>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 112, "zher2 calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "zher2 output argument 7");
    sv_assert(zher2::name() == "zher2", "name of zher2");
}
extern "C" void zhpmv_(const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 113;
    sv_assert(seen(v0, 0), "zhpmv argument 0"); 
    sv_assert(seen(v1, 1), "zhpmv argument 1"); 
    sv_assert(seen(v2, 2), "zhpmv argument 2"); 
    sv_assert(seen(v3, 3), "zhpmv argument 3"); 
    sv_assert(seen(v4, 4), "zhpmv argument 4"); 
    sv_assert(seen(v5, 5), "zhpmv argument 5"); 
    sv_assert(seen(v6, 6), "zhpmv argument 6"); 
    sv_assert(seen(v7, 7), "zhpmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "zhpmv argument 8"); 
}
static void use_zhpmv()
{
    prepare(9);
    BlasInterface<IntelMKL, zhpmv>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const std::complex<double>*)&arg[4], (const int*)&arg[5], (const std::complex<double>*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 113, "zhpmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "zhpmv output argument 7");
    sv_assert(zhpmv::name() == "zhpmv", "name of zhpmv");
}
extern "C" void zhpr_(const char* v0, const int* v1, const double* v2, const std::complex<double>* v3, const int* v4, std::complex<double>* v5)
{
    ++calls; called = 114;
    sv_assert(seen(v0, 0), "zhpr argument 0"); 
    sv_assert(seen(v1, 1), "zhpr argument 1"); 
    sv_assert(seen(v2, 2), "zhpr argument 2"); 
    sv_assert(seen(v3, 3), "zhpr argument 3"); 
    sv_assert(seen(v4, 4), "zhpr argument 4"); 
    sv_assert(seen(v5, 5), "zhpr argument 5"); writes(v5, 5);
}
static void use_zhpr()
{
    prepare(6);
    BlasInterface<IntelMKL, zhpr>()((const char*)&arg[0], (const int*)&arg[1], (const double*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (std::complex<double>*)&arg[5]);
    sv_assert(calls == 1 && called == 114, "zhpr calls the function of its name once");
    sv_assert(written<std::complex<double>>(5), "zhpr output argument 5");
    sv_assert(zhpr::name() == "zhpr", "name of zhpr");
}
extern "C" void zhpr2_(const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7)
{
    ++calls; called = 115;
    sv_assert(seen(v0, 0), "zhpr2 argument 0"); 
    sv_assert(seen(v1, 1), "zhpr2 argument 1"); 
    sv_assert(seen(v2, 2), "zhpr2 argument 2"); 
    sv_assert(seen(v3, 3), "zhpr2 argument 3"); 
    sv_assert(seen(v4, 4), "zhpr2 argument 4"); 
    sv_assert(seen(v5, 5), "zhpr2 argument 5"); 
    sv_assert(seen(v6, 6), "zhpr2 argument 6"); 
    sv_assert(seen(v7, 7), "zhpr2 argument 7"); writes(v7, 7);
}
static void use_zhpr2()
{
    prepare(8);
    BlasInterface<IntelMKL, zhpr2>()((const char*)&arg[0], (const int*)&arg[1], (const std::complex<double>*)&arg[2], (const std::complex<double>*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7]);
    sv_assert(calls == 1 && called == 115, "zhpr2 calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "zhpr2 output argument 7");
    sv_assert(zhpr2::name() == "zhpr2", "name of zhpr2");
}
extern "C" void ztbmv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 116;
    sv_assert(seen(v0, 0), "ztbmv argument 0"); 
    sv_assert(seen(v1, 1), "ztbmv argument 1"); 
    sv_assert(seen(v2, 2), "ztbmv argument 2"); 
    sv_assert(seen(v3, 3), "ztbmv argument 3"); 
    sv_assert(seen(v4, 4), "ztbmv argument 4"); 
    sv_assert(seen(v5, 5), "ztbmv argument 5"); 
    sv_assert(seen(v6, 6), "ztbmv argument 6"); 
    sv_assert(seen(v7, 7), "ztbmv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "ztbmv argument 8"); 
}
static void use_ztbmv()
{
    prepare(9);
    BlasInterface<IntelMKL, ztbmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 116, "ztbmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "ztbmv output argument 7");
    sv_assert(ztbmv::name() == "ztbmv", "name of ztbmv");
}
extern "C" void ztbsv_(const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8)
{
    ++calls; called = 117;
    sv_assert(seen(v0, 0), "ztbsv argument 0"); 
    sv_assert(seen(v1, 1), "ztbsv argument 1"); 
    sv_assert(seen(v2, 2), "ztbsv argument 2"); 
    sv_assert(seen(v3, 3), "ztbsv argument 3"); 
    sv_assert(seen(v4, 4), "ztbsv argument 4"); 
    sv_assert(seen(v5, 5), "ztbsv argument 5"); 
    sv_assert(seen(v6, 6), "ztbsv argument 6"); 
    sv_assert(seen(v7, 7), "ztbsv argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "ztbsv argument 8"); 
}
static void use_ztbsv()
{
    prepare(9);
    BlasInterface<IntelMKL, ztbsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (std::complex<double>*)&arg[7], (const int*)&arg[8]);
    sv_assert(calls == 1 && called == 117, "ztbsv calls the function of its name once");
    sv_assert(written<std::complex<double>>(7), "ztbsv output argument 7");
    sv_assert(ztbsv::name() == "ztbsv", "name of ztbsv");
}
extern "C" void ztpmv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6)
{
    ++calls; called = 118;
    sv_assert(seen(v0, 0), "ztpmv argument 0"); 
    sv_assert(seen(v1, 1), "ztpmv argument 1"); 
    sv_assert(seen(v2, 2), "ztpmv argument 2"); 
    sv_assert(seen(v3, 3), "ztpmv argument 3"); 
    sv_assert(seen(v4, 4), "ztpmv argument 4"); 
    sv_assert(seen(v5, 5), "ztpmv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "ztpmv argument 6"); 
}
static void use_ztpmv()
{
    prepare(7);
    BlasInterface<IntelMKL, ztpmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (std::complex<double>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 118, "ztpmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(5), "ztpmv output argument 5");
    sv_assert(ztpmv::name() == "ztpmv", "name of ztpmv");
}
extern "C" void ztpsv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6)
{
    ++calls; called = 119;
    sv_assert(seen(v0, 0), "ztpsv argument 0"); 
    sv_assert(seen(v1, 1), "ztpsv argument 1"); 
    sv_assert(seen(v2, 2), "ztpsv argument 2"); 
    sv_assert(seen(v3, 3), "ztpsv argument 3"); 
    sv_assert(seen(v4, 4), "ztpsv argument 4"); 
    sv_assert(seen(v5, 5), "ztpsv argument 5"); writes(v5, 5);
    sv_assert(seen(v6, 6), "ztpsv argument 6"); 
}
static void use_ztpsv()
{
    prepare(7);
    BlasInterface<IntelMKL, ztpsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (std::complex<double>*)&arg[5], (const int*)&arg[6]);
    sv_assert(calls == 1 && called == 119, "ztpsv calls the function of its name once");
    sv_assert(written<std::complex<double>>(5), "ztpsv output argument 5");
    sv_assert(ztpsv::name() == "ztpsv", "name of ztpsv");
}
extern "C" void ztrmv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, const int* v5, std::complex<double>* v6, const int* v7)
{
    ++calls; called = 120;
    sv_assert(seen(v0, 0), "ztrmv argument 0"); 
    sv_assert(seen(v1, 1), "ztrmv argument 1"); 
    sv_assert(seen(v2, 2), "ztrmv argument 2"); 
    sv_assert(seen(v3, 3), "ztrmv argument 3"); 
    sv_assert(seen(v4, 4), "ztrmv argument 4"); 
    sv_assert(seen(v5, 5), "ztrmv argument 5"); 
    sv_assert(seen(v6, 6), "ztrmv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "ztrmv argument 7"); 
}
static void use_ztrmv()
{
    prepare(8);
    BlasInterface<IntelMKL, ztrmv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const int*)&arg[5], (std::complex<double>*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 120, "ztrmv calls the function of its name once");
    sv_assert(written<std::complex<double>>(6), "ztrmv output argument 6");
    sv_assert(ztrmv::name() == "ztrmv", "name of ztrmv");
}
extern "C" void ztrsv_(const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, const int* v5, std::complex<double>* v6, const int* v7)
{
    ++calls; called = 121;
    sv_assert(seen(v0, 0), "ztrsv argument 0"); 
    sv_assert(seen(v1, 1), "ztrsv argument 1"); 
    sv_assert(seen(v2, 2), "ztrsv argument 2"); 
    sv_assert(seen(v3, 3), "ztrsv argument 3"); 
    sv_assert(seen(v4, 4), "ztrsv argument 4"); 
    sv_assert(seen(v5, 5), "ztrsv argument 5"); 
    sv_assert(seen(v6, 6), "ztrsv argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "ztrsv argument 7"); 
}
static void use_ztrsv()
{
    prepare(8);
    BlasInterface<IntelMKL, ztrsv>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const int*)&arg[5], (std::complex<double>*)&arg[6], (const int*)&arg[7]);
    sv_assert(calls == 1 && called == 121, "ztrsv calls the function of its name once");
    sv_assert(written<std::complex<double>>(6), "ztrsv output argument 6");
    sv_assert(ztrsv::name() == "ztrsv", "name of ztrsv");
}
extern "C" void sgemm_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const float* v5, const float* v6, const int* v7, const float* v8, const int* v9, const float* v10, float* v11, const int* v12)
{
    ++calls; called = 122;
    sv_assert(seen(v0, 0), "sgemm argument 0"); 
    sv_assert(seen(v1, 1), "sgemm argument 1"); 
    sv_assert(seen(v2, 2), "sgemm argument 2"); 
    sv_assert(seen(v3, 3), "sgemm argument 3"); 
    sv_assert(seen(v4, 4), "sgemm argument 4"); 
    sv_assert(seen(v5, 5), "sgemm argument 5"); 
    sv_assert(seen(v6, 6), "sgemm argument 6"); 
    sv_assert(seen(v7, 7), "sgemm argument 7"); 
    sv_assert(seen(v8, 8), "sgemm argument 8"); 
    sv_assert(seen(v9, 9), "sgemm argument 9"); 
    sv_assert(seen(v10, 10), "sgemm argument 10"); 
    sv_assert(seen(v11, 11), "sgemm argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "sgemm argument 12"); 
}
static void use_sgemm()
{
    prepare(13);
    BlasInterface<IntelMKL, sgemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const float*)&arg[5], (const float*)&arg[6], (const int*)&arg[7], (const float*)&arg[8], (const int*)&arg[9], (const float*)&arg[10], (float*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 122, "sgemm calls the function of its name once");
    sv_assert(written<float>(11), "sgemm output argument 11");
    sv_assert(sgemm::name() == "sgemm", "name of sgemm");
}
extern "C" void ssymm_(const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, const int* v8, const float* v9, float* v10, const int* v11)
{
    ++calls; called = 123;
    sv_assert(seen(v0, 0), "ssymm argument 0"); 
    sv_assert(seen(v1, 1), "ssymm argument 1"); 
    sv_assert(seen(v2, 2), "ssymm argument 2"); 
    sv_assert(seen(v3, 3), "ssymm argument 3"); 
    sv_assert(seen(v4, 4), "ssymm argument 4"); 
    sv_assert(seen(v5, 5), "ssymm argument 5"); 
    sv_assert(seen(v6, 6), "ssymm argument 6"); 
    sv_assert(seen(v7, 7), "ssymm argument 7"); 
    sv_assert(seen(v8, 8), "ssymm argument 8"); 
    sv_assert(seen(v9, 9), "ssymm argument 9"); 
    sv_assert(seen(v10, 10), "ssymm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "ssymm argument 11"); 
}
static void use_ssymm()
{
    prepare(12);
    BlasInterface<IntelMKL, ssymm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (const float*)&arg[7], (const int*)&arg[8], (const float*)&arg[9], (float*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 123, "ssymm calls the function of its name once");
    sv_assert(written<float>(10), "ssymm output argument 10");
    sv_assert(ssymm::name() == "ssymm", "name of ssymm");
}
extern "C" void ssyr2k_(const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, const int* v8, const float* v9, float* v10, const int* v11)
{
    ++calls; called = 124;
    sv_assert(seen(v0, 0), "ssyr2k argument 0"); 
    sv_assert(seen(v1, 1), "ssyr2k argument 1"); 
    sv_assert(seen(v2, 2), "ssyr2k argument 2"); 
    sv_assert(seen(v3, 3), "ssyr2k argument 3"); 
    sv_assert(seen(v4, 4), "ssyr2k argument 4"); 
    sv_assert(seen(v5, 5), "ssyr2k argument 5"); 
    sv_assert(seen(v6, 6), "ssyr2k argument 6"); 
    sv_assert(seen(v7, 7), "ssyr2k argument 7"); 
    sv_assert(seen(v8, 8), "ssyr2k argument 8"); 
    sv_assert(seen(v9, 9), "ssyr2k argument 9"); 
    sv_assert(seen(v10, 10), "ssyr2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "ssyr2k argument 11"); 
}
static void use_ssyr2k()
{
    prepare(12);
    BlasInterface<IntelMKL, ssyr2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (const float*)&arg[7], (const int*)&arg[8], (const float*)&arg[9], (float*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 124, "ssyr2k calls the function of its name once");
    sv_assert(written<float>(10), "ssyr2k output argument 10");
    sv_assert(ssyr2k::name() == "ssyr2k", "name of ssyr2k");
}
extern "C" void ssyrk_(const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, float* v8, const int* v9)
{
    ++calls; called = 125;
    sv_assert(seen(v0, 0), "ssyrk argument 0"); 
    sv_assert(seen(v1, 1), "ssyrk argument 1"); 
    sv_assert(seen(v2, 2), "ssyrk argument 2"); 
    sv_assert(seen(v3, 3), "ssyrk argument 3"); 
    sv_assert(seen(v4, 4), "ssyrk argument 4"); 
    sv_assert(seen(v5, 5), "ssyrk argument 5"); 
    sv_assert(seen(v6, 6), "ssyrk argument 6"); 
    sv_assert(seen(v7, 7), "ssyrk argument 7"); 
    sv_assert(seen(v8, 8), "ssyrk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "ssyrk argument 9"); 
}
static void use_ssyrk()
{
    prepare(10);
    BlasInterface<IntelMKL, ssyrk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const float*)&arg[5], (const int*)&arg[6], (const float*)&arg[7], (float*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 125, "ssyrk calls the function of its name once");
    sv_assert(written<float>(8), "ssyrk output argument 8");
    sv_assert(ssyrk::name() == "ssyrk", "name of ssyrk");
}
extern "C" void strmm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const float* v6, const float* v7, const int* v8, float* v9, const int* v10)
{
    ++calls; called = 126;
    sv_assert(seen(v0, 0), "strmm argument 0"); 
    sv_assert(seen(v1, 1), "strmm argument 1"); 
    sv_assert(seen(v2, 2), "strmm argument 2"); 
    sv_assert(seen(v3, 3), "strmm argument 3"); 
    sv_assert(seen(v4, 4), "strmm argument 4"); 
    sv_assert(seen(v5, 5), "strmm argument 5"); 
    sv_assert(seen(v6, 6), "strmm argument 6"); 
    sv_assert(seen(v7, 7), "strmm argument 7"); 
    sv_assert(seen(v8, 8), "strmm argument 8"); 
    sv_assert(seen(v9, 9), "strmm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "strmm argument 10"); 
}
static void use_strmm()
{
    prepare(11);
    BlasInterface<IntelMKL, strmm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const float*)&arg[6], (const float*)&arg[7], (const int*)&arg[8], (float*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 126, "strmm calls the function of its name once");
    sv_assert(written<float>(9), "strmm output argument 9");
    sv_assert(strmm::name() == "strmm", "name of strmm");
}
extern "C" void strsm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const float* v6, const float* v7, const int* v8, float* v9, const int* v10)
{
    ++calls; called = 127;
    sv_assert(seen(v0, 0), "strsm argument 0"); 
    sv_assert(seen(v1, 1), "strsm argument 1"); 
    sv_assert(seen(v2, 2), "strsm argument 2"); 
    sv_assert(seen(v3, 3), "strsm argument 3"); 
    sv_assert(seen(v4, 4), "strsm argument 4"); 
    sv_assert(seen(v5, 5), "strsm argument 5"); 
    sv_assert(seen(v6, 6), "strsm argument 6"); 
    sv_assert(seen(v7, 7), "strsm argument 7"); 
    sv_assert(seen(v8, 8), "strsm argument 8"); 
    sv_assert(seen(v9, 9), "strsm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "strsm argument 10"); 
}
static void use_strsm()
{
    prepare(11);
    BlasInterface<IntelMKL, strsm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const float*)&arg[6], (const float*)&arg[7], (const int*)&arg[8], (float*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 127, "strsm calls the function of its name once");
    sv_assert(written<float>(9), "strsm output argument 9");
    sv_assert(strsm::name() == "strsm", "name of strsm");
}
extern "C" void cgemm_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12)
{
    ++calls; called = 128;
    sv_assert(seen(v0, 0), "cgemm argument 0"); 
    sv_assert(seen(v1, 1), "cgemm argument 1"); 
    sv_assert(seen(v2, 2), "cgemm argument 2"); 
    sv_assert(seen(v3, 3), "cgemm argument 3"); 
    sv_assert(seen(v4, 4), "cgemm argument 4"); 
    sv_assert(seen(v5, 5), "cgemm argument 5"); 
    sv_assert(seen(v6, 6), "cgemm argument 6"); 
    sv_assert(seen(v7, 7), "cgemm argument 7"); 
    sv_assert(seen(v8, 8), "cgemm argument 8"); 
    sv_assert(seen(v9, 9), "cgemm argument 9"); 
    sv_assert(seen(v10, 10), "cgemm argument 10"); 
    sv_assert(seen(v11, 11), "cgemm argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "cgemm argument 12"); 
}
static void use_cgemm()
{
    prepare(13);
    BlasInterface<IntelMKL, cgemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const std::complex<float>*)&arg[6], (const int*)&arg[7], (const std::complex<float>*)&arg[8], (const int*)&arg[9], (const std::complex<float>*)&arg[10], (std::complex<float>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 128, "cgemm calls the function of its name once");
    sv_assert(written<std::complex<float>>(11), "cgemm output argument 11");
    sv_assert(cgemm::name() == "cgemm", "name of cgemm");
}
extern "C" void cgemm3m_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12)
{
    ++calls; called = 129;
    sv_assert(seen(v0, 0), "cgemm3m argument 0"); 
    sv_assert(seen(v1, 1), "cgemm3m argument 1"); 
    sv_assert(seen(v2, 2), "cgemm3m argument 2"); 
    sv_assert(seen(v3, 3), "cgemm3m argument 3"); 
    sv_assert(seen(v4, 4), "cgemm3m argument 4"); 
    sv_assert(seen(v5, 5), "cgemm3m argument 5"); 
    sv_assert(seen(v6, 6), "cgemm3m argument 6"); 
    sv_assert(seen(v7, 7), "cgemm3m argument 7"); 
    sv_assert(seen(v8, 8), "cgemm3m argument 8"); 
    sv_assert(seen(v9, 9), "cgemm3m argument 9"); 
    sv_assert(seen(v10, 10), "cgemm3m argument 10"); 
    sv_assert(seen(v11, 11), "cgemm3m argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "cgemm3m argument 12"); 
}
static void use_cgemm3m()
{
    prepare(13);
    BlasInterface<IntelMKL, cgemm3m>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<float>*)&arg[5], (const std::complex<float>*)&arg[6], (const int*)&arg[7], (const std::complex<float>*)&arg[8], (const int*)&arg[9], (const std::complex<float>*)&arg[10], (std::complex<float>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 129, "cgemm3m calls the function of its name once");
    sv_assert(written<std::complex<float>>(11), "cgemm3m output argument 11");
    sv_assert(cgemm3m::name() == "cgemm3m", "name of cgemm3m");
}
extern "C" void chemm_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11)
{
    ++calls; called = 130;
    sv_assert(seen(v0, 0), "chemm argument 0"); 
    sv_assert(seen(v1, 1), "chemm argument 1"); 
    sv_assert(seen(v2, 2), "chemm argument 2"); 
    sv_assert(seen(v3, 3), "chemm argument 3"); 
    sv_assert(seen(v4, 4), "chemm argument 4"); 
    sv_assert(seen(v5, 5), "chemm argument 5"); 
    sv_assert(seen(v6, 6), "chemm argument 6"); 
    sv_assert(seen(v7, 7), "chemm argument 7"); 
    sv_assert(seen(v8, 8), "chemm argument 8"); 
    sv_assert(seen(v9, 9), "chemm argument 9"); 
    sv_assert(seen(v10, 10), "chemm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "chemm argument 11"); 
}
static void use_chemm()
{
    prepare(12);
    BlasInterface<IntelMKL, chemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (const std::complex<float>*)&arg[9], (std::complex<float>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 130, "chemm calls the function of its name once");
    sv_assert(written<std::complex<float>>(10), "chemm output argument 10");
    sv_assert(chemm::name() == "chemm", "name of chemm");
}
extern "C" void cher2k_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const float* v9, std::complex<float>* v10, const int* v11)
{
    ++calls; called = 131;
    sv_assert(seen(v0, 0), "cher2k argument 0"); 
    sv_assert(seen(v1, 1), "cher2k argument 1"); 
    sv_assert(seen(v2, 2), "cher2k argument 2"); 
    sv_assert(seen(v3, 3), "cher2k argument 3"); 
    sv_assert(seen(v4, 4), "cher2k argument 4"); 
    sv_assert(seen(v5, 5), "cher2k argument 5"); 
    sv_assert(seen(v6, 6), "cher2k argument 6"); 
    sv_assert(seen(v7, 7), "cher2k argument 7"); 
    sv_assert(seen(v8, 8), "cher2k argument 8"); 
    sv_assert(seen(v9, 9), "cher2k argument 9"); 
    sv_assert(seen(v10, 10), "cher2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "cher2k argument 11"); 
}
static void use_cher2k()
{
    prepare(12);
    BlasInterface<IntelMKL, cher2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (const float*)&arg[9], (std::complex<float>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 131, "cher2k calls the function of its name once");
    sv_assert(written<std::complex<float>>(10), "cher2k output argument 10");
    sv_assert(cher2k::name() == "cher2k", "name of cher2k");
}
extern "C" void cherk_(const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const std::complex<float>* v5, const int* v6, const float* v7, std::complex<float>* v8, const int* v9)
{
    ++calls; called = 132;
    sv_assert(seen(v0, 0), "cherk argument 0"); 
    sv_assert(seen(v1, 1), "cherk argument 1"); 
    sv_assert(seen(v2, 2), "cherk argument 2"); 
    sv_assert(seen(v3, 3), "cherk argument 3"); 
    sv_assert(seen(v4, 4), "cherk argument 4"); 
    sv_assert(seen(v5, 5), "cherk argument 5"); 
    sv_assert(seen(v6, 6), "cherk argument 6"); 
    sv_assert(seen(v7, 7), "cherk argument 7"); 
    sv_assert(seen(v8, 8), "cherk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "cherk argument 9"); 
}
static void use_cherk()
{
    prepare(10);
    BlasInterface<IntelMKL, cherk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const float*)&arg[7], (std::complex<float>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 132, "cherk calls the function of its name once");
    sv_assert(written<std::complex<float>>(8), "cherk output argument 8");
    sv_assert(cherk::name() == "cherk", "name of cherk");
}
extern "C" void csymm_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11)
{
    ++calls; called = 133;
    sv_assert(seen(v0, 0), "csymm argument 0"); 
    sv_assert(seen(v1, 1), "csymm argument 1"); 
    sv_assert(seen(v2, 2), "csymm argument 2"); 
    sv_assert(seen(v3, 3), "csymm argument 3"); 
    sv_assert(seen(v4, 4), "csymm argument 4"); 
    sv_assert(seen(v5, 5), "csymm argument 5"); 
    sv_assert(seen(v6, 6), "csymm argument 6"); 
    sv_assert(seen(v7, 7), "csymm argument 7"); 
    sv_assert(seen(v8, 8), "csymm argument 8"); 
    sv_assert(seen(v9, 9), "csymm argument 9"); 
    sv_assert(seen(v10, 10), "csymm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "csymm argument 11"); 
}
static void use_csymm()
{
    prepare(12);
    BlasInterface<IntelMKL, csymm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (const std::complex<float>*)&arg[9], (std::complex<float>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 133, "csymm calls the function of its name once");
    sv_assert(written<std::complex<float>>(10), "csymm output argument 10");
    sv_assert(csymm::name() == "csymm", "name of csymm");
}
extern "C" void csyr2k_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11)
{
    ++calls; called = 134;
    sv_assert(seen(v0, 0), "csyr2k argument 0"); 
    sv_assert(seen(v1, 1), "csyr2k argument 1"); 
    sv_assert(seen(v2, 2), "csyr2k argument 2"); 
    sv_assert(seen(v3, 3), "csyr2k argument 3"); 
    sv_assert(seen(v4, 4), "csyr2k argument 4"); 
    sv_assert(seen(v5, 5), "csyr2k argument 5"); 
    sv_assert(seen(v6, 6), "csyr2k argument 6"); 
    sv_assert(seen(v7, 7), "csyr2k argument 7"); 
    sv_assert(seen(v8, 8), "csyr2k argument 8"); 
    sv_assert(seen(v9, 9), "csyr2k argument 9"); 
    sv_assert(seen(v10, 10), "csyr2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "csyr2k argument 11"); 
}
static void use_csyr2k()
{
    prepare(12);
    BlasInterface<IntelMKL, csyr2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (const std::complex<float>*)&arg[9], (std::complex<float>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 134, "csyr2k calls the function of its name once");
    sv_assert(written<std::complex<float>>(10), "csyr2k output argument 10");
    sv_assert(csyr2k::name() == "csyr2k", "name of csyr2k");
}
extern "C" void csyrk_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, std::complex<float>* v8, const int* v9)
{
    ++calls; called = 135;
    sv_assert(seen(v0, 0), "csyrk argument 0"); 
    sv_assert(seen(v1, 1), "csyrk argument 1"); 
    sv_assert(seen(v2, 2), "csyrk argument 2"); 
    sv_assert(seen(v3, 3), "csyrk argument 3"); 
    sv_assert(seen(v4, 4), "csyrk argument 4"); 
    sv_assert(seen(v5, 5), "csyrk argument 5"); 
    sv_assert(seen(v6, 6), "csyrk argument 6"); 
    sv_assert(seen(v7, 7), "csyrk argument 7"); 
    sv_assert(seen(v8, 8), "csyrk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "csyrk argument 9"); 
}
static void use_csyrk()
{
    prepare(10);
    BlasInterface<IntelMKL, csyrk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<float>*)&arg[4], (const std::complex<float>*)&arg[5], (const int*)&arg[6], (const std::complex<float>*)&arg[7], (std::complex<float>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 135, "csyrk calls the function of its name once");
    sv_assert(written<std::complex<float>>(8), "csyrk output argument 8");
    sv_assert(csyrk::name() == "csyrk", "name of csyrk");
}
extern "C" void ctrmm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<float>* v6, const std::complex<float>* v7, const int* v8, std::complex<float>* v9, const int* v10)
{
    ++calls; called = 136;
    sv_assert(seen(v0, 0), "ctrmm argument 0"); 
    sv_assert(seen(v1, 1), "ctrmm argument 1"); 
    sv_assert(seen(v2, 2), "ctrmm argument 2"); 
    sv_assert(seen(v3, 3), "ctrmm argument 3"); 
    sv_assert(seen(v4, 4), "ctrmm argument 4"); 
    sv_assert(seen(v5, 5), "ctrmm argument 5"); 
    sv_assert(seen(v6, 6), "ctrmm argument 6"); 
    sv_assert(seen(v7, 7), "ctrmm argument 7"); 
    sv_assert(seen(v8, 8), "ctrmm argument 8"); 
    sv_assert(seen(v9, 9), "ctrmm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "ctrmm argument 10"); 
}
static void use_ctrmm()
{
    prepare(11);
    BlasInterface<IntelMKL, ctrmm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const std::complex<float>*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (std::complex<float>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 136, "ctrmm calls the function of its name once");
    sv_assert(written<std::complex<float>>(9), "ctrmm output argument 9");
    sv_assert(ctrmm::name() == "ctrmm", "name of ctrmm");
}
extern "C" void ctrsm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<float>* v6, const std::complex<float>* v7, const int* v8, std::complex<float>* v9, const int* v10)
{
    ++calls; called = 137;
    sv_assert(seen(v0, 0), "ctrsm argument 0"); 
    sv_assert(seen(v1, 1), "ctrsm argument 1"); 
    sv_assert(seen(v2, 2), "ctrsm argument 2"); 
    sv_assert(seen(v3, 3), "ctrsm argument 3"); 
    sv_assert(seen(v4, 4), "ctrsm argument 4"); 
    sv_assert(seen(v5, 5), "ctrsm argument 5"); 
    sv_assert(seen(v6, 6), "ctrsm argument 6"); 
    sv_assert(seen(v7, 7), "ctrsm argument 7"); 
    sv_assert(seen(v8, 8), "ctrsm argument 8"); 
    sv_assert(seen(v9, 9), "ctrsm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "ctrsm argument 10"); 
}
static void use_ctrsm()
{
    prepare(11);
    BlasInterface<IntelMKL, ctrsm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const std::complex<float>*)&arg[6], (const std::complex<float>*)&arg[7], (const int*)&arg[8], (std::complex<float>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 137, "ctrsm calls the function of its name once");
    sv_assert(written<std::complex<float>>(9), "ctrsm output argument 9");
    sv_assert(ctrsm::name() == "ctrsm", "name of ctrsm");
}
extern "C" void dgemm_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const double* v5, const double* v6, const int* v7, const double* v8, const int* v9, const double* v10, double* v11, const int* v12)
{
    ++calls; called = 138;
    sv_assert(seen(v0, 0), "dgemm argument 0"); 
    sv_assert(seen(v1, 1), "dgemm argument 1"); 
    sv_assert(seen(v2, 2), "dgemm argument 2"); 
    sv_assert(seen(v3, 3), "dgemm argument 3"); 
    sv_assert(seen(v4, 4), "dgemm argument 4"); 
    sv_assert(seen(v5, 5), "dgemm argument 5"); 
    sv_assert(seen(v6, 6), "dgemm argument 6"); 
    sv_assert(seen(v7, 7), "dgemm argument 7"); 
    sv_assert(seen(v8, 8), "dgemm argument 8"); 
    sv_assert(seen(v9, 9), "dgemm argument 9"); 
    sv_assert(seen(v10, 10), "dgemm argument 10"); 
    sv_assert(seen(v11, 11), "dgemm argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "dgemm argument 12"); 
}
static void use_dgemm()
{
    prepare(13);
    BlasInterface<IntelMKL, dgemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const double*)&arg[5], (const double*)&arg[6], (const int*)&arg[7], (const double*)&arg[8], (const int*)&arg[9], (const double*)&arg[10], (double*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 138, "dgemm calls the function of its name once");
    sv_assert(written<double>(11), "dgemm output argument 11");
    sv_assert(dgemm::name() == "dgemm", "name of dgemm");
}
extern "C" void dsymm_(const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, const int* v8, const double* v9, double* v10, const int* v11)
{
    ++calls; called = 139;
    sv_assert(seen(v0, 0), "dsymm argument 0"); 
    sv_assert(seen(v1, 1), "dsymm argument 1"); 
    sv_assert(seen(v2, 2), "dsymm argument 2"); 
    sv_assert(seen(v3, 3), "dsymm argument 3"); 
    sv_assert(seen(v4, 4), "dsymm argument 4"); 
    sv_assert(seen(v5, 5), "dsymm argument 5"); 
    sv_assert(seen(v6, 6), "dsymm argument 6"); 
    sv_assert(seen(v7, 7), "dsymm argument 7"); 
    sv_assert(seen(v8, 8), "dsymm argument 8"); 
    sv_assert(seen(v9, 9), "dsymm argument 9"); 
    sv_assert(seen(v10, 10), "dsymm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "dsymm argument 11"); 
}
static void use_dsymm()
{
    prepare(12);
    BlasInterface<IntelMKL, dsymm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (const double*)&arg[7], (const int*)&arg[8], (const double*)&arg[9], (double*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 139, "dsymm calls the function of its name once");
    sv_assert(written<double>(10), "dsymm output argument 10");
    sv_assert(dsymm::name() == "dsymm", "name of dsymm");
}
extern "C" void dsyr2k_(const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, const int* v8, const double* v9, double* v10, const int* v11)
{
    ++calls; called = 140;
    sv_assert(seen(v0, 0), "dsyr2k argument 0"); 
    sv_assert(seen(v1, 1), "dsyr2k argument 1"); 
    sv_assert(seen(v2, 2), "dsyr2k argument 2"); 
    sv_assert(seen(v3, 3), "dsyr2k argument 3"); 
    sv_assert(seen(v4, 4), "dsyr2k argument 4"); 
    sv_assert(seen(v5, 5), "dsyr2k argument 5"); 
    sv_assert(seen(v6, 6), "dsyr2k argument 6"); 
    sv_assert(seen(v7, 7), "dsyr2k argument 7"); 
    sv_assert(seen(v8, 8), "dsyr2k argument 8"); 
    sv_assert(seen(v9, 9), "dsyr2k argument 9"); 
    sv_assert(seen(v10, 10), "dsyr2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "dsyr2k argument 11"); 
}
static void use_dsyr2k()
{
    prepare(12);
    BlasInterface<IntelMKL, dsyr2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (const double*)&arg[7], (const int*)&arg[8], (const double*)&arg[9], (double*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 140, "dsyr2k calls the function of its name once");
    sv_assert(written<double>(10), "dsyr2k output argument 10");
    sv_assert(dsyr2k::name() == "dsyr2k", "name of dsyr2k");
}
extern "C" void dsyrk_(const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, double* v8, const int* v9)
{
    ++calls; called = 141;
    sv_assert(seen(v0, 0), "dsyrk argument 0"); 
    sv_assert(seen(v1, 1), "dsyrk argument 1"); 
    sv_assert(seen(v2, 2), "dsyrk argument 2"); 
    sv_assert(seen(v3, 3), "dsyrk argument 3"); 
    sv_assert(seen(v4, 4), "dsyrk argument 4"); 
    sv_assert(seen(v5, 5), "dsyrk argument 5"); 
    sv_assert(seen(v6, 6), "dsyrk argument 6"); 
    sv_assert(seen(v7, 7), "dsyrk argument 7"); 
    sv_assert(seen(v8, 8), "dsyrk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "dsyrk argument 9"); 
}
static void use_dsyrk()
{
    prepare(10);
    BlasInterface<IntelMKL, dsyrk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const double*)&arg[5], (const int*)&arg[6], (const double*)&arg[7], (double*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 141, "dsyrk calls the function of its name once");
    sv_assert(written<double>(8), "dsyrk output argument 8");
    sv_assert(dsyrk::name() == "dsyrk", "name of dsyrk");
}
extern "C" void dtrmm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const double* v6, const double* v7, const int* v8, double* v9, const int* v10)
{
    ++calls; called = 142;
    sv_assert(seen(v0, 0), "dtrmm argument 0"); 
    sv_assert(seen(v1, 1), "dtrmm argument 1"); 
    sv_assert(seen(v2, 2), "dtrmm argument 2"); 
    sv_assert(seen(v3, 3), "dtrmm argument 3"); 
    sv_assert(seen(v4, 4), "dtrmm argument 4"); 
    sv_assert(seen(v5, 5), "dtrmm argument 5"); 
    sv_assert(seen(v6, 6), "dtrmm argument 6"); 
    sv_assert(seen(v7, 7), "dtrmm argument 7"); 
    sv_assert(seen(v8, 8), "dtrmm argument 8"); 
    sv_assert(seen(v9, 9), "dtrmm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "dtrmm argument 10"); 
}
static void use_dtrmm()
{
    prepare(11);
    BlasInterface<IntelMKL, dtrmm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const double*)&arg[6], (const double*)&arg[7], (const int*)&arg[8], (double*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 142, "dtrmm calls the function of its name once");
    sv_assert(written<double>(9), "dtrmm output argument 9");
    sv_assert(dtrmm::name() == "dtrmm", "name of dtrmm");
}
extern "C" void dtrsm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const double* v6, const double* v7, const int* v8, double* v9, const int* v10)
{
    ++calls; called = 143;
    sv_assert(seen(v0, 0), "dtrsm argument 0"); 
    sv_assert(seen(v1, 1), "dtrsm argument 1"); 
    sv_assert(seen(v2, 2), "dtrsm argument 2"); 
    sv_assert(seen(v3, 3), "dtrsm argument 3"); 
    sv_assert(seen(v4, 4), "dtrsm argument 4"); 
    sv_assert(seen(v5, 5), "dtrsm argument 5"); 
    sv_assert(seen(v6, 6), "dtrsm argument 6"); 
    sv_assert(seen(v7, 7), "dtrsm argument 7"); 
    sv_assert(seen(v8, 8), "dtrsm argument 8"); 
    sv_assert(seen(v9, 9), "dtrsm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "dtrsm argument 10"); 
}
static void use_dtrsm()
{
    prepare(11);
    BlasInterface<IntelMKL, dtrsm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const double*)&arg[6], (const double*)&arg[7], (const int*)&arg[8], (double*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 143, "dtrsm calls the function of its name once");
    sv_assert(written<double>(9), "dtrsm output argument 9");
    sv_assert(dtrsm::name() == "dtrsm", "name of dtrsm");
}
extern "C" void zgemm_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12)
{
    ++calls; called = 144;
    sv_assert(seen(v0, 0), "zgemm argument 0"); 
    sv_assert(seen(v1, 1), "zgemm argument 1"); 
    sv_assert(seen(v2, 2), "zgemm argument 2"); 
    sv_assert(seen(v3, 3), "zgemm argument 3"); 
    sv_assert(seen(v4, 4), "zgemm argument 4"); 
    sv_assert(seen(v5, 5), "zgemm argument 5"); 
    sv_assert(seen(v6, 6), "zgemm argument 6"); 
    sv_assert(seen(v7, 7), "zgemm argument 7"); 
    sv_assert(seen(v8, 8), "zgemm argument 8"); 
    sv_assert(seen(v9, 9), "zgemm argument 9"); 
    sv_assert(seen(v10, 10), "zgemm argument 10"); 
    sv_assert(seen(v11, 11), "zgemm argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "zgemm argument 12"); 
}
static void use_zgemm()
{
    prepare(13);
    BlasInterface<IntelMKL, zgemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const std::complex<double>*)&arg[6], (const int*)&arg[7], (const std::complex<double>*)&arg[8], (const int*)&arg[9], (const std::complex<double>*)&arg[10], (std::complex<double>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 144, "zgemm calls the function of its name once");
    sv_assert(written<std::complex<double>>(11), "zgemm output argument 11");
    sv_assert(zgemm::name() == "zgemm", "name of zgemm");
}
extern "C" void zgemm3m_(const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12)
{
    ++calls; called = 145;
    sv_assert(seen(v0, 0), "zgemm3m argument 0"); 
    sv_assert(seen(v1, 1), "zgemm3m argument 1"); 
    sv_assert(seen(v2, 2), "zgemm3m argument 2"); 
    sv_assert(seen(v3, 3), "zgemm3m argument 3"); 
    sv_assert(seen(v4, 4), "zgemm3m argument 4"); 
    sv_assert(seen(v5, 5), "zgemm3m argument 5"); 
    sv_assert(seen(v6, 6), "zgemm3m argument 6"); 
    sv_assert(seen(v7, 7), "zgemm3m argument 7"); 
    sv_assert(seen(v8, 8), "zgemm3m argument 8"); 
    sv_assert(seen(v9, 9), "zgemm3m argument 9"); 
    sv_assert(seen(v10, 10), "zgemm3m argument 10"); 
    sv_assert(seen(v11, 11), "zgemm3m argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "zgemm3m argument 12"); 
}
static void use_zgemm3m()
{
    prepare(13);
    BlasInterface<IntelMKL, zgemm3m>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const std::complex<double>*)&arg[5], (const std::complex<double>*)&arg[6], (const int*)&arg[7], (const std::complex<double>*)&arg[8], (const int*)&arg[9], (const std::complex<double>*)&arg[10], (std::complex<double>*)&arg[11], (const int*)&arg[12]);
    sv_assert(calls == 1 && called == 145, "zgemm3m calls the function of its name once");
    sv_assert(written<std::complex<double>>(11), "zgemm3m output argument 11");
    sv_assert(zgemm3m::name() == "zgemm3m", "name of zgemm3m");
}
extern "C" void zhemm_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11)
{
    ++calls; called = 146;
    sv_assert(seen(v0, 0), "zhemm argument 0"); 
    sv_assert(seen(v1, 1), "zhemm argument 1"); 
    sv_assert(seen(v2, 2), "zhemm argument 2"); 
    sv_assert(seen(v3, 3), "zhemm argument 3"); 
    sv_assert(seen(v4, 4), "zhemm argument 4"); 
    sv_assert(seen(v5, 5), "zhemm argument 5"); 
    sv_assert(seen(v6, 6), "zhemm argument 6"); 
    sv_assert(seen(v7, 7), "zhemm argument 7"); 
    sv_assert(seen(v8, 8), "zhemm argument 8"); 
    sv_assert(seen(v9, 9), "zhemm argument 9"); 
    sv_assert(seen(v10, 10), "zhemm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "zhemm argument 11"); 
}
static void use_zhemm()
{
    prepare(12);
    BlasInterface<IntelMKL, zhemm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (const std::complex<double>*)&arg[9], (std::complex<double>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 146, "zhemm calls the function of its name once");
    sv_assert(written<std::complex<double>>(10), "zhemm output argument 10");
    sv_assert(zhemm::name() == "zhemm", "name of zhemm");
}
extern "C" void zher2k_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const double* v9, std::complex<double>* v10, const int* v11)
{
    ++calls; called = 147;
    sv_assert(seen(v0, 0), "zher2k argument 0"); 
    sv_assert(seen(v1, 1), "zher2k argument 1"); 
    sv_assert(seen(v2, 2), "zher2k argument 2"); 
    sv_assert(seen(v3, 3), "zher2k argument 3"); 
    sv_assert(seen(v4, 4), "zher2k argument 4"); 
    sv_assert(seen(v5, 5), "zher2k argument 5"); 
    sv_assert(seen(v6, 6), "zher2k argument 6"); 
    sv_assert(seen(v7, 7), "zher2k argument 7"); 
    sv_assert(seen(v8, 8), "zher2k argument 8"); 
    sv_assert(seen(v9, 9), "zher2k argument 9"); 
    sv_assert(seen(v10, 10), "zher2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "zher2k argument 11"); 
}
static void use_zher2k()
{
    prepare(12);
    BlasInterface<IntelMKL, zher2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (const double*)&arg[9], (std::complex<double>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 147, "zher2k calls the function of its name once");
    sv_assert(written<std::complex<double>>(10), "zher2k output argument 10");
    sv_assert(zher2k::name() == "zher2k", "name of zher2k");
}
extern "C" void zherk_(const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const std::complex<double>* v5, const int* v6, const double* v7, std::complex<double>* v8, const int* v9)
{
    ++calls; called = 148;
    sv_assert(seen(v0, 0), "zherk argument 0"); 
    sv_assert(seen(v1, 1), "zherk argument 1"); 
    sv_assert(seen(v2, 2), "zherk argument 2"); 
    sv_assert(seen(v3, 3), "zherk argument 3"); 
    sv_assert(seen(v4, 4), "zherk argument 4"); 
    sv_assert(seen(v5, 5), "zherk argument 5"); 
    sv_assert(seen(v6, 6), "zherk argument 6"); 
    sv_assert(seen(v7, 7), "zherk argument 7"); 
    sv_assert(seen(v8, 8), "zherk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "zherk argument 9"); 
}
static void use_zherk()
{
    prepare(10);
    BlasInterface<IntelMKL, zherk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const double*)&arg[7], (std::complex<double>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 148, "zherk calls the function of its name once");
    sv_assert(written<std::complex<double>>(8), "zherk output argument 8");
    sv_assert(zherk::name() == "zherk", "name of zherk");
}
extern "C" void zsymm_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11)
{
    ++calls; called = 149;
    sv_assert(seen(v0, 0), "zsymm argument 0"); 
    sv_assert(seen(v1, 1), "zsymm argument 1"); 
    sv_assert(seen(v2, 2), "zsymm argument 2"); 
    sv_assert(seen(v3, 3), "zsymm argument 3"); 
    sv_assert(seen(v4, 4), "zsymm argument 4"); 
    sv_assert(seen(v5, 5), "zsymm argument 5"); 
    sv_assert(seen(v6, 6), "zsymm argument 6"); 
    sv_assert(seen(v7, 7), "zsymm argument 7"); 
    sv_assert(seen(v8, 8), "zsymm argument 8"); 
    sv_assert(seen(v9, 9), "zsymm argument 9"); 
    sv_assert(seen(v10, 10), "zsymm argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "zsymm argument 11"); 
}
static void use_zsymm()
{
    prepare(12);
    BlasInterface<IntelMKL, zsymm>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (const std::complex<double>*)&arg[9], (std::complex<double>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 149, "zsymm calls the function of its name once");
    sv_assert(written<std::complex<double>>(10), "zsymm output argument 10");
    sv_assert(zsymm::name() == "zsymm", "name of zsymm");
}
extern "C" void zsyr2k_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11)
{
    ++calls; called = 150;
    sv_assert(seen(v0, 0), "zsyr2k argument 0"); 
    sv_assert(seen(v1, 1), "zsyr2k argument 1"); 
    sv_assert(seen(v2, 2), "zsyr2k argument 2"); 
    sv_assert(seen(v3, 3), "zsyr2k argument 3"); 
    sv_assert(seen(v4, 4), "zsyr2k argument 4"); 
    sv_assert(seen(v5, 5), "zsyr2k argument 5"); 
    sv_assert(seen(v6, 6), "zsyr2k argument 6"); 
    sv_assert(seen(v7, 7), "zsyr2k argument 7"); 
    sv_assert(seen(v8, 8), "zsyr2k argument 8"); 
    sv_assert(seen(v9, 9), "zsyr2k argument 9"); 
    sv_assert(seen(v10, 10), "zsyr2k argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "zsyr2k argument 11"); 
}
static void use_zsyr2k()
{
    prepare(12);
    BlasInterface<IntelMKL, zsyr2k>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (const std::complex<double>*)&arg[9], (std::complex<double>*)&arg[10], (const int*)&arg[11]);
    sv_assert(calls == 1 && called == 150, "zsyr2k calls the function of its name once");
    sv_assert(written<std::complex<double>>(10), "zsyr2k output argument 10");
    sv_assert(zsyr2k::name() == "zsyr2k", "name of zsyr2k");
}
extern "C" void zsyrk_(const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, std::complex<double>* v8, const int* v9)
{
    ++calls; called = 151;
    sv_assert(seen(v0, 0), "zsyrk argument 0"); 
    sv_assert(seen(v1, 1), "zsyrk argument 1"); 
    sv_assert(seen(v2, 2), "zsyrk argument 2"); 
    sv_assert(seen(v3, 3), "zsyrk argument 3"); 
    sv_assert(seen(v4, 4), "zsyrk argument 4"); 
    sv_assert(seen(v5, 5), "zsyrk argument 5"); 
    sv_assert(seen(v6, 6), "zsyrk argument 6"); 
    sv_assert(seen(v7, 7), "zsyrk argument 7"); 
    sv_assert(seen(v8, 8), "zsyrk argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "zsyrk argument 9"); 
}
static void use_zsyrk()
{
    prepare(10);
    BlasInterface<IntelMKL, zsyrk>()((const char*)&arg[0], (const char*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const std::complex<double>*)&arg[4], (const std::complex<double>*)&arg[5], (const int*)&arg[6], (const std::complex<double>*)&arg[7], (std::complex<double>*)&arg[8], (const int*)&arg[9]);
    sv_assert(calls == 1 && called == 151, "zsyrk calls the function of its name once");
    sv_assert(written<std::complex<double>>(8), "zsyrk output argument 8");
    sv_assert(zsyrk::name() == "zsyrk", "name of zsyrk");
}
extern "C" void ztrmm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<double>* v6, const std::complex<double>* v7, const int* v8, std::complex<double>* v9, const int* v10)
{
    ++calls; called = 152;
    sv_assert(seen(v0, 0), "ztrmm argument 0"); 
    sv_assert(seen(v1, 1), "ztrmm argument 1"); 
    sv_assert(seen(v2, 2), "ztrmm argument 2"); 
    sv_assert(seen(v3, 3), "ztrmm argument 3"); 
    sv_assert(seen(v4, 4), "ztrmm argument 4"); 
    sv_assert(seen(v5, 5), "ztrmm argument 5"); 
    sv_assert(seen(v6, 6), "ztrmm argument 6"); 
    sv_assert(seen(v7, 7), "ztrmm argument 7"); 
    sv_assert(seen(v8, 8), "ztrmm argument 8"); 
    sv_assert(seen(v9, 9), "ztrmm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "ztrmm argument 10"); 
}
static void use_ztrmm()
{
    prepare(11);
    BlasInterface<IntelMKL, ztrmm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const std::complex<double>*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (std::complex<double>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 152, "ztrmm calls the function of its name once");
    sv_assert(written<std::complex<double>>(9), "ztrmm output argument 9");
    sv_assert(ztrmm::name() == "ztrmm", "name of ztrmm");
}
extern "C" void ztrsm_(const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<double>* v6, const std::complex<double>* v7, const int* v8, std::complex<double>* v9, const int* v10)
{
    ++calls; called = 153;
    sv_assert(seen(v0, 0), "ztrsm argument 0"); 
    sv_assert(seen(v1, 1), "ztrsm argument 1"); 
    sv_assert(seen(v2, 2), "ztrsm argument 2"); 
    sv_assert(seen(v3, 3), "ztrsm argument 3"); 
    sv_assert(seen(v4, 4), "ztrsm argument 4"); 
    sv_assert(seen(v5, 5), "ztrsm argument 5"); 
    sv_assert(seen(v6, 6), "ztrsm argument 6"); 
    sv_assert(seen(v7, 7), "ztrsm argument 7"); 
    sv_assert(seen(v8, 8), "ztrsm argument 8"); 
    sv_assert(seen(v9, 9), "ztrsm argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "ztrsm argument 10"); 
}
static void use_ztrsm()
{
    prepare(11);
    BlasInterface<IntelMKL, ztrsm>()((const char*)&arg[0], (const char*)&arg[1], (const char*)&arg[2], (const char*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (const std::complex<double>*)&arg[6], (const std::complex<double>*)&arg[7], (const int*)&arg[8], (std::complex<double>*)&arg[9], (const int*)&arg[10]);
    sv_assert(calls == 1 && called == 153, "ztrsm calls the function of its name once");
    sv_assert(written<std::complex<double>>(9), "ztrsm output argument 9");
    sv_assert(ztrsm::name() == "ztrsm", "name of ztrsm");
}
extern "C" void mkl_dcsrmm(const char* v0, const int* v1, const int* v2, const int* v3, const double* v4, const char* v5, const double* v6, const int* v7, const int* v8, const int* v9, const double* v10, const int* v11, const double* v12, double* v13, const int* v14)
{
    ++calls; called = 154;
    sv_assert(seen(v0, 0), "dcsrmm argument 0"); 
    sv_assert(seen(v1, 1), "dcsrmm argument 1"); 
    sv_assert(seen(v2, 2), "dcsrmm argument 2"); 
    sv_assert(seen(v3, 3), "dcsrmm argument 3"); 
    sv_assert(seen(v4, 4), "dcsrmm argument 4"); 
    sv_assert(seen(v5, 5), "dcsrmm argument 5"); 
    sv_assert(seen(v6, 6), "dcsrmm argument 6"); 
    sv_assert(seen(v7, 7), "dcsrmm argument 7"); 
    sv_assert(seen(v8, 8), "dcsrmm argument 8"); 
    sv_assert(seen(v9, 9), "dcsrmm argument 9"); 
    sv_assert(seen(v10, 10), "dcsrmm argument 10"); 
    sv_assert(seen(v11, 11), "dcsrmm argument 11"); 
    sv_assert(seen(v12, 12), "dcsrmm argument 12"); 
    sv_assert(seen(v13, 13), "dcsrmm argument 13"); writes(v13, 13);
    sv_assert(seen(v14, 14), "dcsrmm argument 14"); 
}
static void use_dcsrmm()
{
    prepare(15);
    BlasInterface<IntelMKL, dcsrmm>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const double*)&arg[4], (const char*)&arg[5], (const double*)&arg[6], (const int*)&arg[7], (const int*)&arg[8], (const int*)&arg[9], (const double*)&arg[10], (const int*)&arg[11], (const double*)&arg[12], (double*)&arg[13], (const int*)&arg[14]);
    sv_assert(calls == 1 && called == 154, "dcsrmm calls the function of its name once");
    sv_assert(written<double>(13), "dcsrmm output argument 13");
    sv_assert(dcsrmm::name() == "dcsrmm", "name of dcsrmm");
}
extern "C" void mkl_dcsrmultcsr(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const int* v5, double* v6, int* v7, int* v8, double* v9, int* v10, int* v11, double* v12, int* v13, int* v14, const int* v15, int* v16)
{
    ++calls; called = 155;
    sv_assert(seen(v0, 0), "dcsrmultcsr argument 0"); 
    sv_assert(seen(v1, 1), "dcsrmultcsr argument 1"); 
    sv_assert(seen(v2, 2), "dcsrmultcsr argument 2"); 
    sv_assert(seen(v3, 3), "dcsrmultcsr argument 3"); 
    sv_assert(seen(v4, 4), "dcsrmultcsr argument 4"); 
    sv_assert(seen(v5, 5), "dcsrmultcsr argument 5"); 
    sv_assert(seen(v6, 6), "dcsrmultcsr argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "dcsrmultcsr argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "dcsrmultcsr argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "dcsrmultcsr argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "dcsrmultcsr argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "dcsrmultcsr argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "dcsrmultcsr argument 12"); writes(v12, 12);
    sv_assert(seen(v13, 13), "dcsrmultcsr argument 13"); writes(v13, 13);
    sv_assert(seen(v14, 14), "dcsrmultcsr argument 14"); writes(v14, 14);
    sv_assert(seen(v15, 15), "dcsrmultcsr argument 15"); 
    sv_assert(seen(v16, 16), "dcsrmultcsr argument 16"); writes(v16, 16);
}
static void use_dcsrmultcsr()
{
    prepare(17);
    BlasInterface<IntelMKL, dcsrmultcsr>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (double*)&arg[6], (int*)&arg[7], (int*)&arg[8], (double*)&arg[9], (int*)&arg[10], (int*)&arg[11], (double*)&arg[12], (int*)&arg[13], (int*)&arg[14], (const int*)&arg[15], (int*)&arg[16]);
    sv_assert(calls == 1 && called == 155, "dcsrmultcsr calls the function of its name once");
    sv_assert(written<double>(6), "dcsrmultcsr output argument 6");
    sv_assert(written<int>(7), "dcsrmultcsr output argument 7");
    sv_assert(written<int>(8), "dcsrmultcsr output argument 8");
    sv_assert(written<double>(9), "dcsrmultcsr output argument 9");
    sv_assert(written<int>(10), "dcsrmultcsr output argument 10");
    sv_assert(written<int>(11), "dcsrmultcsr output argument 11");
    sv_assert(written<double>(12), "dcsrmultcsr output argument 12");
    sv_assert(written<int>(13), "dcsrmultcsr output argument 13");
    sv_assert(written<int>(14), "dcsrmultcsr output argument 14");
    sv_assert(written<int>(16), "dcsrmultcsr output argument 16");
    sv_assert(dcsrmultcsr::name() == "dcsrmultcsr", "name of dcsrmultcsr");
}
extern "C" void mkl_scsrmm(const char* v0, const int* v1, const int* v2, const int* v3, const float* v4, const char* v5, const float* v6, const int* v7, const int* v8, const int* v9, const float* v10, const int* v11, const float* v12, float* v13, const int* v14)
{
    ++calls; called = 156;
    sv_assert(seen(v0, 0), "scsrmm argument 0"); 
    sv_assert(seen(v1, 1), "scsrmm argument 1"); 
    sv_assert(seen(v2, 2), "scsrmm argument 2"); 
    sv_assert(seen(v3, 3), "scsrmm argument 3"); 
    sv_assert(seen(v4, 4), "scsrmm argument 4"); 
    sv_assert(seen(v5, 5), "scsrmm argument 5"); 
    sv_assert(seen(v6, 6), "scsrmm argument 6"); 
    sv_assert(seen(v7, 7), "scsrmm argument 7"); 
    sv_assert(seen(v8, 8), "scsrmm argument 8"); 
    sv_assert(seen(v9, 9), "scsrmm argument 9"); 
    sv_assert(seen(v10, 10), "scsrmm argument 10"); 
    sv_assert(seen(v11, 11), "scsrmm argument 11"); 
    sv_assert(seen(v12, 12), "scsrmm argument 12"); 
    sv_assert(seen(v13, 13), "scsrmm argument 13"); writes(v13, 13);
    sv_assert(seen(v14, 14), "scsrmm argument 14"); 
}
static void use_scsrmm()
{
    prepare(15);
    BlasInterface<IntelMKL, scsrmm>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const float*)&arg[4], (const char*)&arg[5], (const float*)&arg[6], (const int*)&arg[7], (const int*)&arg[8], (const int*)&arg[9], (const float*)&arg[10], (const int*)&arg[11], (const float*)&arg[12], (float*)&arg[13], (const int*)&arg[14]);
    sv_assert(calls == 1 && called == 156, "scsrmm calls the function of its name once");
    sv_assert(written<float>(13), "scsrmm output argument 13");
    sv_assert(scsrmm::name() == "scsrmm", "name of scsrmm");
}
extern "C" void mkl_scsrmultcsr(const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const int* v5, float* v6, int* v7, int* v8, float* v9, int* v10, int* v11, float* v12, int* v13, int* v14, const int* v15, int* v16)
{
    ++calls; called = 157;
    sv_assert(seen(v0, 0), "scsrmultcsr argument 0"); 
    sv_assert(seen(v1, 1), "scsrmultcsr argument 1"); 
    sv_assert(seen(v2, 2), "scsrmultcsr argument 2"); 
    sv_assert(seen(v3, 3), "scsrmultcsr argument 3"); 
    sv_assert(seen(v4, 4), "scsrmultcsr argument 4"); 
    sv_assert(seen(v5, 5), "scsrmultcsr argument 5"); 
    sv_assert(seen(v6, 6), "scsrmultcsr argument 6"); writes(v6, 6);
    sv_assert(seen(v7, 7), "scsrmultcsr argument 7"); writes(v7, 7);
    sv_assert(seen(v8, 8), "scsrmultcsr argument 8"); writes(v8, 8);
    sv_assert(seen(v9, 9), "scsrmultcsr argument 9"); writes(v9, 9);
    sv_assert(seen(v10, 10), "scsrmultcsr argument 10"); writes(v10, 10);
    sv_assert(seen(v11, 11), "scsrmultcsr argument 11"); writes(v11, 11);
    sv_assert(seen(v12, 12), "scsrmultcsr argument 12"); writes(v12, 12);
    sv_assert(seen(v13, 13), "scsrmultcsr argument 13"); writes(v13, 13);
    sv_assert(seen(v14, 14), "scsrmultcsr argument 14"); writes(v14, 14);
    sv_assert(seen(v15, 15), "scsrmultcsr argument 15"); 
    sv_assert(seen(v16, 16), "scsrmultcsr argument 16"); writes(v16, 16);
}
static void use_scsrmultcsr()
{
    prepare(17);
    BlasInterface<IntelMKL, scsrmultcsr>()((const char*)&arg[0], (const int*)&arg[1], (const int*)&arg[2], (const int*)&arg[3], (const int*)&arg[4], (const int*)&arg[5], (float*)&arg[6], (int*)&arg[7], (int*)&arg[8], (float*)&arg[9], (int*)&arg[10], (int*)&arg[11], (float*)&arg[12], (int*)&arg[13], (int*)&arg[14], (const int*)&arg[15], (int*)&arg[16]);
    sv_assert(calls == 1 && called == 157, "scsrmultcsr calls the function of its name once");
    sv_assert(written<float>(6), "scsrmultcsr output argument 6");
    sv_assert(written<int>(7), "scsrmultcsr output argument 7");
    sv_assert(written<int>(8), "scsrmultcsr output argument 8");
    sv_assert(written<float>(9), "scsrmultcsr output argument 9");
    sv_assert(written<int>(10), "scsrmultcsr output argument 10");
    sv_assert(written<int>(11), "scsrmultcsr output argument 11");
    sv_assert(written<float>(12), "scsrmultcsr output argument 12");
    sv_assert(written<int>(13), "scsrmultcsr output argument 13");
    sv_assert(written<int>(14), "scsrmultcsr output argument 14");
    sv_assert(written<int>(16), "scsrmultcsr output argument 16");
    sv_assert(scsrmultcsr::name() == "scsrmultcsr", "name of scsrmultcsr");
}
extern "C" void cdotc_(std::complex<float>* r, const int* v0, const std::complex<float>* v1, const int* v2, const std::complex<float>* v3, const int* v4)
{
    ++calls; called = 158; sv_assert(seen(v0, 0), "cdotc argument 0"); sv_assert(seen(v1, 1), "cdotc argument 1"); sv_assert(seen(v2, 2), "cdotc argument 2"); sv_assert(seen(v3, 3), "cdotc argument 3"); sv_assert(seen(v4, 4), "cdotc argument 4");
    memcpy(r, &out[0], sizeof *r);
}
static void use_cdotc()
{
    prepare(5); std::complex<float> r = BlasInterface<IntelMKL, cdotc>()((int*)&arg[0], (std::complex<float>*)&arg[1], (int*)&arg[2], (std::complex<float>*)&arg[3], (int*)&arg[4]);
    sv_assert(memcmp(&r, &out[0], sizeof r) == 0, "cdotc result"); sv_assert(calls == 1 && called == 158, "cdotc calls the function of its name once");
}
extern "C" void cdotu_(std::complex<float>* r, const int* v0, const std::complex<float>* v1, const int* v2, const std::complex<float>* v3, const int* v4)
{
    ++calls; called = 159; sv_assert(seen(v0, 0), "cdotu argument 0"); sv_assert(seen(v1, 1), "cdotu argument 1"); sv_assert(seen(v2, 2), "cdotu argument 2"); sv_assert(seen(v3, 3), "cdotu argument 3"); sv_assert(seen(v4, 4), "cdotu argument 4");
    memcpy(r, &out[0], sizeof *r);
}
static void use_cdotu()
{
    prepare(5); std::complex<float> r = BlasInterface<IntelMKL, cdotu>()((int*)&arg[0], (std::complex<float>*)&arg[1], (int*)&arg[2], (std::complex<float>*)&arg[3], (int*)&arg[4]);
    sv_assert(memcmp(&r, &out[0], sizeof r) == 0, "cdotu result"); sv_assert(calls == 1 && called == 159, "cdotu calls the function of its name once");
}
extern "C" void zdotc_(std::complex<double>* r, const int* v0, const std::complex<double>* v1, const int* v2, const std::complex<double>* v3, const int* v4)
{
    ++calls; called = 160; sv_assert(seen(v0, 0), "zdotc argument 0"); sv_assert(seen(v1, 1), "zdotc argument 1"); sv_assert(seen(v2, 2), "zdotc argument 2"); sv_assert(seen(v3, 3), "zdotc argument 3"); sv_assert(seen(v4, 4), "zdotc argument 4");
    memcpy(r, &out[0], sizeof *r);
}
static void use_zdotc()
{
    prepare(5); std::complex<double> r = BlasInterface<IntelMKL, zdotc>()((int*)&arg[0], (std::complex<double>*)&arg[1], (int*)&arg[2], (std::complex<double>*)&arg[3], (int*)&arg[4]);
    sv_assert(memcmp(&r, &out[0], sizeof r) == 0, "zdotc result"); sv_assert(calls == 1 && called == 160, "zdotc calls the function of its name once");
}
extern "C" void zdotu_(std::complex<double>* r, const int* v0, const std::complex<double>* v1, const int* v2, const std::complex<double>* v3, const int* v4)
{
    ++calls; called = 161; sv_assert(seen(v0, 0), "zdotu argument 0"); sv_assert(seen(v1, 1), "zdotu argument 1"); sv_assert(seen(v2, 2), "zdotu argument 2"); sv_assert(seen(v3, 3), "zdotu argument 3"); sv_assert(seen(v4, 4), "zdotu argument 4");
    memcpy(r, &out[0], sizeof *r);
}
static void use_zdotu()
{
    prepare(5); std::complex<double> r = BlasInterface<IntelMKL, zdotu>()((int*)&arg[0], (std::complex<double>*)&arg[1], (int*)&arg[2], (std::complex<double>*)&arg[3], (int*)&arg[4]);
    sv_assert(memcmp(&r, &out[0], sizeof r) == 0, "zdotu result"); sv_assert(calls == 1 && called == 161, "zdotu calls the function of its name once");
}
static int threads_seen; extern "C" void MKL_Set_Num_Threads(int n) { ++calls; threads_seen = n; } extern "C" void MKL_Set_Dynamic(int) {}
HARNESS(mkl_threads) { int n = sv_i32("n"); calls = 0; IntelMKL_set_num_threads(n); sv_assert(calls == 1 && threads_seen == n, "number of threads"); sv_reach("end"); }
HARNESS(mkl_000) { use_scabs1(); use_sasum(); use_saxpy(); use_saxpby(); use_scasum(); use_scnrm2(); use_scopy(); use_sdot(); sv_reach("end"); }
HARNESS(mkl_008) { use_sdsdot(); use_snrm2(); use_srot(); use_srotg(); use_srotm(); use_srotmg(); use_sscal(); use_sswap(); sv_reach("end"); }
HARNESS(mkl_016) { use_isamax(); use_isamin(); use_caxpy(); use_caxpby(); use_ccopy(); use_crotg(); use_cscal(); use_csrot(); sv_reach("end"); }
HARNESS(mkl_024) { use_csscal(); use_cswap(); use_icamax(); use_icamin(); use_dcabs1(); use_dasum(); use_daxpy(); use_daxpby(); sv_reach("end"); }
HARNESS(mkl_032) { use_dcopy(); use_ddot(); use_dsdot(); use_dnrm2(); use_drot(); use_drotg(); use_drotm(); use_drotmg(); sv_reach("end"); }
HARNESS(mkl_040) { use_dscal(); use_dswap(); use_dzasum(); use_dznrm2(); use_idamax(); use_idamin(); use_zaxpy(); use_zaxpby(); sv_reach("end"); }
HARNESS(mkl_048) { use_zcopy(); use_zdrot(); use_zdscal(); use_zrotg(); use_zscal(); use_zswap(); use_izamax(); use_izamin(); sv_reach("end"); }
HARNESS(mkl_056) { use_sgbmv(); use_sgemv(); use_sger(); use_ssbmv(); use_sspmv(); use_sspr(); use_sspr2(); use_ssymv(); sv_reach("end"); }
HARNESS(mkl_064) { use_ssyr(); use_ssyr2(); use_stbmv(); use_stbsv(); use_stpmv(); use_stpsv(); use_strmv(); use_strsv(); sv_reach("end"); }
HARNESS(mkl_072) { use_cgbmv(); use_cgemv(); use_cgerc(); use_cgeru(); use_chbmv(); use_chemv(); use_cher(); use_cher2(); sv_reach("end"); }
HARNESS(mkl_080) { use_chpmv(); use_chpr(); use_chpr2(); use_ctbmv(); use_ctbsv(); use_ctpmv(); use_ctpsv(); use_ctrmv(); sv_reach("end"); }
HARNESS(mkl_088) { use_ctrsv(); use_dgbmv(); use_dgemv(); use_dger(); use_dsbmv(); use_dspmv(); use_dspr(); use_dspr2(); sv_reach("end"); }
HARNESS(mkl_096) { use_dsymv(); use_dsyr(); use_dsyr2(); use_dtbmv(); use_dtbsv(); use_dtpmv(); use_dtpsv(); use_dtrmv(); sv_reach("end"); }
HARNESS(mkl_104) { use_dtrsv(); use_zgbmv(); use_zgemv(); use_zgerc(); use_zgeru(); use_zhbmv(); use_zhemv(); use_zher(); sv_reach("end"); }
HARNESS(mkl_112) { use_zher2(); use_zhpmv(); use_zhpr(); use_zhpr2(); use_ztbmv(); use_ztbsv(); use_ztpmv(); use_ztpsv(); sv_reach("end"); }
HARNESS(mkl_120) { use_ztrmv(); use_ztrsv(); use_sgemm(); use_ssymm(); use_ssyr2k(); use_ssyrk(); use_strmm(); use_strsm(); sv_reach("end"); }
HARNESS(mkl_128) { use_cgemm(); use_cgemm3m(); use_chemm(); use_cher2k(); use_cherk(); use_csymm(); use_csyr2k(); use_csyrk(); sv_reach("end"); }
HARNESS(mkl_136) { use_ctrmm(); use_ctrsm(); use_dgemm(); use_dsymm(); use_dsyr2k(); use_dsyrk(); use_dtrmm(); use_dtrsm(); sv_reach("end"); }
HARNESS(mkl_144) { use_zgemm(); use_zgemm3m(); use_zhemm(); use_zher2k(); use_zherk(); use_zsymm(); use_zsyr2k(); use_zsyrk(); sv_reach("end"); }
HARNESS(mkl_152) { use_ztrmm(); use_ztrsm(); use_dcsrmm(); use_dcsrmultcsr(); use_scsrmm(); use_scsrmultcsr(); use_cdotc(); use_cdotu(); sv_reach("end"); }
HARNESS(mkl_160) { use_zdotc(); use_zdotu(); sv_reach("end"); }
