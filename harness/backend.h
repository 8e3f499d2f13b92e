// backend.h - reference BLAS standing in for the library behind the interface: checks every
// argument against the documented contract, then computes the textbook result.
// The library under test only sees the declarations of BlasInterface_*.h.
#pragma once
static void chk(bool b, const char* l) { sv_assert(b, l); if (!b) sv_assume(false); }
template <class T> void refGemm(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* a, const int* lda, const T* b, const int* ldb, const T* be, T* c, const int* ldc)
{
    chk((*ta == 'N' || *ta == 'n') && (*tb == 'N' || *tb == 'n'), "gemm: no transposition requested");
    chk(*m >= 0 && *n >= 0 && *k >= 0, "gemm: dimensions are not negative");
    chk(*lda >= (*m > 1 ? *m : 1), "gemm: leading dimension of A is at least max(1,M)"); chk(*ldb >= (*k > 1 ? *k : 1), "gemm: leading dimension of B is at least max(1,K)"); chk(*ldc >= (*m > 1 ? *m : 1), "gemm: leading dimension of C is at least max(1,M)");
    for (int j = 0; j < *n; ++j) for (int i = 0; i < *m; ++i) {
        T s = 0; for (int l = 0; l < *k; ++l) s = s + a[i + size_t(l) * *lda] * b[l + size_t(j) * *ldb];
        T& x = c[i + size_t(j) * *ldc]; if (*be == T(0)) x = *al * s; else x = *al * s + *be * x;
    }
}
/// compressed sparse rows times dense: only the one-based (column-major) and zero-based (row-major) general forms
template <class T> void refCsrmm(const char* tr, const int* m, const int* n, const int* k, const T* al, const char* md, const T* val, const int* indx, const int* pb, const int* pe, const T* b, const int* ldb, const T* be, T* c, const int* ldc)
{
    chk(*tr == 'N' || *tr == 'n', "csrmm: no transposition requested"); chk(md[0] == 'G' || md[0] == 'g', "csrmm: general matrix"); chk(md[3] == 'F' || md[3] == 'C', "csrmm: index base given");
    const bool one = md[3] == 'F'; const int base = one ? 1 : 0;
    chk(*m >= 0 && *n >= 0 && *k >= 0, "csrmm: dimensions are not negative");
    if (one) { chk(*ldb >= (*k > 1 ? *k : 1), "csrmm: leading dimension of B is at least max(1,K)"); chk(*ldc >= (*m > 1 ? *m : 1), "csrmm: leading dimension of C is at least max(1,M)"); }
    else { chk(*ldb >= (*n > 1 ? *n : 1), "csrmm: leading dimension of B is at least max(1,N)"); chk(*ldc >= (*n > 1 ? *n : 1), "csrmm: leading dimension of C is at least max(1,N)"); }
    for (int i = 0; i < *m; ++i) for (int j = 0; j < *n; ++j) {
        T s = 0; for (int q = pb[i] - pb[0]; q < pe[i] - pb[0]; ++q) { int l = int(sv_concretize(uint64_t(indx[q] - base))); chk(l >= 0 && l < *k, "csrmm: column index inside the matrix"); s = s + val[q] * b[one ? l + size_t(j) * *ldb : size_t(l) * *ldb + j]; }
        T& x = c[one ? i + size_t(j) * *ldc : size_t(i) * *ldc + j]; if (*be == T(0)) x = *al * s; else x = *al * s + *be * x;
    }
}
/// product of two matrices in compressed rows, one-based: request 1 determines the row offsets, request 2 the elements (in rows of
/// descending columns unless sorting of the result is requested), request 0 both; elements that cancel stay stored
template <class T> void refCsrmultcsr(const char* tr, const int* request, const int* sort, const int* m, const int* n, const int* k, T* a, int* ja, int* ia, T* b, int* jb, int* ib, T* c, int* jc, int* ic, const int* nzmax, int* info)
{
    chk(*tr == 'N' || *tr == 'n', "csrmultcsr: no transposition requested"); chk(*request >= 0 && *request <= 2, "csrmultcsr: request is 0, 1 or 2"); chk(*m >= 0 && *n >= 0 && *k >= 0, "csrmultcsr: dimensions are not negative");
    const bool sorted = *sort >= 4 && *sort <= 7; int nnz = 0; *info = 0; chk(*m == 0 || (ia[0] == 1), "csrmultcsr: one-based rows"); chk(*n == 0 || ib[0] == 1, "csrmultcsr: one-based rows");
    for (int i = 0; i < *m; ++i) {
        std::vector<T> s(*k); std::vector<char> h(*k);
        for (int p = ia[i] - 1; p < ia[i + 1] - 1; ++p) { int l = int(sv_concretize(uint64_t(ja[p] - 1))); chk(l >= 0 && l < *n, "csrmultcsr: column index inside A"); for (int q = ib[l] - 1; q < ib[l + 1] - 1; ++q) { int j = int(sv_concretize(uint64_t(jb[q] - 1))); chk(j >= 0 && j < *k, "csrmultcsr: column index inside B"); s[j] = s[j] + a[p] * b[q]; h[j] = 1; } }
        if (*request != 2) ic[i] = nnz + 1; else chk(ic[i] == nnz + 1, "csrmultcsr: row offsets of the first call");
        for (int t = 0; t < *k; ++t) { int j = sorted ? t : *k - 1 - t; if (!h[j]) continue; if (*request == 0 && nnz >= *nzmax) { *info = i + 1; return; } if (*request != 1) { c[nnz] = s[j]; jc[nnz] = j + 1; } ++nnz; }
    }
    if (*request != 2) ic[*m] = nnz + 1;
}
