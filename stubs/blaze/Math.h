// Stand-in for blaze/Math.h (blaze is not installed here): custom matrices over caller memory and their product.
// The wrapped array is column-major with the given spacing between columns; the product is the textbook one.
#pragma once
#include <cstddef>
#include <stdexcept>
#include <type_traits>
namespace blaze {
enum AlignmentFlag { unaligned = false, aligned = true }; enum PaddingFlag { unpadded = false, padded = true };
const bool columnMajor = true; const bool rowMajor = false;
template <class A, class B> struct SvProduct { A const& a; B const& b; };
template <class T, AlignmentFlag AF, PaddingFlag PF, bool SO> class CustomMatrix {
public:
    static_assert(SO == columnMajor, "only column-major");
    CustomMatrix(T* p, size_t m, size_t n, size_t s) : v(p), m_(m), n_(n), s_(s) { if (s < m) throw std::invalid_argument("Invalid spacing"); }
    CustomMatrix(T* p, size_t m, size_t n) : CustomMatrix(p, m, n, m) {}
    size_t rows() const { return m_; } size_t columns() const { return n_; } T& operator()(size_t i, size_t j) { return v[i + j * s_]; } T const& operator()(size_t i, size_t j) const { return v[i + j * s_]; }
    template <class A, class B> CustomMatrix& operator=(SvProduct<A, B> const& p)
    {
        if (p.a.columns() != p.b.rows()) throw std::invalid_argument("Matrix sizes do not match"); if (p.a.rows() != m_ || p.b.columns() != n_) throw std::invalid_argument("Matrix cannot be resized");
        for (size_t j = 0; j < n_; ++j) for (size_t i = 0; i < m_; ++i) { T s = 0; for (size_t k = 0; k < p.a.columns(); ++k) s = s + T(p.a(i, k)) * T(p.b(k, j)); (*this)(i, j) = s; } return *this;
    }
private:
    T* v; size_t m_, n_, s_;
};
template <class T, AlignmentFlag A, PaddingFlag P, bool S, class U, AlignmentFlag B, PaddingFlag Q, bool R> SvProduct<CustomMatrix<T, A, P, S>, CustomMatrix<U, B, Q, R>> operator*(CustomMatrix<T, A, P, S> const& a, CustomMatrix<U, B, Q, R> const& b) { return {a, b}; }
}
