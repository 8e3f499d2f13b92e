// Stand-in for blaze/util/Memory.h (blaze is not installed here): same contract as blaze 3.x -
// built-in types are left uninitialised, class types are default constructed, deallocate(nullptr) is a no-op.
#pragma once
#include <cstddef>
#include <new>
#include <type_traits>
extern "C" void* sv_blaze_alloc(size_t);
extern "C" void sv_blaze_free(void*);
namespace blaze {
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value, T*>::type allocate(size_t n) { return static_cast<T*>(sv_blaze_alloc(n * sizeof(T))); }
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type deallocate(T* p) noexcept { if (p == nullptr) return; sv_blaze_free(p); }
template <typename T> typename std::enable_if<!std::is_arithmetic<T>::value, T*>::type allocate(size_t n)
{
    constexpr size_t H = alignof(T) > sizeof(size_t) ? alignof(T) : sizeof(size_t);
    char* raw = static_cast<char*>(sv_blaze_alloc(H + n * sizeof(T)));
    *reinterpret_cast<size_t*>(raw) = n;
    T* p = reinterpret_cast<T*>(raw + H);
    for (size_t i = 0; i < n; ++i) ::new (p + i) T();
    return p;
}
template <typename T> typename std::enable_if<!std::is_arithmetic<T>::value>::type deallocate(T* p) noexcept
{
    if (p == nullptr) return;
    constexpr size_t H = alignof(T) > sizeof(size_t) ? alignof(T) : sizeof(size_t);
    char* raw = reinterpret_cast<char*>(p) - H;
    size_t n = *reinterpret_cast<size_t*>(raw);
    for (size_t i = 0; i < n; ++i) p[i].~T();
    sv_blaze_free(raw);
}
} // namespace blaze
