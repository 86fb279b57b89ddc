// Shared frame of the SIMD monitors: vector operations run lane by lane against scalar definitions.
#pragma once
#include <kfr/base.hpp>
#include "vk.hpp"
#include <type_traits>
#include <vector>

using vk::u64;
using kfr::vec;

#if PART == 0
#define VK_TYPES(X) X(vk::i8_t) X(vk::u8_t)
#elif PART == 1
#define VK_TYPES(X) X(vk::i16_t) X(vk::u16_t)
#elif PART == 2
#define VK_TYPES(X) X(vk::i32_t) X(vk::u32_t)
#elif PART == 3
#define VK_TYPES(X) X(vk::i64_t) X(vk::u64_t)
#elif PART == 4
#define VK_TYPES(X) X(float)
#else
#define VK_TYPES(X) X(double)
#endif

namespace vk
{
using i8_t = int8_t; using u8_t = uint8_t; using i16_t = int16_t; using u16_t = uint16_t;
using i32_t = int32_t; using u32_t = uint32_t; using i64_t = int64_t; using u64_t = uint64_t;

template <typename T> const char* tname()
{
    if (std::is_same<T, float>::value) return "f32";
    if (std::is_same<T, double>::value) return "f64";
    static const char* s[] = { "i8", "i16", "i32", "i64" };
    static const char* u[] = { "u8", "u16", "u32", "u64" };
    int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3;
    return std::is_signed<T>::value ? s[k] : u[k];
}
template <typename T> constexpr bool is_fp = std::is_floating_point<T>::value;
template <typename T> struct bits_of { using type = typename std::make_unsigned<T>::type; };
template <> struct bits_of<float> { using type = uint32_t; };
template <> struct bits_of<double> { using type = uint64_t; };
template <typename T> using U = typename bits_of<T>::type;
template <typename T> U<T> ub(T x) { U<T> r; memcpy(&r, &x, sizeof r); return r; }
template <typename T> T fb(U<T> x) { T r; memcpy(&r, &x, sizeof r); return r; }

// edge value or random value of every magnitude
template <typename T> T gen(Rng& r)
{
    if constexpr (is_fp<T>)
    {
        static const T e[] = { T(0), T(-0.0), T(1), T(-1), T(0.5), T(-0.5), T(1.5), T(-1.5), T(2.5), T(-2.5), T(3.5),
                               std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                               std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(),
                               std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(),
                               std::numeric_limits<T>::epsilon(), T(1) + std::numeric_limits<T>::epsilon() };
        switch (r.below(8))
        {
        case 0: case 1: return e[r.below(sizeof e / sizeof *e)];
        case 2: return std::numeric_limits<T>::quiet_NaN();
        case 3: return T(r.range(-40, 40)) / 2;
        case 4: { T x = fb<T>((U<T>)r.next()); return x == x ? x : T(7); }
        case 5: return T(std::ldexp(r.sym(), (int)r.range(-10, 70)));
        default: return T(r.normal() * 10);
        }
    }
    else
    {
        switch (r.below(6))
        {
        case 0: return std::numeric_limits<T>::max() - T(r.below(3));
        case 1: return std::numeric_limits<T>::min() + T(r.below(3));
        case 2: return T(r.range(-3, 3));
        case 3: return T(u64(1) << r.below(sizeof(T) * 8));
        default: return T(r.next());
        }
    }
}
template <typename T> bool same(T a, T b)
{
    if constexpr (is_fp<T>)
        return ub(a) == ub(b) || (a != a && b != b);
    else
        return a == b;
}
template <typename T> std::string show(T x)
{
    char b[64];
    if constexpr (is_fp<T>) snprintf(b, sizeof b, "%.17g", (double)x);
    else if constexpr (std::is_signed<T>::value) snprintf(b, sizeof b, "%lld", (long long)x);
    else snprintf(b, sizeof b, "%llu", (unsigned long long)x);
    return b;
}
inline bool cpu_ok()
{
#ifdef __AVX512F__
    return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512dq") &&
           __builtin_cpu_supports("avx512vl");
#else
    return true;
#endif
}
#ifdef __clang__
#define VK_CC "clang"
#else
#define VK_CC "gcc"
#endif
} // namespace vk
