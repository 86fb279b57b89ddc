// C26: matrix transposition, in place and out of place, every small shape, random larger ones.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <cstring>
using namespace vk;
using namespace kfr;

#ifndef PART
#define PART 0
#endif

template <typename T>
struct Name;
#define VK_NAME(...)                                                                                                    \
    template <>                                                                                                         \
    struct Name<__VA_ARGS__>                                                                                            \
    {                                                                                                                   \
        static constexpr const char* v = #__VA_ARGS__;                                                                  \
    };
VK_NAME(u8) VK_NAME(i8) VK_NAME(u16) VK_NAME(i16) VK_NAME(u32) VK_NAME(i32) VK_NAME(f32) VK_NAME(f64) VK_NAME(i64) VK_NAME(u64)
VK_NAME(vec<f32, 3>) VK_NAME(vec<u8, 3>) VK_NAME(vec<f64, 5>) VK_NAME(complex<f32>) VK_NAME(complex<f64>) VK_NAME(vec<f32, 2>) VK_NAME(vec<f32, 4>) VK_NAME(vec<u8, 2>)
VK_NAME(vec<i16, 8>) VK_NAME(vec<f64, 4>) VK_NAME(vec<u8, 16>) VK_NAME(vec<complex<f32>, 2>) VK_NAME(vec<vec<f32, 2>, 2>)

template <typename T>
static void fill(Rng& r, T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char b[sizeof(T)];
        for (auto& x : b)
            x = (unsigned char)r.next();
        if (sizeof(T) >= 8)
        {
            u32 k = (u32)i;
            std::memcpy(b, &k, 4); // distinct
        }
        std::memcpy((void*)(p + i), b, sizeof(T));
    }
}

template <typename T, index_t D>
static void one(Rng& r, shape<D> s, bool inplace)
{
    // without the padding of vec<T, 3>
    constexpr size_t bytes =
        sizeof(typename compound_type_traits<T>::deep_subtype) * compound_type_traits<T>::deep_width;
    size_t n = 1;
    for (index_t i = 0; i < D; ++i)
        n *= s[i];
    std::string d;
    for (index_t i = 0; i < D; ++i)
        d += (i ? "x" : "") + std::to_string(s[i]);
    evals();
    Buf<T> in(n), out(n);
    std::vector<unsigned char> orig(n * sizeof(T) + 1);
    fill(r, in.data(), n);
    fill(r, out.data(), n);
    std::memcpy(orig.data(), (const void*)in.data(), n * sizeof(T));
    T* dst = inplace ? in.data() : out.data();
    matrix_transpose(dst, (const T*)in.data(), s);
    if (!in.intact() || !out.intact())
        return fail("%s of %s, %s: writes outside of the buffer", d.c_str(), Name<T>::v, inplace ? "in place" : "copy");
    if (!inplace && std::memcmp(orig.data(), (const void*)in.data(), n * sizeof(T)))
        return fail("%s of %s: the input was changed", d.c_str(), Name<T>::v);
    // element (i0, .. ik) of s is at (ik, .. i0) of the reversed shape
    size_t ix[D] = {};
    size_t bad   = 0, first = 0;
    for (size_t k = 0; k < n; ++k)
    {
        size_t q = 0;
        for (index_t j = 0; j < D; ++j)
            q = q * s[D - 1 - j] + ix[D - 1 - j];
        if (std::memcmp(orig.data() + k * sizeof(T), (const void*)(dst + q), bytes))
        {
            if (!bad++)
                first = k;
        }
        for (index_t j = D; j-- > 0;)
        {
            if (++ix[j] < s[j])
                break;
            ix[j] = 0;
        }
    }
    if (bad)
        fail("%s of %s, %s: %zu of %zu elements are at a wrong place (first: %zu)", d.c_str(), Name<T>::v,
             inplace ? "in place" : "copy", bad, n, first);
    stat("elements", n);
}

template <typename T>
static void sweep(const char* nm, size_t lim)
{
    for (size_t rows = 0; rows <= lim; ++rows)
    {
        if (!begin("%s small rows=%zu", nm, rows))
            continue;
        watchdog(300);
        Rng r = case_rng();
        for (size_t cols = 0; cols <= lim; ++cols)
            for (int ip = 0; ip < 2; ++ip)
            {
                one<T, 2>(r, shape<2>(rows, cols), ip);
                seen((rows * 1000 + cols) * 2 + ip);
            }
    }
    // the same factors, multiples, one off, prime, and far from square
    for (int k = 0; k < (thorough() ? 400 : 60); ++k)
    {
        if (!begin("%s large k=%d", nm, k))
            continue;
        watchdog(300);
        Rng r       = case_rng();
        size_t rows = r.chance(0.5) ? (size_t)r.range(2, 12) : (size_t)r.range(lim, 3 * lim);
        size_t cols = r.chance(0.3)   ? rows * (size_t)r.range(1, 40) + (size_t)r.range(0, 2)
                      : r.chance(0.3) ? (size_t)r.range(100, 3000)
                                      : (size_t)r.range(2, 400);
        if (r.chance(0.5))
            std::swap(rows, cols);
        while (rows * cols > (size_t)(thorough() ? 4000000 : 300000))
            (rows > cols ? rows : cols) /= 2;
        for (int ip = 0; ip < 2; ++ip)
            one<T, 2>(r, shape<2>(rows, cols), ip);
        seen(rows * 1000003 + cols);
    }
    // bitmaps of visited cycles beyond the one kept on the stack
    for (int k = 0; k < (thorough() ? 12 : 2); ++k)
    {
        if (!begin("%s huge k=%d", nm, k))
            continue;
        watchdog(300);
        Rng r       = case_rng();
        size_t rows = 2 + (size_t)r.range(0, 1 + k), cols = 33000 + (size_t)r.range(0, 40000);
        if (k & 1)
            std::swap(rows, cols);
        for (int ip = 0; ip < 2; ++ip)
            one<T, 2>(r, shape<2>(rows, cols), ip);
        seen(rows * 1000003 + cols);
    }
    for (int k = 0; k < (thorough() ? 600 : 150); ++k)
    {
        if (!begin("%s dims k=%d", nm, k))
            continue;
        watchdog(300);
        Rng r = case_rng();
        for (int ip = 0; ip < 2; ++ip)
        {
            auto e = [&](int m) { return r.chance(0.03) ? (size_t)0 : r.chance(0.2) ? (size_t)1 : (size_t)r.range(1, m); };
            one<T, 1>(r, shape<1>(e(200)), ip);
            one<T, 3>(r, shape<3>(e(24), e(24), e(24)), ip);
            one<T, 4>(r, shape<4>(e(10), e(10), e(10), e(10)), ip);
            one<T, 5>(r, shape<5>(e(6), e(6), e(6), e(6), e(6)), ip);
        }
        seen((u64)k + 77);
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    const size_t L = thorough() ? 140 : 66;
#if PART == 0
    sweep<u8>("u8", L), sweep<f32>("f32", L), sweep<f64>("f64", L);
#elif PART == 1
    sweep<i16>("i16", L), sweep<complex<f32>>("c32", L), sweep<vec<f32, 4>>("v32x4", L);
#elif PART == 2
    sweep<complex<f64>>("c64", L), sweep<vec<u8, 2>>("v8x2", L), sweep<vec<i16, 8>>("v16x8", L);
#elif PART == 4
    sweep<vec<f32, 3>>("v32x3", L), sweep<vec<u8, 3>>("v8x3", L);
#if defined(__clang__) // shuffles of 288 lanes exceed GCC's constexpr depth
    sweep<vec<f64, 5>>("v64x5", L);
#endif
#elif PART == 3
    sweep<vec<f64, 4>>("v64x4", L), sweep<vec<u8, 16>>("v8x16", L), sweep<vec<complex<f32>, 2>>("vc32x2", L),
        sweep<vec<vec<f32, 2>, 2>>("vv32x2", L);
#endif
    return done();
}
