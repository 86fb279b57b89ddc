// Ways of splitting a stream into calls, and number types shared by the filter monitors.
#pragma once
#include "vk.hpp"
#include <complex>
#include <kfr/base.hpp>
using namespace vk;
using cld = std::complex<ld>;

/// Sizes of successive calls (zeros included) that add up to total.
static std::vector<size_t> split_calls(Rng& r, size_t total, int style, size_t block = 16)
{
    std::vector<size_t> v;
    size_t left = total;
    while (left > 0)
    {
        size_t n;
        switch (style)
        {
        case 0:
            n = left;
            break;
        case 1:
            n = 1;
            break;
        case 2:
            n = block;
            break;
        case 3:
            n = block + r.range(-1, 1);
            break;
        case 4:
            n = r.below(2 * block + 3);
            break;
        case 5:
            n = r.chance(0.5) ? r.below(4) : block * r.below(4) + r.below(3);
            break;
        default:
            n = 1 + r.below(7);
            break;
        }
        if (n > left)
            n = left;
        v.push_back(n);
        left -= n;
    }
    if (style == 4 || style == 5)
        v.push_back(0);
    return v;
}
static const int n_split_styles = 7;

template <typename T>
struct num
{
    using ref = ld;
    static T make(Rng& r) { return (T)r.sym(); }
    static ld up(T x) { return x; }
    static ld mag(ld x) { return fabsl(x); }
    static const char* name() { return std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : "int"; }
    using real = T;
};
template <typename T>
struct num<kfr::complex<T>>
{
    using ref = cld;
    static kfr::complex<T> make(Rng& r)
    {
        T a = (T)r.sym();
        return { a, (T)r.sym() };
    }
    static cld up(kfr::complex<T> x) { return { (ld)x.real(), (ld)x.imag() }; }
    static ld mag(cld x) { return std::abs(x); }
    static const char* name() { return sizeof(T) == 4 ? "c32" : "c64"; }
    using real = T;
};

/// Input signals: noise, sparse impulses, constant, ramp, alternating, large steps
template <typename T>
static void make_signal(Rng& r, T* p, size_t n, int kind)
{
    for (size_t i = 0; i < n; ++i)
    {
        T x = num<T>::make(r);
        switch (kind % 6)
        {
        case 0:
            p[i] = x;
            break;
        case 1:
            p[i] = r.chance(0.1) ? x : T(0);
            break;
        case 2:
            p[i] = T(1);
            break;
        case 3:
            p[i] = x * T((typename num<T>::real)((i % 64) / 16.0));
            break;
        case 4:
            p[i] = T((typename num<T>::real)(i & 1 ? -1 : 1));
            break;
        default:
            p[i] = i == 0 ? T(1) : T(0);
            break;
        }
    }
}
static const int n_signals = 6;

/// Read an expression one after another in pieces of random power-of-two widths.
template <size_t MaxW = 32, typename T, typename Expr>
static void read_pieces(Rng& r, const Expr& e, T* out, size_t n, size_t first = 0)
{
    using namespace kfr;
    size_t i = 0;
    while (i < n)
    {
        size_t w = (size_t)1 << r.below(6);
        while (w > n - i || w > MaxW)
            w /= 2;
        auto go = [&](auto W)
        {
            constexpr size_t N = decltype(W)::value;
            if constexpr (N <= MaxW)
            {
                vec<T, N> v = get_elements(e, shape<1>(first + i), axis_params_v<0, N>);
                for (size_t k = 0; k < N; ++k)
                    out[i + k] = v[k];
            }
        };
        switch (w)
        {
        case 1: go(csize_t<1>{}); break;
        case 2: go(csize_t<2>{}); break;
        case 4: go(csize_t<4>{}); break;
        case 8: go(csize_t<8>{}); break;
        case 16: go(csize_t<16>{}); break;
        default: go(csize_t<32>{}); break;
        }
        i += w;
    }
}
template <typename T>
static ld err_at(T y, cld ex)
{
    return std::abs(cld(num<T>::up(y)) - ex);
}
