// Independent long double DFT reference.
#pragma once
#include "vk.hpp"
#include <complex>
namespace vk
{
using cld = std::complex<ld>;
struct Twiddle
{
    size_t n;
    std::vector<ld> c, s; // cos, sin of 2 pi j / n
    explicit Twiddle(size_t n) : n(n), c(n), s(n)
    {
        const ld tau = 6.283185307179586476925286766559005768L;
        for (size_t j = 0; j < n; ++j)
        {
            // reduce to the first octant to keep the table exact to the last bits
            size_t k = j * 8 / n;
            ld a;
            size_t r = j;
            if (k == 0 || k == 7)
            {
                a    = tau * ((ld)(i64)(k == 7 ? (i64)r - (i64)n : (i64)r) / n);
                c[j] = cosl(a);
                s[j] = sinl(a);
            }
            else if (k == 1 || k == 2)
            {
                a    = tau * (((ld)r * 4 - n) / (4 * (ld)n));
                c[j] = -sinl(a);
                s[j] = cosl(a);
            }
            else if (k == 3 || k == 4)
            {
                a    = tau * (((ld)r * 2 - n) / (2 * (ld)n));
                c[j] = -cosl(a);
                s[j] = -sinl(a);
            }
            else
            {
                a    = tau * (((ld)r * 4 - 3 * (ld)n) / (4 * (ld)n));
                c[j] = sinl(a);
                s[j] = -cosl(a);
            }
        }
    }
};
/// forward DFT, one bin
inline cld dft_bin(const std::vector<cld>& x, const Twiddle& t, size_t k)
{
    const size_t n = x.size();
    ld re = 0, im = 0;
    size_t j = 0;
    for (size_t i = 0; i < n; ++i)
    {
        const ld c = t.c[j], s = -t.s[j];
        re += x[i].real() * c - x[i].imag() * s;
        im += x[i].real() * s + x[i].imag() * c;
        j += k;
        if (j >= n)
            j -= n;
    }
    return { re, im };
}
inline std::vector<cld> dft_naive(const std::vector<cld>& x, const Twiddle& t)
{
    std::vector<cld> r(x.size());
    for (size_t k = 0; k < x.size(); ++k)
        r[k] = dft_bin(x, t, k);
    return r;
}
} // namespace vk
