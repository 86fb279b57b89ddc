// Choice of the instruction set and tolerance of a transform.
#pragma once
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/runtime.hpp>
using namespace vk;
using kfr::cpu_t;

struct Isa
{
    const char* name;
    cpu_t cpu;
};
static std::vector<Isa> isas()
{
    std::vector<Isa> r;
#ifdef CMT_MULTI
    const Isa all[] = { { "sse2", cpu_t::sse2 },   { "sse41", cpu_t::sse41 }, { "avx", cpu_t::avx1 },
                        { "avx2", cpu_t::avx2 }, { "avx512", cpu_t::avx512 } };
    cpu_t native    = kfr::get_cpu();
    for (auto& i : all)
        if (i.cpu <= native)
            r.push_back(i);
#else
    r.push_back({ VK_ARCH, kfr::get_cpu() });
#endif
    return r;
}
static void select_isa(const Isa& i)
{
#ifdef CMT_MULTI
    kfr::override_cpu(i.cpu);
#endif
}

template <typename T>
const char* tn()
{
    return sizeof(T) == 4 ? "f32" : "f64";
}
static size_t largest_prime(size_t n)
{
    size_t r = 1;
    for (size_t p = 2; p * p <= n; ++p)
        while (n % p == 0)
            r = p, n /= p;
    return n > 1 ? n : r;
}
template <typename T>
ld tolerance(size_t n)
{
    // Max-norm error relative to the rms magnitude of a bin, as measured (times about four).
    // Butterflies of a prime radix p <= 97 sum p terms with twiddles whose phase was rounded after
    // multiplication by up to p/4 turns; they add a term proportional to p.
    static std::map<size_t, ld> memo;
    ld& m = memo[n];
    if (m == 0)
    {
        size_t p = largest_prime(n);
        if (p > 100)
            p = 40; // chirp transform of at most 4 n points
        m = 1.5L * (3.5L + 1.5L * log2l((ld)n + 1) + (p > 7 ? 1.5L * p : 0));
    }
    return eps<T>() * m;
}
