// C12: a filter after reset against a new one, bit by bit.
#include "isa.hpp"
#include "stream.hpp"
#include <kfr/dft.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
#include <kfr/base.hpp>
using namespace kfr;

template <typename U, typename Make>
static void run(const char* name, Make make, size_t maxn)
{
    for (int i = 0; i < (thorough() ? 800 : 120); ++i)
    {
        if (!begin("%s/%s/%d", name, num<U>::name(), i))
            continue;
        Rng r = case_rng();
        u64 pseed = r.next();
        auto fresh = [&] { Rng q(pseed); return make(q); };
        Isa isa = isas()[r.below(isas().size())];
        select_isa(isa);
        auto used = fresh();
        int resets = 1 + r.below(3);
        for (int k = 0; k < resets; ++k)
        {
            size_t n  = r.below(maxn);
            auto hist = split_calls(r, n, r.below(n_split_styles), 1 + r.below(40));
            Buf<U> h(n), o(n);
            make_signal(r, h.data(), n, r.below(n_signals));
            int hostile = r.below(4);
            if (hostile == 1 && n)
                h[r.below(n)] = U(std::numeric_limits<typename num<U>::real>::quiet_NaN());
            if (hostile == 2 && n)
                h[r.below(n)] = U(std::numeric_limits<typename num<U>::real>::infinity());
            if (hostile == 3)
                for (size_t j = 0; j < n; ++j)
                    h[j] = h[j] * U((typename num<U>::real)1e30);
            size_t p = 0;
            for (size_t c : hist)
            {
                used->apply(o.data() + p, h.data() + p, c);
                p += c;
            }
            used->reset();
            if (r.chance(0.2))
                used->reset();
            auto nw   = fresh();
            size_t m  = 1 + r.below(maxn);
            auto call = split_calls(r, m, r.below(n_split_styles), 1 + r.below(40));
            Buf<U> x(m), a(m), b(m);
            make_signal(r, x.data(), m, r.below(n_signals));
            p = 0;
            for (size_t c : call)
            {
                used->apply(a.data() + p, x.data() + p, c);
                nw->apply(b.data() + p, x.data() + p, c);
                p += c;
            }
            for (size_t j = 0; j < m; ++j)
                if (memcmp(&a[j], &b[j], sizeof(U)) != 0 && !(a[j] == b[j]))
                {
                    fail("output %zu of %zu after reset %d differs from that of a new filter by %Lg (%s)", j, m, k,
                         (ld)num<U>::mag(num<U>::up(a[j]) - num<U>::up(b[j])), isa.name);
                    break;
                }
            seen(k);
            if (failed())
                break;
        }
        if (!failed())
            sample("%s: %d resets, each followed by output identical to a new filter", cur(), resets);
    }
}

template <typename T, typename U>
static void fir_reset(const char* name)
{
    run<U>(
        name,
        [](Rng& q)
        {
            size_t n = 1 + q.below(60);
            univector<T> taps(n);
            make_signal(q, taps.data(), n, 0);
            return std::make_unique<fir_filter<T, U>>(fir_params<T>(taps));
        },
        300);
}
template <typename T>
static void others()
{
    run<T>(
        "iir",
        [](Rng& q)
        {
            std::vector<biquad_section<T>> s;
            size_t n = 1 + q.below(q.chance(0.7) ? 8 : 64);
            for (size_t i = 0; i < n; ++i)
                s.push_back(biquad_section<T>(T(1), T(q.sym()), T(q.unit() * 0.8), T(q.sym()), T(q.sym()), T(q.sym())));
            return std::make_unique<iir_filter<T>>(iir_params<T>(s));
        },
        200);
}
template <typename T>
static void conv()
{
    run<T>(
        "convolve",
        [](Rng& q)
        {
            size_t b = (size_t)2 << q.below(5), n = 1 + q.below(5 * b);
            univector<T> h(n);
            make_signal(q, h.data(), n, 0);
            return std::make_unique<convolve_filter<T>>(h.slice(), b);
        },
        500);
}
template <typename T>
struct generic : expression_filter<T>
{
    using expression_filter<T>::expression_filter;
};

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    fir_reset<float, float>("fir-f32");
    fir_reset<double, double>("fir-f64");
    fir_reset<float, double>("fir-f32");
    fir_reset<double, float>("fir-f64");
    fir_reset<float, complex<float>>("fir-f32");
    fir_reset<double, complex<double>>("fir-f64");
    others<float>();
    others<double>();
    conv<float>();
    conv<double>();
    conv<complex<float>>();
    conv<complex<double>>();
    // filters made of an expression
    run<float>(
        "generic-stateless",
        [](Rng& q)
        {
            float g = (float)q.sym();
            return std::make_unique<expression_filter<float>>(to_filter(placeholder<float>() * g + 0.5f));
        },
        200);
    run<float>(
        "generic-fir",
        [](Rng& q)
        {
            size_t n = 2 + q.below(20);
            univector<float> taps(n);
            make_signal(q, taps.data(), n, 0);
            return std::make_unique<expression_filter<float>>(to_filter(fir(placeholder<float>(), fir_params<float>(taps))));
        },
        200);
    run<float>(
        "generic-delay", [](Rng& q)
        { return std::make_unique<expression_filter<float>>(to_filter(delay<7>(placeholder<float>()))); }, 200);
    return done();
}
