// C13: delay lines.
#include "stream.hpp"
#include <kfr/dsp/delay.hpp>
#include <kfr/base.hpp>
using namespace kfr;

template <typename T>
static bool same(const char* what, const T* y, const T* x, size_t n, size_t d)
{
    for (size_t i = 0; i < n; ++i)
    {
        T ex = i >= d ? x[i - d] : T(0);
        if (!(y[i] == ex))
        {
            fail("%s: output %zu of %zu is %Lg, not %Lg", what, i, n, (ld)num<T>::mag(num<T>::up(y[i])),
                 (ld)num<T>::mag(num<T>::up(ex)));
            return false;
        }
    }
    seen(hash_bytes(what, strlen(what)));
    return true;
}
template <typename T>
static void fill(Rng& r, T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        if constexpr (std::is_integral_v<T>)
            p[i] = (T)r.next();
        else
            p[i] = num<T>::make(r);
}

template <size_t D, typename T>
static void one(size_t n, int style)
{
    if (!begin("delay/%s%zu/%zu/n%zu/split%d", num<T>::name(), sizeof(T), D, n, style))
        return;
    Rng r = case_rng();
    Buf<T> x(n), y(n);
    fill(r, x.data(), n);
    auto calls = split_calls(r, n, style, 1 + r.below(20));
    {
        univector<T> out = delay<D>(make_univector(x.data(), n));
        if (out.size() != n)
            return fail("the delay expression has %zu elements, not %zu", out.size(), n);
        if (!same("delay", out.data(), x.data(), n, D))
            return;
    }
    {
        auto e = delay<D>(make_univector(x.data(), n));
        read_pieces(r, e, y.data(), n);
        if (!same("delay in pieces", y.data(), x.data(), n, D))
            return;
    }
    {
        delay_state<T, D> state;
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = delay(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!y.intact())
            return fail("delay with external state: wrote outside the output");
        if (!same("delay with external state", y.data(), x.data(), n, D))
            return;
    }
    {
        delay_state<T, D, tag_dynamic_vector> state;
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = delay(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!same("delay with dynamic external state", y.data(), x.data(), n, D))
            return;
    }
    {
        // two delays one after the other, and the delayed sum of an expression
        univector<T> out = delay<3>(delay<D>(make_univector(x.data(), n)));
        if (!same("delay of a delay", out.data(), x.data(), n, D + 3))
            return;
    }
    {
        // in place through the external state
        delay_state<T, D> state;
        memcpy((void*)y.data(), x.data(), n * sizeof(T));
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = delay(make_univector(y.data() + p, c), std::ref(state));
            p += c;
        }
        if (!same("delay in place", y.data(), x.data(), n, D))
            return;
    }
    sample("%s: exact in every form, %zu calls", cur(), calls.size());
}

template <typename T, typename F>
static void frac(size_t n, F d, int style)
{
    if (!begin("fracdelay/%s/%.9g/n%zu/split%d", num<T>::name(), (double)d, n, style))
        return;
    Rng r = case_rng();
    Buf<T> x(n), y(n);
    fill(r, x.data(), n);
    using R = typename num<T>::real;
    auto check = [&](const char* what, const T* p)
    {
        for (size_t i = 0; i < n; ++i)
        {
            cld ex = cld(num<T>::up(x[i])) * (1 - (ld)d) + (i ? cld(num<T>::up(x[i - 1])) * (ld)d : cld(0));
            ld e   = err_at(p[i], ex);
            if (!(e <= 8 * std::max(eps<R>(), eps<F>())))
                return fail("%s: output %zu of %zu is off by %Lg", what, i, n, e);
        }
        seen(hash_bytes(what, strlen(what)));
    };
    univector<T> out = fracdelay(make_univector(x.data(), n), d);
    check("fracdelay", out.data());
    auto e = fracdelay(make_univector(x.data(), n), d);
    read_pieces(r, e, y.data(), n);
    check("fracdelay in pieces", y.data());
}

template <typename T>
static void all()
{
    Rng r(st().seed * 43 + sizeof(T));
    int n = thorough() ? 120 : 14;
    for (int i = 0; i < n; ++i)
    {
        auto go = [&](auto d) { one<decltype(d)::value, T>(i < 3 ? i + decltype(d)::value - 1 : r.below(i & 1 ? 80 : 300), i % n_split_styles); };
        go(csize_t<1>{});
        go(csize_t<2>{});
        go(csize_t<3>{});
        go(csize_t<4>{});
        go(csize_t<5>{});
        go(csize_t<7>{});
        go(csize_t<8>{});
        go(csize_t<9>{});
        go(csize_t<15>{});
        go(csize_t<16>{});
        go(csize_t<17>{});
        go(csize_t<31>{});
        go(csize_t<33>{});
        go(csize_t<64>{});
        go(csize_t<100>{});
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
#if PART == 0
    all<float>();
    all<double>();
#else
    all<int16_t>();
    all<complex<float>>();
#endif
    Rng r(st().seed);
    for (int i = 0; i < (thorough() ? 600 : 60); ++i)
    {
        double d = i == 0 ? 0 : i == 1 ? 1 : r.unit();
        frac<float, float>(r.below(100), (float)d, 0);
        frac<double, double>(r.below(100), d, 0);
        frac<complex<float>, float>(r.below(100), (float)d, 0);
    }
    return done();
}
