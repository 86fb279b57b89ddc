// C09: biquad cascades against their difference equations, for any splitting.
#include "stream.hpp"
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/dcremove.hpp>
#include <kfr/base.hpp>
using namespace kfr;

template <typename T>
using secs = std::vector<biquad_section<T>>;

template <typename T>
static secs<T> random_sections(Rng& r, size_t count, int kind)
{
    secs<T> s;
    for (size_t i = 0; i < count; ++i)
    {
        double rad = kind == 1 ? 0 : kind == 2 ? 1.02 : r.unit() * 0.93;
        double a1, a2;
        if (r.chance(0.6))
        {
            double w = r.unit() * 3.14159;
            a1       = -2 * rad * std::cos(w);
            a2       = rad * rad;
        }
        else
        {
            double p = rad * (r.chance(0.5) ? 1 : -1), q = rad * r.sym();
            a1 = -(p + q);
            a2 = p * q;
        }
        double g = kind == 3 ? 1 : (1 - rad) * 0.8 + 0.1;
        double b0 = g * r.sym(), b1 = g * r.sym(), b2 = g * r.sym();
        if (kind == 4)
            a1 = rad * (r.chance(0.5) ? 1 : -1), a2 = b2 = 0; // first order
        if (kind == 5 && i % 2)
            a1 = a2 = b1 = b2 = 0, b0 = 1; // identity
        s.push_back(biquad_section<T>(T(1), (T)a1, (T)a2, (T)b0, (T)b1, (T)b2));
    }
    return s;
}

/// The difference equations in type R.
template <typename R, typename T>
static std::vector<R> simulate(const secs<T>& s, const T* x, size_t n, ld* largest = nullptr)
{
    std::vector<R> v(x, x + n);
    for (auto& q : s)
    {
        R x1 = 0, x2 = 0, y1 = 0, y2 = 0;
        for (size_t i = 0; i < n; ++i)
        {
            R in = v[i];
            R y  = (R)q.b0 * in + (R)q.b1 * x1 + (R)q.b2 * x2 - (R)q.a1 * y1 - (R)q.a2 * y2;
            x2 = x1, x1 = in, y2 = y1, y1 = y;
            v[i] = y;
            if (largest)
                *largest = std::max(*largest, std::max(fabsl((ld)y), fabsl((ld)in)));
        }
    }
    return v;
}

template <typename T>
struct Ref
{
    std::vector<ld> y;
    ld tol;
    size_t n;
    Ref(const secs<T>& s, const T* x, size_t n) : n(n)
    {
        ld m        = 0;
        y           = simulate<ld>(s, x, n, &m);
        auto coarse = simulate<T>(s, x, n);
        ld e        = 0;
        for (size_t i = 0; i < n; ++i)
            e = std::max(e, fabsl(y[i] - (ld)coarse[i]));
        tol = 40 * e + 100 * eps<T>() * m + std::numeric_limits<T>::min();
    }
    bool check(const char* what, const T* p, size_t from = 0) const
    {
        for (size_t i = 0; i < n; ++i)
        {
            ld d = fabsl((ld)p[i] - y[i]);
            if (!(d <= tol))
            {
                fail("%s: output %zu of %zu is off by %Lg (tolerance %Lg)", what, i + from, n + from, d, tol);
                return false;
            }
        }
        seen(hash_bytes(what, strlen(what)));
        return true;
    }
};

template <typename T>
static void one(size_t count, size_t n, int kind, int sig, int style)
{
    if (!begin("iir/%s/sections%zu/n%zu/kind%d/sig%d/split%d", num<T>::name(), count, n, kind, sig, style))
        return;
    Rng r  = case_rng();
    auto s = random_sections<T>(r, count, kind);
    Buf<T> x(n), y(n);
    make_signal(r, x.data(), n, sig);
    Ref<T> ref(s, x.data(), n);
    auto calls = split_calls(r, n, style, 1 + r.below(24));
    {
        iir_filter<T> f{ iir_params<T>(s) };
        size_t p = 0;
        for (size_t c : calls)
        {
            f.apply(y.data() + p, x.data() + p, c);
            p += c;
        }
        if (!y.intact())
            return fail("iir_filter: wrote outside the output");
        if (!ref.check("iir_filter", y.data()))
            return;
    }
    {
        iir_filter<T> f{ iir_params<T>(s.data(), s.size()) };
        memcpy((void*)y.data(), x.data(), n * sizeof(T));
        size_t p = 0;
        for (size_t c : calls)
        {
            f.apply(y.data() + p, c);
            p += c;
        }
        if (!y.intact())
            return fail("iir_filter in place: wrote outside the output");
        if (!ref.check("iir_filter in place", y.data()))
            return;
    }
    {
        iir_filter<T> f{ iir_params<T>(s) };
        size_t p = 0;
        for (size_t c : calls)
        {
            auto in = make_univector(x.data() + p, c);
            f.apply(y.data() + p, in + T(0), c);
            p += c;
        }
        if (!ref.check("iir_filter of an expression", y.data()))
            return;
    }
#if PART == 0
    {
        univector<T> out = iir(make_univector(x.data(), n), iir_params<T>(s));
        if (!ref.check("iir with run-time parameters", out.data()))
            return;
    }
#endif
    sample("%s: every form follows the difference equations in %zu calls", cur(), calls.size());
}

template <size_t F, typename T>
static void fixed(size_t n, int kind, int sig, int style)
{
    if (!begin("iir-fixed/%s/sections%zu/n%zu/kind%d/sig%d/split%d", num<T>::name(), F, n, kind, sig, style))
        return;
    Rng r  = case_rng();
    auto s = random_sections<T>(r, F, kind);
    biquad_section<T> arr[F];
    for (size_t i = 0; i < F; ++i)
        arr[i] = s[i];
    Buf<T> x(n), y(n);
    make_signal(r, x.data(), n, sig);
    Ref<T> ref(s, x.data(), n);
    auto calls = split_calls(r, n, style, 1 + r.below(24));
    {
        univector<T> out = iir(make_univector(x.data(), n), iir_params{ arr });
        if (out.size() != n)
            return fail("the iir expression has %zu elements, not %zu", out.size(), n);
        if (!ref.check("iir expression", out.data()))
            return;
    }
    {
        iir_state<T, F> state{ iir_params<T, F>(arr, F) };
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = iir(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!y.intact())
            return fail("iir with external state: wrote outside the output");
        if (!ref.check("iir with external state", y.data()))
            return;
    }
    {
        // fewer sections than the parameters hold: the rest pass the signal
        size_t k = 1 + r.below(F);
        secs<T> s2(s.begin(), s.begin() + k);
        Ref<T> ref2(s2, x.data(), n);
        univector<T> out = iir(make_univector(x.data(), n), iir_params<T, F>(arr, k));
        if (!ref2.check("iir with fewer sections", out.data()))
            return;
    }
    if (n > 0)
    {
        // a part of the stream, from a zero state
        size_t a = r.below(n), len = 1 + r.below(n - a);
        Ref<T> ref2(s, x.data() + a, len);
        for (size_t i = 0; i < n; ++i)
            y[i] = T(77);
        auto e = iir(make_univector(x.data(), n), iir_params{ arr });
        process<1>(make_univector(y.data(), n), e, shape<1>(a), shape<1>(len));
        for (size_t i = 0; i < n; ++i)
            if ((i < a || i >= a + len) && y[i] != T(77))
                return fail("process(start = %zu, size = %zu) wrote element %zu", a, len, i);
        if (!ref2.check("iir of a part of the stream", y.data() + a, a))
            return;
    }
    {
        // a cascade of expressions, and a filtered signal as part of a larger expression
        biquad_section<T> one[1] = { s[0] };
        secs<T> s2               = s;
        s2.insert(s2.end(), s.begin(), s.end());
        s2.push_back(s[0]);
        Ref<T> ref2(s2, x.data(), n);
        univector<T> out =
            iir(iir(iir(make_univector(x.data(), n), iir_params{ arr }), iir_params{ arr }), iir_params{ one });
        if (!ref2.check("nested iir", out.data()))
            return;
        univector<T> out2 = T(2) * iir(make_univector(x.data(), n), iir_params{ arr }) - iir(make_univector(x.data(), n), iir_params{ arr });
        if (!ref.check("iir inside an expression", out2.data()))
            return;
    }
    if (n >= F)
    {
        // the variant with latency delivers the stream F - 1 samples later
        univector<T> out = biquad_l(arr, make_univector(x.data(), n));
        Ref<T> ref2(s, x.data(), n - (F - 1));
        if (!ref2.check("biquad_l", out.data() + F - 1))
            return;
    }
    sample("%s: every form follows the difference equations in %zu calls", cur(), calls.size());
}

template <typename T>
static void dc(size_t n, int sig)
{
    if (!begin("dcremove/%s/n%zu/sig%d", num<T>::name(), n, sig))
        return;
    Rng r = case_rng();
    Buf<T> x(n);
    make_signal(r, x.data(), n, sig);
    double cut = r.chance(0.5) ? 0.00025 : r.unit() * 0.1 + 0.0001;
    // second-order high-pass with q = 0.5
    ld k = tanl(acosl(-1.0L) * cut), nrm = 1 / (1 + k / 0.5L + k * k);
    secs<T> s{ biquad_section<T>(T(1), T(2 * (k * k - 1) * nrm), T((1 - k / 0.5L + k * k) * nrm), T(nrm), T(-2 * nrm), T(nrm)) };
    Ref<T> ref(s, x.data(), n);
    // coefficients may be computed in another precision or order
    ref.tol += 3000 * eps<T>() / (cut * 100) * 10;
    univector<T> out = dcremove(make_univector(x.data(), n), cut);
    ref.check("dcremove", out.data());
}

template <typename T>
static void all()
{
    Rng r(st().seed * 53 + sizeof(T));
    for (size_t c = 1; c <= 64; ++c)
        for (int k = 0; k < (thorough() ? 10 : 2); ++k)
            one<T>(c, r.below(k & 1 ? 40 : 250), (c + k) % 6, r.below(n_signals), r.below(n_split_styles));
    int n = thorough() ? 6000 : 500;
    for (int i = 0; i < n; ++i)
        one<T>(1 + r.below(i % 3 ? 9 : 64), r.below(i % 3 ? 300 : 20), r.below(6), r.below(n_signals), r.below(n_split_styles));
    for (int i = 0; i < (thorough() ? 1000 : 120); ++i)
    {
        auto go = [&](auto f)
        { fixed<decltype(f)::value, T>(i % 3 ? r.below(150) : r.below(12), r.below(6), r.below(n_signals), r.below(n_split_styles)); };
#if PART == 0
        go(csize_t<1>{});
        go(csize_t<2>{});
        go(csize_t<4>{});
#else
        go(csize_t<3>{});
        go(csize_t<5>{});
        go(csize_t<8>{});
        dc<T>(r.below(500), r.below(n_signals));
#endif
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    all<float>();
    all<double>();
    return done();
}
