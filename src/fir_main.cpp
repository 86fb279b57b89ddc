// C08: FIR filters, short FIR expressions and the moving sum against the defining sums, for any splitting.
#include "stream.hpp"
#include <kfr/dsp/fir.hpp>
#include <kfr/base.hpp>
using namespace kfr;

// expected output and error bound of a FIR filter
template <typename T, typename U>
struct FirRef
{
    std::vector<cld> y;
    std::vector<ld> tol;
    FirRef(const T* h, size_t nh, const U* x, size_t n, size_t history = 0)
        : y(n), tol(n)
    {
        // eps of the narrower of the two types, accumulated over the taps
        ld e = std::max(eps<typename num<U>::real>(), eps<typename num<U>::real>());
        for (size_t i = 0; i < n; ++i)
        {
            cld s = 0;
            ld a  = 0;
            for (size_t k = 0; k < nh && k <= i + history; ++k)
            {
                cld p = cld((ld)h[k]) * cld(num<U>::up(x[(ptrdiff_t)i - (ptrdiff_t)k]));
                s += p;
                a += std::abs(p);
            }
            y[i]   = s;
            tol[i] = e * (8 + nh) * a + std::numeric_limits<typename num<U>::real>::min();
        }
    }
};

template <typename U>
static bool same(const char* what, const U* y, const std::vector<cld>& ex, const std::vector<ld>& tol)
{
    for (size_t i = 0; i < ex.size(); ++i)
    {
        ld e = err_at(y[i], ex[i]);
        if (!(e <= tol[i]))
        {
            fail("%s: output %zu of %zu is off by %Lg (tolerance %Lg)", what, i, ex.size(), e, tol[i]);
            return false;
        }
    }
    seen(hash_bytes(what, strlen(what)));
    return true;
}

template <typename T, typename U>
static void one_fir(size_t nh, size_t n, int sig, int style)
{
    if (!begin("fir/%s-%s/taps%zu/n%zu/sig%d/split%d", num<T>::name(), num<U>::name(), nh, n, sig, style))
        return;
    Rng r = case_rng();
    Buf<T> h(nh);
    make_signal(r, h.data(), nh, 0);
    Buf<U> x(n), y(n);
    make_signal(r, x.data(), n, sig);
    FirRef<T, U> ref(h.data(), nh, x.data(), n);
    auto calls = split_calls(r, n, style, style & 1 ? 16 : 1 + r.below(20));
    // the filter class, out of place
    {
        fir_filter<T, U> f(fir_params<T>(h.data(), nh));
        size_t p = 0;
        for (size_t c : calls)
        {
            f.apply(y.data() + p, x.data() + p, c);
            p += c;
        }
        if (!y.intact())
            return fail("fir_filter: wrote outside the output");
        if (!same("fir_filter", y.data(), ref.y, ref.tol))
            return;
    }
    // in place, after other taps were set first
    {
        univector<T> other(1 + r.below(20), T(3));
        fir_filter<T, U> f{ fir_params<T>(other) };
        f.apply(y.data(), std::min<size_t>(n, 7));
        f.set_taps(fir_params<T>(h.data(), nh));
        memcpy((void*)y.data(), x.data(), n * sizeof(U));
        size_t p = 0;
        for (size_t c : calls)
        {
            f.apply(y.data() + p, c);
            p += c;
        }
        if (!y.intact())
            return fail("fir_filter in place: wrote outside the output");
        if (!same("fir_filter in place", y.data(), ref.y, ref.tol))
            return;
    }
    // from an expression
    {
        fir_filter<T, U> f(fir_params<T>(h.data(), nh));
        size_t p = 0;
        for (size_t c : calls)
        {
            auto in = make_univector(x.data() + p, c);
            f.apply(y.data() + p, in * U(2), c);
            p += c;
        }
        for (size_t i = 0; i < n; ++i)
            y[i] = y[i] * U(0.5);
        if (!same("fir_filter of an expression", y.data(), ref.y, ref.tol))
            return;
    }
    // the expression with own state, read in pieces of any width
    {
        auto e = fir(make_univector(x.data(), n), fir_params<T>(h.data(), nh));
        read_pieces(r, e, y.data(), n);
        if (!same("fir expression", y.data(), ref.y, ref.tol))
            return;
    }
    {
        univector<U> out = fir(make_univector(x.data(), n), fir_params<T>(h.data(), nh));
        if (out.size() != n)
            return fail("the fir expression has %zu elements, not %zu", out.size(), n);
        if (!same("fir to univector", out.data(), ref.y, ref.tol))
            return;
    }
    // external state across expressions
    {
        fir_state<T, U> state(fir_params<T>(h.data(), nh));
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = fir(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!y.intact())
            return fail("fir with external state: wrote outside the output");
        if (!same("fir with external state", y.data(), ref.y, ref.tol))
            return;
    }
    // history pushed into the delay line instead of processed
    {
        size_t k = r.below(nh + 1);
        fir_state<T, U> state(fir_params<T>(h.data(), nh));
        std::vector<U> hist(k + n);
        make_signal(r, hist.data(), k, 0);
        for (size_t i = 0; i < n; ++i)
            hist[k + i] = x[i];
        if (k)
        {
            univector<U> hv = make_univector(hist.data(), k);
            state.push_delayline(hv);
        }
        FirRef<T, U> ref2(h.data(), nh, hist.data() + k, n, k);
        make_univector(y.data(), n) = fir(make_univector(x.data(), n), std::ref(state));
        same("fir after push_delayline", y.data(), ref2.y, ref2.tol);
    }
    // coefficients given as a vector that stays the caller's
    {
        univector<T> taps = make_univector(h.data(), nh);
        fir_state<T, U> state(taps);
        const fir_params<T> params(taps);
        fir_filter<T, U> f(params);
        make_univector(y.data(), n) = fir(make_univector(x.data(), n), std::ref(state));
        if (!same("fir with state made from a vector", y.data(), ref.y, ref.tol))
            return;
        make_univector(y.data(), n) = fir(make_univector(x.data(), n), taps);
        if (!same("fir with a vector", y.data(), ref.y, ref.tol))
            return;
        f.apply(y.data(), x.data(), n);
        if (!same("fir_filter made from shared parameters", y.data(), ref.y, ref.tol))
            return;
        if (taps.size() != nh || !std::equal(taps.begin(), taps.end(), h.data()))
            return fail("fir: the caller's coefficients changed");
    }
    sample("%s: every form equals the sum of taps times samples in %zu calls", cur(), calls.size());
}

template <size_t Taps, typename T, typename U>
static void one_short(size_t n, int sig, int style)
{
    if (!begin("short_fir/%s-%s/taps%zu/n%zu/sig%d/split%d", num<T>::name(), num<U>::name(), Taps, n, sig, style))
        return;
    Rng r = case_rng();
    univector<T, Taps> h;
    make_signal(r, h.data(), Taps, 0);
    Buf<U> x(n), y(n);
    make_signal(r, x.data(), n, sig);
    FirRef<T, U> ref(h.data(), Taps, x.data(), n);
    auto calls = split_calls(r, n, style, 1 + r.below(20));
    {
        univector<U> out = short_fir(make_univector(x.data(), n), h);
        if (!same("short_fir", out.data(), ref.y, ref.tol))
            return;
    }
    {
        auto e = short_fir(make_univector(x.data(), n), h);
        read_pieces(r, e, y.data(), n);
        if (!same("short_fir in pieces", y.data(), ref.y, ref.tol))
            return;
    }
    {
        constexpr size_t inner = next_poweroftwo(Taps - 1) + 1;
        short_fir_state<inner, T, U> state(h);
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = short_fir(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!y.intact())
            return fail("short_fir with external state: wrote outside the output");
        if (!same("short_fir with external state", y.data(), ref.y, ref.tol))
            return;
    }
    sample("%s: every form equals the sum of taps times samples in %zu calls", cur(), calls.size());
}

template <typename U>
static void one_sum(size_t len, size_t n, int sig, int style)
{
    if (!begin("moving_sum/%s/%zu/n%zu/sig%d/split%d", num<U>::name(), len, n, sig, style))
        return;
    Rng r = case_rng();
    Buf<U> x(n), y(n);
    if constexpr (std::is_integral_v<U>)
        for (size_t i = 0; i < n; ++i)
            x[i] = (U)r.range(-1000, 1000);
    else
        make_signal(r, x.data(), n, sig);
    std::vector<cld> ex(n);
    std::vector<ld> tol(n);
    for (size_t i = 0; i < n; ++i)
    {
        ld s = 0, a = 0;
        for (size_t k = 0; k < len + 70 && k <= i; ++k)
        {
            if (k < len)
                s += (ld)x[i - k];
            a += fabsl((ld)x[i - k]);
        }
        ex[i]  = s;
        tol[i] = std::is_integral_v<U> ? 0 : eps<U>() * (len + 70) * a;
    }
    auto calls = split_calls(r, n, style, 1 + r.below(20));
    {
        univector<U> out = moving_sum(make_univector(x.data(), n), len);
        if (!same("moving_sum", out.data(), ex, tol))
            return;
    }
    {
        auto e = moving_sum(make_univector(x.data(), n), len);
        read_pieces(r, e, y.data(), n);
        if (!same("moving_sum in pieces", y.data(), ex, tol))
            return;
    }
    {
        moving_sum_state<U> state(len);
        size_t p = 0;
        for (size_t c : calls)
        {
            make_univector(y.data() + p, c) = moving_sum(make_univector(x.data() + p, c), std::ref(state));
            p += c;
        }
        if (!same("moving_sum with external state", y.data(), ex, tol))
            return;
    }
    sample("%s: every form equals the sum of the last %zu samples", cur(), len);
}

template <typename T, typename U>
static void all_fir()
{
    Rng r(st().seed * 31 + sizeof(T) * 100 + sizeof(U));
    for (size_t nh = 1; nh <= 48; ++nh)
        one_fir<T, U>(nh, 20 + r.below(120), nh % n_signals, nh % n_split_styles);
    int n = thorough() ? 1500 : 150;
    for (int i = 0; i < n; ++i)
        one_fir<T, U>(1 + r.below(i % 5 ? 70 : 600), r.below(i % 7 ? 200 : 1500), r.below(n_signals), r.below(n_split_styles));
}
template <typename T, typename U>
static void all_short()
{
    Rng r(st().seed * 37 + sizeof(T) * 100 + sizeof(U));
    int n = thorough() ? 80 : 10;
    for (int i = 0; i < n; ++i)
    {
        auto go = [&](auto k)
        { one_short<decltype(k)::value, T, U>(r.below(150), r.below(n_signals), r.below(n_split_styles)); };
        go(csize_t<2>{});
        go(csize_t<3>{});
        go(csize_t<4>{});
        go(csize_t<5>{});
        go(csize_t<6>{});
        go(csize_t<8>{});
        go(csize_t<9>{});
        go(csize_t<13>{});
        go(csize_t<17>{});
        go(csize_t<18>{});
        go(csize_t<32>{});
        go(csize_t<33>{});
    }
}
template <typename U>
static void all_sum()
{
    Rng r(st().seed * 41 + sizeof(U));
    for (size_t len = 1; len <= 40; ++len)
        one_sum<U>(len, len + r.below(100), len % n_signals, len % n_split_styles);
    int n = thorough() ? 600 : 80;
    for (int i = 0; i < n; ++i)
        one_sum<U>(1 + r.below(i % 4 ? 50 : 500), r.below(700), r.below(n_signals), r.below(n_split_styles));
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
#if PART == 0
    all_fir<float, float>();
    all_fir<double, double>();
    all_fir<float, double>();
    all_fir<double, float>();
    all_fir<float, complex<float>>();
    all_fir<double, complex<double>>();
    all_sum<float>();
    all_sum<double>();
    all_sum<int>();
#elif PART == 1
    all_short<float, float>();
    all_short<float, complex<float>>();
    all_short<float, double>();
#else
    all_short<double, double>();
    all_short<double, complex<double>>();
    all_short<double, float>();
#endif
    return done();
}
