// C16: windowed-sinc FIR design against the definition in long double.
#include "stream.hpp"
#include <kfr/dsp/fir_design.hpp>
#include <kfr/dsp/window.hpp>
using namespace kfr;

static const ld PI = 3.14159265358979323846264338327950288L;
static const char* names[] = { "lowpass", "highpass", "bandpass", "bandstop" };
static ld sinc_l(ld x) { return fabsl(x) < 1e-12L ? 1 : sinl(x) / x; }

template <typename T>
static void one(int kind, size_t n, int var)
{
    if (!begin("fir_design/%s/%s/%zu/%d", sizeof(T) == 4 ? "f32" : "f64", names[kind], n, var))
        return;
    Rng r = case_rng();
    T f1 = (T)(0.5 * r.unit()), f2 = (T)(0.5 * r.unit());
    if (var % 4 == 1)
        f1 = (T)(0.002 + 0.01 * r.unit()), f2 = (T)(0.49 - 0.01 * r.unit());
    if (f2 < f1)
        std::swap(f1, f2);
    const bool normalize = var & 1;
    // any window will do: the library's own, one from the user's data, one without unit centre
    std::vector<T> wv(n);
    univector<T> data(n);
    bool symmetric = true;
    expression_handle<T> w;
    int wk = (int)r.below(8);
    switch (wk)
    {
    case 0: w = to_handle(window_kaiser<T>(n, 3)); break;
    case 1: w = to_handle(window_hann<T>(n)); break;
    case 2: w = to_handle(window_rectangular<T>(n)); break;
    case 3: w = to_handle(window_blackman_harris<T>(n)); break;
    case 4:
        w         = to_handle(window_hann<T>(n) * T(1));
        w         = window<T>(n, window_type::hamming, T(0.54), window_symmetry::periodic);
        symmetric = false;
        break;
    case 5: w = to_handle(window_gaussian<T>(n) * T(0.75)); break;
    case 6:
        for (size_t i = 0; i < n; ++i)
            data[i] = (T)r.unit();
        w         = to_handle(data);
        symmetric = false;
        break;
    default:
        for (size_t i = 0; i < n; ++i)
            data[i] = (T)(0.3 + r.unit());
        for (size_t i = 0; i < n; ++i)
            data[i] = data[n - 1 - i];
        w = to_handle(data);
        break;
    }
    make_univector(wv.data(), n) = w;
    if (n < 2 && wk != 2)
        for (T v : wv)
            if (!std::isfinite(v))
                return; // windows of one point are not defined
    Buf<T> taps(n);
    univector_ref<T> ref(taps.data(), n);
    if (var % 3 == 0)
    {
        switch (kind)
        {
        case 0: fir_lowpass(ref, f1, w, normalize); break;
        case 1: fir_highpass(ref, f1, w, normalize); break;
        case 2: fir_bandpass(ref, f1, f2, w, normalize); break;
        default: fir_bandstop(ref, f1, f2, w, normalize); break;
        }
    }
    else
    {
        univector<T> v(n);
        switch (kind)
        {
        case 0: fir_lowpass(v, f1, w, normalize); break;
        case 1: fir_highpass(v, f1, w, normalize); break;
        case 2: fir_bandpass(v, f1, f2, w, normalize); break;
        default: fir_bandstop(v, f1, f2, w, normalize); break;
        }
        for (size_t i = 0; i < n; ++i)
            taps[i] = v[i];
    }
    if (!taps.intact())
        return fail("wrote outside the taps");
    // definition
    std::vector<ld> want(n), tol(n);
    ld sum = 0, sumtol = 0;
    for (size_t i = 0; i < n; ++i)
    {
        const ld c = i - (n - 1) / 2.0L, e = eps<T>();
        auto lp = [&](ld f, ld& t)
        {
            ld x = 2 * PI * f * c, top = PI * f * (n - 1);
            t += 8 * e * 2 * f * (1 + std::min(top / std::max(fabsl(x), 1.0L), top));
            return 2 * f * sinc_l(x);
        };
        const ld delta = (n % 2 == 1 && i == n / 2) ? 1 : 0;
        ld t           = delta * 4 * e;
        switch (kind)
        {
        case 0: want[i] = lp(f1, t); break;
        case 1: want[i] = delta - lp(f1, t); break;
        case 2: want[i] = lp(f2, t) - lp(f1, t); break;
        default: want[i] = delta + lp(f1, t) - lp(f2, t); break;
        }
        want[i] *= wv[i];
        tol[i] = t * fabsl((ld)wv[i]) + 1e-40L;
        sum += want[i];
        sumtol += tol[i] + fabsl(want[i]) * 4 * e;
    }
    if (normalize)
    {
        ld d = (kind == 1 || kind == 2) ? sum + 1 : sum;
        if (fabsl(d) < 100 * sumtol + 1e-3L) // cannot be normalised: even number of taps without a centre, or sum zero
            return stat("not_normalisable");
        for (size_t i = 0; i < n; ++i)
        {
            want[i] /= d;
            tol[i] = tol[i] / fabsl(d) + fabsl(want[i]) * (sumtol / fabsl(d) * 1.02L + 8 * eps<T>());
        }
    }
    ld got = 0, gottol = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (!(fabsl((ld)taps[i] - want[i]) <= tol[i]))
            return fail("fir_%s(%zu taps, %.9g, %.9g, window %d, normalize %d)[%zu] = %.17g, expected %.17Lg (%.2Lf of the tolerance)", names[kind], n, (double)f1, (double)f2, wk,
                        normalize, i, (double)taps[i], want[i], fabsl((ld)taps[i] - want[i]) / tol[i]);
        got += taps[i];
        gottol += 8 * eps<T>() * fabsl((ld)taps[i]);
        if (symmetric && (wk == 2 || wk == 7) && fabsl((ld)taps[i] - (ld)taps[n - 1 - i]) > 2 * tol[i] + 8 * eps<T>() * fabsl((ld)taps[i]))
            return fail("fir_%s(%zu taps, window %d) is not symmetric at %zu: %.17g, %.17g", names[kind], n, wk, i, (double)taps[i], (double)taps[n - 1 - i]);
        evals(1);
    }
    if (normalize && (kind == 0 || kind == 3) && !(fabsl(got - 1) <= gottol))
        return fail("fir_%s(%zu taps, window %d): gain at zero is %.17Lg", names[kind], n, wk, got);
    seen((u64)wk * 2 + normalize);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
    const int reps = thorough() ? 60 : 8;
    for (int rep = 0; rep < reps; ++rep)
    {
        Rng r = case_rng(rep);
        for (int k = 0; k < 4; ++k)
        {
            for (size_t n = 1; n <= 66; ++n)
            {
                one<float>(k, n, rep * 2 + 100 * k + (n & 1));
                one<double>(k, n, rep * 2 + 100 * k + (n & 1) + 1);
            }
            for (int j = 0; j < 20; ++j)
            {
                size_t n = 67 + r.below(j == 0 ? 4000 : 460);
                one<float>(k, n, rep * 1000 + j);
                one<double>(k, n, rep * 1000 + j);
            }
        }
    }
    return done();
}
