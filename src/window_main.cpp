// C15: window functions. Every value against the defining formula in long double, by every way of reading the window.
#include "stream.hpp"
#include <kfr/dsp/window.hpp>
using namespace kfr;

static const ld PI = 3.14159265358979323846264338327950288L;
using W            = window_type;
static const char* names[] = { "",         "rectangular", "triangular", "bartlett",        "cosine", "hann",    "bartlett_hann", "hamming",   "bohman",
                               "blackman", "blackman_harris", "kaiser", "flattop", "gaussian", "lanczos", "cosine_np",     "planck_taper", "tukey" };
static ld bessel_i0(ld x)
{
    ld s = 1, t = 1;
    for (int k = 1; k < 500; ++k)
    {
        t *= (x / 2 / k) * (x / 2 / k);
        s += t;
        if (t < s * 1e-22L)
            break;
    }
    return s;
}
/// value i of the window of n points; slope: how strongly it depends on the position
static ld value(W w, ld n, ld i, bool sym, ld p, ld& slope)
{
    const ld M  = sym ? n - 1 : n; // a periodic window is the symmetric one of one point more, without the last
    const ld n1 = sym ? n : n + 1;
    const ld x  = i / M, c = i - M / 2;
    slope       = 8;
    switch (w)
    {
    case W::rectangular: slope = 0; return 1;
    case W::triangular: return 1 - fabsl(2 * c / (fmodl(n1, 2) == 1 ? n1 + 1 : n1));
    case W::bartlett: return 1 - fabsl(2 * x - 1);
    case W::cosine: return sinl(PI * x);
    case W::hann: return 0.5L - 0.5L * cosl(2 * PI * x);
    case W::bartlett_hann: return 0.62L - 0.48L * fabsl(x - 0.5L) - 0.38L * cosl(2 * PI * x);
    case W::hamming: slope = 8 + 8 * fabsl(p); return p - (1 - p) * cosl(2 * PI * x);
    case W::bohman:
    {
        ld a = fabsl(2 * x - 1);
        return (1 - a) * cosl(PI * a) + sinl(PI * a) / PI;
    }
    case W::blackman: slope = 8 + 16 * fabsl(p); return (1 - p) / 2 - 0.5L * cosl(2 * PI * x) + p / 2 * cosl(4 * PI * x);
    case W::blackman_harris:
        slope = 16;
        return 0.35875L - 0.48829L * cosl(2 * PI * x) + 0.14128L * cosl(4 * PI * x) - 0.01168L * cosl(6 * PI * x);
    case W::kaiser:
    {
        ld u  = 1 - (2 * x - 1) * (2 * x - 1);
        slope = 4 * p + 8;
        return bessel_i0(p * sqrtl(u < 0 ? 0 : u)) / bessel_i0(p);
    }
    case W::flattop:
        slope = 24;
        return 0.21557895L - 0.41663158L * cosl(2 * PI * x) + 0.277263158L * cosl(4 * PI * x) - 0.083578947L * cosl(6 * PI * x) +
               0.006947368L * cosl(8 * PI * x);
    case W::gaussian:
    {
        ld a  = p * 2 * c / n1;
        slope = 4 * fabsl(p) + 8;
        return expl(-0.5L * a * a);
    }
    case W::lanczos:
    {
        ld a = PI * (2 * x - 1);
        return fabsl(a) < 1e-9L ? 1 : sinl(a) / a;
    }
    case W::cosine_np: return sinl(PI * (i + 0.5L) / n1);
    case W::planck_taper:
    {
        ld t  = (1 - fabsl(2 * x - 1)) / (2 * p);
        slope = 8 + 8 / p;
        return t <= 0 ? 0 : t >= 1 ? 1 : 1 / (1 + expl(1 / t - 1 / (1 - t)));
    }
    case W::tukey:
    {
        ld t  = (1 - fabsl(2 * x - 1)) / p;
        slope = 8 + 8 / p;
        return t <= 0 ? 0 : t >= 1 ? 1 : 0.5L - 0.5L * cosl(PI * t);
    }
    }
    return NAN;
}

template <typename T>
static bool compare(const char* how, W w, size_t n, bool sym, T p, const T* got, size_t first, size_t count)
{
    for (size_t i = 0; i < count; ++i)
    {
        ld slope, want = value(w, n, first + i, sym, p, slope);
        ld err = fabsl((ld)got[i] - want), tol = 1.5L * eps<T>() * (4 + slope);
        if (!(err <= tol))
        {
            fail("%s(%zu, %s, %.9g)[%zu] read %s is %.17g, the formula gives %.17Lg (error %.1Lf of the allowed)", names[(int)w], n, sym ? "symmetric" : "periodic", (double)p,
                 first + i, how, (double)got[i], want, err / tol);
            return false;
        }
        evals(1);
    }
    return true;
}

template <typename T, W w>
static void one(size_t n, bool sym, int var)
{
    if (!begin("window/%s/%s/%zu/%s/%d", sizeof(T) == 4 ? "f32" : "f64", names[(int)w], n, sym ? "sym" : "per", var))
        return;
    Rng r = case_rng();
    T p   = 0;
    switch (w)
    {
    case W::hamming: p = (T)(var == 0 ? 0.54 : r.unit()); break;
    case W::blackman: p = (T)(var == 0 ? 0.16 : r.unit()); break;
    case W::kaiser: p = (T)(var == 0 ? 0.5 : 30 * r.unit()); break;
    case W::gaussian: p = (T)(var == 0 ? 2.5 : 8 * r.unit()); break;
    case W::planck_taper: p = (T)(var == 0 ? 0.1 : 0.01 + 0.49 * r.unit()); break;
    case W::tukey: p = (T)(var == 0 ? 0.5 : 0.01 + 0.99 * r.unit()); break;
    default: break;
    }
    const window_symmetry s = sym ? window_symmetry::symmetric : window_symmetry::periodic;
    auto expr               = window(n, cwindow_type<w>, p, s, ctype<T>);
    seen(n * 2 + sym + 4096 * var);
    // whole
    {
        Buf<T> out(n);
        make_univector(out.data(), n) = expr;
        if (!out.intact())
            return fail("wrote outside the %zu elements", n);
        if (!compare("whole", w, n, sym, p, out.data(), 0, n))
            return;
        if (sym)
            for (size_t i = 0; i < n; ++i)
                if (fabsl((ld)out[i] - out[n - 1 - i]) > 8 * eps<T>() * (p > 1 ? (ld)p * 4 : 8) * (w == W::planck_taper || w == W::tukey ? 8 / p : 1))
                    return fail("%s(%zu) is not symmetric: [%zu] = %.17g, [%zu] = %.17g", names[(int)w], n, i, (double)out[i], n - 1 - i, (double)out[n - 1 - i]);
    }
    // univector made from it has its length
    {
        univector<T> v = expr;
        if (v.size() != n)
            return fail("%s(%zu) has size %zu", names[(int)w], n, v.size());
    }
    // pieces
    {
        std::vector<T> out(n);
        size_t first = r.below(n);
        read_pieces<32, T>(r, expr, out.data(), n - first, first);
        if (!compare("in pieces", w, n, sym, p, out.data(), first, n - first))
            return;
    }
    // selected at run time
    {
        expression_handle<T> h = window<T>(n, w, p, s);
        if (get_shape(h).front() != n)
            return fail("run-time selected %s(%zu) has size %zu", names[(int)w], n, (size_t)get_shape(h).front());
        std::vector<T> out(n + 1);
        make_univector(out.data(), n) = h;
        if (!compare("run-time selected", w, n, sym, p, out.data(), 0, n))
            return;
        size_t first = r.below(n);
        read_pieces<32, T>(r, h, out.data(), n - first, first);
        if (!compare("run-time selected, in pieces", w, n, sym, p, out.data(), first, n - first))
            return;
        // part of the window multiplied into a signal
        size_t len = 1 + r.below(n - first);
        univector<T> x(len, T(1));
        x = x * slice(h, first, len);
        if (!compare("sliced product", w, n, sym, p, x.data(), first, len))
            return;
    }
    // named function, where it has the same arguments
    if (sym)
    {
        univector<T> v;
        if constexpr (w == W::rectangular) v = window_rectangular<T>(n);
        if constexpr (w == W::triangular) v = window_triangular<T>(n);
        if constexpr (w == W::bartlett) v = window_bartlett<T>(n);
        if constexpr (w == W::cosine) v = window_cosine<T>(n);
        if constexpr (w == W::hann) v = window_hann<T>(n);
        if constexpr (w == W::bartlett_hann) v = window_bartlett_hann<T>(n);
        if constexpr (w == W::bohman) v = window_bohman<T>(n);
        if constexpr (w == W::flattop) v = window_flattop<T>(n);
        if constexpr (w == W::lanczos) v = window_lanczos<T>(n);
        if constexpr (w == W::cosine_np) v = window_cosine_np<T>(n);
        // the default parameters as well
        if constexpr (w == W::hamming) v = var == 0 ? window_hamming<T>(n) : window_hamming<T>(n, p);
        if constexpr (w == W::kaiser) v = var == 0 ? window_kaiser<T>(n) : window_kaiser<T>(n, p);
        if constexpr (w == W::gaussian) v = var == 0 ? window_gaussian<T>(n) : window_gaussian<T>(n, p);
        if constexpr (w == W::blackman) v = var == 0 ? window_blackman<T>(n) : window_blackman<T>(n, p, s);
        if constexpr (w == W::blackman_harris) v = window_blackman_harris<T>(n, s);
        if constexpr (w == W::planck_taper) v = window_planck_taper<T>(n, p, s);
        if constexpr (w == W::tukey) v = window_tukey<T>(n, p, s);
        if (v.size() != n)
            return fail("window_%s(%zu) has size %zu", names[(int)w], n, v.size());
        if (!compare("by its own function", w, n, sym, p, v.data(), 0, n))
            return;
    }
    else
    {
        univector<T> v;
        if constexpr (w == W::blackman) v = window_blackman<T>(n, p, s);
        if constexpr (w == W::blackman_harris) v = window_blackman_harris<T>(n, s);
        if constexpr (w == W::planck_taper) v = window_planck_taper<T>(n, p, s);
        if constexpr (w == W::tukey) v = window_tukey<T>(n, p, s);
        if (v.size() && !compare("by its own function", w, n, sym, p, v.data(), 0, n))
            return;
    }
    // beyond the window the rectangular one is zero
    if (w == W::rectangular)
    {
        size_t at         = r.below(n + 8);
        vec<T, 16> v      = get_elements(expr, shape<1>(at), axis_params_v<0, 16>);
        for (size_t k = 0; k < 16; ++k)
            if (v[k] != (at + k < n ? T(1) : T(0)))
                return fail("rectangular(%zu)[%zu] = %g", n, at + k, (double)v[k]);
    }
}

template <typename T, W w>
static void all()
{
    Rng r = case_rng((int)w);
    std::vector<size_t> sizes;
    for (size_t n = 2; n <= 70; ++n)
        sizes.push_back(n);
    for (size_t n : { 127, 128, 129, 255, 256, 257, 500, 511, 513, 1000, 1023, 1024 })
        sizes.push_back(n);
    for (int i = 0; i < (thorough() ? 1500 : 60); ++i)
        sizes.push_back(70 + r.below(i % 10 == 0 ? 20000 : 950));
    int v = 0;
    for (size_t n : sizes)
        for (bool sym : { true, false })
            one<T, w>(n, sym, v++ % (thorough() ? 11 : 5));
}
template <typename T>
static void types()
{
    all<T, W::rectangular>();
    all<T, W::triangular>();
    all<T, W::bartlett>();
    all<T, W::cosine>();
    all<T, W::hann>();
    all<T, W::bartlett_hann>();
    all<T, W::hamming>();
    all<T, W::bohman>();
    all<T, W::blackman>();
    all<T, W::blackman_harris>();
    all<T, W::kaiser>();
    all<T, W::flattop>();
    all<T, W::gaussian>();
    all<T, W::lanczos>();
    all<T, W::cosine_np>();
    all<T, W::planck_taper>();
    all<T, W::tukey>();
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
#if PART == 0
    types<float>();
#else
    types<double>();
#endif
    return done();
}
