// C11: IIR design. The frequency response of the designed sections (evaluated in long double) is compared with the
// closed-form response of the prototype at the pre-warped frequency; the sections must be stable.
#include "stream.hpp"
#include <kfr/dsp/iir.hpp>
#include <kfr/dsp/iir_design.hpp>
using namespace kfr;

static const ld PI = 3.14159265358979323846264338327950288L;
static const char* fams[] = { "butterworth", "chebyshev1", "chebyshev2", "bessel" };
static const char* kinds[] = { "lowpass", "highpass", "bandpass", "bandstop" };

static ld cheb(int n, ld x)
{
    x = fabsl(x);
    return x <= 1 ? cosl(n * acosl(x)) : coshl(n * acoshl(x));
}
/// |H| of the prototype at the normalised frequency w (may be infinite)
static ld proto(int fam, int n, ld par, ld w)
{
    w = fabsl(w);
    switch (fam)
    {
    case 0:
        return std::isinf(w) ? 0 : 1 / sqrtl(1 + powl(w, 2 * n));
    case 1:
    {
        if (std::isinf(w))
            return 0;
        ld e2 = powl(10, par / 10) - 1, t = cheb(n, w);
        return 1 / sqrtl(1 + e2 * t * t);
    }
    case 2:
    {
        ld e2 = 1 / (powl(10, par / 10) - 1);
        if (w == 0)
            return 1;
        ld t = std::isinf(w) ? cheb(n, 0.0L) : cheb(n, 1 / w);
        // 1/sqrt(1 + 1/(e2 t^2))
        return std::isinf(t) ? 1 : sqrtl(e2) * fabsl(t) / sqrtl(1 + e2 * t * t);
    }
    default:
    {
        if (std::isinf(w))
            return 0;
        // reverse Bessel polynomial, normalised to the asymptote of the Butterworth filter
        std::vector<ld> c(n + 1);
        for (int k = 0; k <= n; ++k)
            c[k] = expl(lgammal(2 * n - k + 1) - lgammal(k + 1) - lgammal(n - k + 1) - (n - k) * logl(2.0L));
        ld a = powl(c[0], 1.0L / n);
        cld s(0, w * a), acc = 0;
        for (int k = n; k >= 0; --k)
            acc = acc * s + c[k];
        return c[0] / std::abs(acc);
    }
    }
}
static ld mapped(int kind, ld f, ld f1, ld f2)
{
    ld w = f >= 0.5L ? INFINITY : tanl(PI * f), w1 = tanl(PI * f1), w2 = tanl(PI * f2);
    switch (kind)
    {
    case 0:
        return w / w1;
    case 1:
        return w == 0 ? INFINITY : w1 / w;
    case 2:
        return w == 0 || std::isinf(w) ? INFINITY : (w * w - w1 * w2) / ((w2 - w1) * w);
    default:
    {
        if (w == 0 || std::isinf(w))
            return 0;
        ld d = w * w - w1 * w2;
        return d == 0 ? INFINITY : (w2 - w1) * w / d;
    }
    }
}

template <typename T>
static zpk<T> make_proto(int fam, int n, ld par)
{
    switch (fam)
    {
    case 0:
        return butterworth<T>(n);
    case 1:
        return chebyshev1<T>(n, (T)par);
    case 2:
        return chebyshev2<T>(n, (T)par);
    default:
        return bessel<T>(n);
    }
}
template <typename T>
static zpk<T> make_filter(int kind, const zpk<T>& p, T f1, T f2, T fs)
{
    switch (kind)
    {
    case 0:
        return iir_lowpass(p, f1, fs);
    case 1:
        return iir_highpass(p, f1, fs);
    case 2:
        return iir_bandpass(p, f1, f2, fs);
    default:
        return iir_bandstop(p, f1, f2, fs);
    }
}

template <typename T>
static void one(int fam, int kind, int n, int var)
{
    if (!begin("design/%s/%s/%s/order%d/%d", sizeof(T) == 4 ? "f32" : "f64", fams[fam], kinds[kind], n, var))
        return;
    Rng r     = case_rng();
    ld par    = fam == 1 ? 0.05L + 4 * r.unit() : 15 + 75 * r.unit(); // dB
    const T fs = r.chance(0.5) ? T(2) : r.chance(0.5) ? T(48000) : T(1);
    const ld lo = sizeof(T) == 4 ? 0.02L : 0.002L;
    ld f1 = lo + (0.48L - lo) * r.unit(), f2 = f1;
    if (r.chance(0.3))
        f1 = lo * powl(0.45L / lo, r.unit());
    if (kind >= 2)
    {
        do
        {
            f1 = lo + (0.48L - lo) * r.unit();
            f2 = lo + (0.49L - lo) * r.unit();
            if (r.chance(0.3))
                f2 = 0.5L - f1; // centred at a quarter of the sampling rate
            if (f2 < f1)
                std::swap(f1, f2);
        } while (f2 - f1 < 3 * lo);
    }
    // what the function really gets
    const T a1 = (T)(f1 * fs), a2 = (T)(f2 * fs);
    f1 = (ld)a1 / fs;
    f2 = (ld)a2 / fs;
    if (par > 0)
        par = (ld)(T)par;
    zpk<T> z      = make_filter<T>(kind, make_proto<T>(fam, n, par), a1, a2, fs);
    iir_params<T> sos = to_sos(z);
    const size_t degree = kind >= 2 ? 2 * n : n;
    if (z.p.size() != degree || z.z.size() != degree)
        return fail("%zu poles and %zu zeros for a filter of degree %zu", z.p.size(), z.z.size(), degree);
    if (sos.size() != (degree + 1) / 2)
        return fail("%zu sections for degree %zu", sos.size(), degree);
    ld e = eps<T>();
    if (kind >= 2)
    {
        // band transformation: q - sqrt(q^2 - w0^2) cancels when |q| > w0
        ld w1 = tanl(PI * f1), w2 = tanl(PI * f2);
        zpk<T> pr = make_proto<T>(fam, n, par);
        ld amp = 1;
        for (auto q : pr.p)
        {
            ld m = hypotl(q.real(), q.imag());
            m    = (w2 - w1) / 2 * (kind == 2 ? m : 1 / m);
            amp  = std::max(amp, m * m / (w1 * w2));
        }
        e *= amp;
    }
    for (size_t i = 0; i < sos.size(); ++i)
    {
        const auto& s = sos[i];
        for (ld v : { (ld)s.a0, (ld)s.a1, (ld)s.a2, (ld)s.b0, (ld)s.b1, (ld)s.b2 })
            if (!std::isfinite((double)v))
                return fail("section %zu has a coefficient that is not finite", i);
        if (s.a0 != 1)
            return fail("section %zu is not normalised: a0 = %g", i, (double)s.a0);
        ld a1 = s.a1, a2 = s.a2;
        if (e < 0.02L && !(fabsl(a2) < 1 && fabsl(a1) < 1 + a2))
            return fail("section %zu is not stable: a1 = %.17Lg, a2 = %.17Lg", i, a1, a2);
    }
    size_t judged = 0, skipped = 0;
    for (int k = 0; k < 40; ++k)
    {
        ld f = k == 0 ? 0 : k == 1 ? 0.5L : k == 2 ? f1 : k == 3 ? f2 : k < 12 ? f1 + (f2 - f1 + 0.02L) * r.sym() : 0.5L * r.unit();
        f = std::min(0.5L, std::max(0.0L, f));
        const ld want = proto(fam, n, par, mapped(kind, f, f1, f2));
        const cld zi = std::polar(1.0L, -2 * PI * f);
        // response, and its sensitivity to one rounding of every coefficient, pole and zero
        ld sec = 1, den = 0;
        ld numprod = 1, numerr = 1;
        for (const auto& s : sos)
        {
            cld A = (ld)s.a0 + (ld)s.a1 * zi + (ld)s.a2 * zi * zi;
            cld B = (ld)s.b0 + (ld)s.b1 * zi + (ld)s.b2 * zi * zi;
            ld sa = 1 + fabsl(s.a1) + fabsl(s.a2), sb = fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2);
            sec /= std::abs(A);
            den += sa / std::abs(A);
            numprod *= std::abs(B);
            numerr *= std::abs(B) + 16 * e * sb;
        }
        // reference conditioning: pre-warping in T and the prototype's own slope
        const ld d = 1e-6L;
        ld up = proto(fam, n, par, mapped(kind, std::min(0.5L, f * (1 + d)), f1, f2)), dn = proto(fam, n, par, mapped(kind, f * (1 - d), f1, f2));
        ld u1 = proto(fam, n, par, mapped(kind, f, f1 * (1 + d), f2)), u2 = proto(fam, n, par, mapped(kind, f, f1, f2 * (1 + d)));
        ld u3 = fam == 1 || fam == 2 ? proto(fam, n, par * (1 + d), mapped(kind, f, f1, f2)) : want;
        ld slope = (fabsl(up - dn) + fabsl(u1 - want) + fabsl(u2 - want) + fabsl(u3 - want)) / d;
        ld got = sec * numprod;
        ld tol = 8 * e * slope + sec * (numerr - numprod) + 32 * e * (n + 2) * got + 16 * e * den * std::max(got, want) + 1e-15L * 0;
        if (tol > 0.2L * std::max(want, 0.01L))
        {
            skipped++;
            continue;
        }
        judged++;
        if (!(fabsl(got - want) <= tol))
            return fail("|H(%.6Lg)| = %.9Lg where the prototype gives %.9Lg (tolerance %.3Lg; f1 %.6Lg f2 %.6Lg, %.4Lg dB)", f, got, want, tol,
                        f1, f2, par);
        if (std::getenv("SHOW"))
            printf("%s r=%.3Lf\n", cur(), fabsl(got - want) / tol);
    }
    stat("points_judged", judged);
    stat("points_ill_conditioned", skipped);
    seen(judged > 0);
    if (var == 0)
        sample("%s: f1=%.4Lf f2=%.4Lf, %zu sections, %zu frequencies judged", cur(), f1, f2, sos.size(), judged);
    // the expression that takes the zero-pole form runs the same filter
    if (var == 0)
    {
        univector<T> x(64);
        for (auto& v : x)
            v = (T)r.sym();
        univector<T> y1 = iir(x, z), y2 = iir(x, sos);
        for (size_t i = 0; i < 64; ++i)
            if (!(y1[i] == y2[i]))
                return fail("iir() of the zero-pole form differs from iir() of its sections at %zu", i);
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    const int per = thorough() ? 60 : 4;
    for (int fam = 0; fam < 4; ++fam)
        for (int kind = 0; kind < 4; ++kind)
            for (int n = 1; n <= 24; ++n)
                for (int v = 0; v < per; ++v)
                {
                    one<double>(fam, kind, n, v);
                    if (n <= 8)
                        one<float>(fam, kind, n, v);
                }
    return done();
}
