// C36: biquad design functions. The complex response of the returned section is compared with the response of the
// analogue prototype mapped by the bilinear transform, at the reference frequencies and at random ones.
#include "stream.hpp"
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/biquad_design.hpp>
using namespace kfr;

static const ld PI = 3.14159265358979323846264338327950288L;
enum Kind
{
    LP, HP, BP, NOTCH, PEAK, LSH, HSH, AP, nkinds
};
static const char* names[] = { "lowpass", "highpass", "bandpass", "notch", "peak", "lowshelf", "highshelf", "allpass" };

template <typename T>
static biquad_section<T> make(int k, T f, T q, T g)
{
    switch (k)
    {
    case LP: return biquad_lowpass<T>(f, q);
    case HP: return biquad_highpass<T>(f, q);
    case BP: return biquad_bandpass<T>(f, q);
    case NOTCH: return biquad_notch<T>(f, q);
    case PEAK: return biquad_peak<T>(f, q, g);
    case LSH: return biquad_lowshelf<T>(f, g);
    case HSH: return biquad_highshelf<T>(f, g);
    default: return biquad_allpass<T>(f, q);
    }
}
/// analogue prototype with corner 1
static cld proto(int k, cld s, ld q, ld g)
{
    ld v = powl(10, fabsl(g) / 20);
    cld s2 = s * s, d = s2 + s / q + 1.0L, r2 = s2 + sqrtl(2) * s + 1.0L, n;
    switch (k)
    {
    case LP: return 1.0L / d;
    case HP: return s2 / d;
    case BP: return s / q / d;
    case NOTCH: return (s2 + 1.0L) / d;
    case PEAK: n = (s2 + v / q * s + 1.0L) / d; break;
    case LSH: n = (s2 + sqrtl(2 * v) * s + v) / r2; break;
    case HSH: n = (v * s2 + sqrtl(2 * v) * s + 1.0L) / r2; break;
    default: return (s2 - s / q + 1.0L) / d;
    }
    return g >= 0 ? n : 1.0L / n;
}

template <typename T>
static void one(int k, int var)
{
    if (!begin("biquad/%s/%s/%d", sizeof(T) == 4 ? "f32" : "f64", names[k], var))
        return;
    Rng r  = case_rng();
    T f    = (T)(var % 3 == 0 ? 0.0005 * std::pow(0.499 / 0.0005, r.unit()) : var % 3 == 1 ? 0.001 + 0.498 * r.unit() : 0.5 - 0.0005 * std::pow(400, r.unit()));
    T q    = (T)(var % 5 == 0 ? 0.5 : 0.05 * std::pow(2000, r.unit()));
    T g    = (T)(var % 7 == 0 ? 0 : 60 * r.sym());
    auto s = make<T>(k, f, q, g);
    const bool first_order_like = false;
    (void)first_order_like;
    const ld e = eps<T>();
    for (ld v : { (ld)s.a0, (ld)s.a1, (ld)s.a2, (ld)s.b0, (ld)s.b1, (ld)s.b2 })
        if (!std::isfinite((double)v))
            return fail("a coefficient is not finite");
    if (s.a0 != 1)
        return fail("a0 = %g: the section is not normalised", (double)s.a0);
    // stable, unless the exact poles lie within rounding of the unit circle
    if (!(s.a2 < 1 + 4 * e) || !(fabsl(s.a1) < 1 + (ld)s.a2 + 8 * e))
        return fail("not stable: a1 = %.9Lg a2 = %.9Lg", (ld)s.a1, (ld)s.a2);
    const ld K = tanl(PI * (ld)f);
    for (int i = 0; i < 12; ++i)
    {
        ld w = i == 0 ? 0 : i == 1 ? 0.5L : i == 2 ? (ld)f : i < 6 ? (ld)f * (1 + 0.2L * r.sym()) : 0.5L * r.unit();
        w    = std::min(w, 0.5L);
        cld z = std::polar(1.0L, -2 * PI * w);
        cld want;
        if (i == 1 || w > 0.4999999999L)
        {
            w = 0.5L;
            z = -1;
            // limit at infinite analogue frequency
            ld v = powl(10, fabsl((ld)g) / 20);
            want = k == LP || k == BP ? 0.0L : k == HSH ? (g >= 0 ? v : 1 / v) : 1.0L;
        }
        else
            want = proto(k, cld(0, tanl(PI * w) / K), q, g);
        cld A = (ld)s.a0 + (ld)s.a1 * z + (ld)s.a2 * z * z;
        cld B = (ld)s.b0 + (ld)s.b1 * z + (ld)s.b2 * z * z;
        ld sa = 1 + fabsl(s.a1) + fabsl(s.a2), sb = fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2);
        // rounding of the corner frequency near the Nyquist frequency is amplified by tan
        ld kk = 1 + PI * (ld)f * (K + 1 / K);
        cld got = B / A;
        ld rel = 24 * e * kk * sa / std::abs(A);
        ld tol = rel * std::abs(got) + rel * std::abs(want) + 24 * e * kk * sb / std::abs(A);
        if (rel > 0.1L)
        {
            stat("points_ill_conditioned");
            continue;
        }
        stat("points_judged");
        if (getenv("SHOW"))
            printf("r %.3Lf %s w=%Lg\n", std::abs(got - want) / tol, cur(), w);
        if (!(std::abs(got - want) <= tol))
            return fail("H(%.6Lg) = %.8Lg%+.8Lgi, should be %.8Lg%+.8Lgi (f %.6g Q %.4g gain %.4g, tolerance %.2Lg)", w, got.real(), got.imag(),
                        want.real(), want.imag(), (double)f, (double)q, (double)g, tol);
        seen(i);
    }
    // normalisation helpers keep the response
    biquad_section<T> m(s.a0 * T(3), s.a1 * T(3), s.a2 * T(3), s.b0 * T(3), s.b1 * T(3), s.b2 * T(3));
    auto n = m.normalized_a0();
    auto close = [&](T a, T b) { return fabsl((ld)a - b) <= 4 * e * fabsl((ld)b); };
    if (n.a0 != 1 || !close(n.a1, s.a1) || !close(n.a2, s.a2) || !close(n.b0, s.b0) || !close(n.b1, s.b1) || !close(n.b2, s.b2))
        return fail("normalized_a0 changed the section");
    if (s.b0 != 0)
    {
        auto b = m.normalized_b0();
        if (b.b0 != 1 || !close(b.b1, m.b1 / m.b0) || !close(b.b2, m.b2 / m.b0) || b.a0 != m.a0 || b.a1 != m.a1 || b.a2 != m.a2)
            return fail("normalized_b0 is wrong");
    }
    if (var < 1)
        sample("%s: f=%g Q=%g gain=%g -> a1=%g a2=%g", cur(), (double)f, (double)q, (double)g, (double)s.a1, (double)s.a2);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    for (int k = 0; k < nkinds; ++k)
        for (int v = 0; v < (thorough() ? 20000 : 600); ++v)
        {
            one<double>(k, v);
            one<float>(k, v);
        }
    return done();
}
