// C20: elementary functions against the long double library, over their domains.
#define PART0 PART
#include <map>
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/math.hpp>
#include <kfr/dsp/units.hpp>
#if PART0 % 2 == 0
typedef float FT;
#else
typedef double FT;
#endif
using namespace kfr;
using LD = long double;
typedef vk::Rng Rng;
static const char* ft = sizeof(FT) == 4 ? "f32" : "f64";
static const LD EPS = std::numeric_limits<FT>::epsilon();
static const LD FMAX = std::numeric_limits<FT>::max(), FMIN = std::numeric_limits<FT>::min();
static const LD LOGMAX = std::log(FMAX), LOGMIN = std::log(FMIN);
static const LD PI = 3.14159265358979323846264338327950288L;
#ifdef __clang__
#define VK_CC "clang"
#else
#define VK_CC "gcc"
#endif
#ifdef MEASURE
static bool measure = true;
#else
static bool measure = false;
#endif

template <size_t N> using V = vec<FT, N>;
// one function of one or two arguments at four widths
struct Fn
{
    const char* name;
    void (*w[5])(const FT*, const FT*, FT*); // scalar, 2, 4, 8, 3
    LD (*ref)(LD, LD);
    LD (*tol)(LD x, LD y, LD exact);       // allowed absolute error in units of epsilon
    FT (*gen)(Rng&, FT& y);                // argument of the domain
};
static const size_t widths[5] = { 1, 2, 4, 8, 3 };
static FT anybits(Rng& r)
{
    for (;;)
    {
        if (sizeof(FT) == 4) { uint32_t u = (uint32_t)r.next(); float f; memcpy(&f, &u, 4); if (std::isfinite(f)) return f; }
        else { uint64_t u = r.next(); double f; memcpy(&f, &u, 8); if (std::isfinite(f)) return FT(f); }
    }
}
// mixture inside [lo, hi]: uniform, log-uniform around zero and the ends, special points and their neighbours
static FT in_range(Rng& r, LD lo, LD hi, LD grid)
{
    for (;;)
    {
        LD x;
        switch (r.below(7))
        {
        case 0: x = lo + (hi - lo) * r.unit(); break;
        case 1: x = anybits(r); break;
        case 2: x = std::ldexp(LD(r.sym()), -(int)r.below(40)); break;
        case 3: x = LD((long long)(r.sym() * std::min(LD(1e15L), std::max(std::fabs(lo), std::fabs(hi)) / grid))) * grid; break;
        case 4: x = LD(r.range(-40, 40)) * grid; break;
        case 5: x = (r.chance(0.5) ? lo : hi) * (1 - std::ldexp(LD(r.unit()), -(int)r.below(60))); break;
        default: x = r.normal() * 10;
        }
        FT f = FT(x);
        for (int k = (int)r.below(4); k > 1; --k) f = std::nextafter(f, r.chance(0.5) ? FT(-1e30) : FT(1e30));
        if (f >= lo && f <= hi) return f;
    }
}
static LD rel(LD e) { return std::max(std::fabs(e), FMIN); }

#define F1(name, call, refx, tolx, lo, hi, grid)                                                                              \
    { name,                                                                                                                    \
      { [](const FT* p, const FT*, FT* o) { FT a = p[0]; o[0] = call; },                                                       \
        [](const FT* p, const FT*, FT* o) { V<2> a = read<2>(p); V<2> r_ = call; write(o, r_); },                               \
        [](const FT* p, const FT*, FT* o) { V<4> a = read<4>(p); V<4> r_ = call; write(o, r_); },                               \
        [](const FT* p, const FT*, FT* o) { V<8> a = read<8>(p); V<8> r_ = call; write(o, r_); },                               \
        [](const FT* p, const FT*, FT* o) { V<3> a = read<3>(p); V<3> r_ = call; write(o, r_); } },                             \
      [](LD x, LD) -> LD { return refx; }, [](LD x, LD, LD e) -> LD { (void)x; (void)e; return tolx; },                         \
      [](Rng& r, FT&) -> FT { return in_range(r, lo, hi, grid); } },
#define F2(name, call, refx, tolx, genx)                                                                                       \
    { name,                                                                                                                    \
      { [](const FT* p, const FT* q, FT* o) { FT a = p[0], b = q[0]; o[0] = call; },                                           \
        [](const FT* p, const FT* q, FT* o) { V<2> a = read<2>(p), b = read<2>(q); V<2> r_ = call; write(o, r_); },             \
        [](const FT* p, const FT* q, FT* o) { V<4> a = read<4>(p), b = read<4>(q); V<4> r_ = call; write(o, r_); },             \
        [](const FT* p, const FT* q, FT* o) { V<8> a = read<8>(p), b = read<8>(q); V<8> r_ = call; write(o, r_); },             \
        [](const FT* p, const FT* q, FT* o) { V<3> a = read<3>(p), b = read<3>(q); V<3> r_ = call; write(o, r_); } },           \
      [](LD x, LD y) -> LD { (void)y; return refx; }, [](LD x, LD y, LD e) -> LD { (void)x; (void)y; (void)e; return tolx; },   \
      [](Rng& r, FT& y) -> FT { FT x; (void)y; genx; return x; } },

static LD tune(LD x);
static LD wide(LD x);
static LD gamma_tol(LD x) { return sizeof(FT) == 4 ? 3000 : 8000; }
static void atan2_args(Rng& r, FT& x, FT& y)
{
    for (;;)
    {
        x = in_range(r, -FMAX, FMAX, 0.25);
        y = r.chance(0.5) ? in_range(r, -FMAX, FMAX, 0.25) : FT(LD(x) * std::exp(r.normal() * 3) * (r.chance(0.5) ? 1 : -1));
        if (r.chance(0.03)) x = r.chance(0.5) ? FT(INFINITY) : FT(-INFINITY);
        if (r.chance(0.03)) y = r.chance(0.5) ? FT(INFINITY) : FT(-INFINITY);
        if (r.chance(0.03)) y = FT(-0.0);
        if (std::isinf(x) || std::isinf(y)) { if (x != 0) return; continue; }
        if (x == 0) x = 0;
        LD a = std::fabs(LD(x)), b = std::fabs(LD(y)), q = std::min(a, b) / std::max(a, b);
        if ((x != 0 || y != 0) && (q == 0 || q > FMIN / EPS)) return; // quotient representable
    }
}
static void pow_args(Rng& r, FT& x, FT& y)
{
    for (;;)
    {
        x = in_range(r, -FMAX, FMAX, 0.25); y = in_range(r, -300, 300, 0.25);
        if (r.chance(0.3)) { x = FT(r.range(-20, 20)); y = FT(r.range(-20, 20)); }
        if (std::fabs(x) < FMIN) continue;
        if (x < 0) y = std::round(y);
        if (std::fabs(LD(y)) * std::log(std::fabs(LD(x))) < LOGMAX - 1 && std::fabs(LD(y) * std::log(std::fabs(LD(x)))) < LOGMAX - 1) return;
    }
}
static void root_args(Rng& r, FT& x, FT& y)
{
    x = in_range(r, 0, FMAX, 0.25); y = in_range(r, 1, 50, 0.25);
    if (r.chance(0.2)) { x = -x; y = FT(2 * r.range(0, 12) + 1); }
}
// even lanes one function, odd lanes the other: y carries the parity
#define ALT(name, call, refx, tolx, lo, hi, grid)                                                                             \
    { name,                                                                                                                    \
      { nullptr,                                                                                                               \
        [](const FT* p, const FT*, FT* o) { V<2> a = read<2>(p); V<2> r_ = call; write(o, r_); },                               \
        [](const FT* p, const FT*, FT* o) { V<4> a = read<4>(p); V<4> r_ = call; write(o, r_); },                               \
        [](const FT* p, const FT*, FT* o) { V<8> a = read<8>(p); V<8> r_ = call; write(o, r_); },                               \
        nullptr },                                                                                                             \
      [](LD x, LD y) -> LD { return refx; }, [](LD x, LD, LD e) -> LD { (void)x; (void)e; return tolx; },                       \
      [](Rng& r, FT& y) -> FT { y = -1; return in_range(r, lo, hi, grid); } },

// beside a pole the rounding of the argument alone moves the result anywhere
static LD pole(LD t, LD e) { return t * EPS > std::fabs(e) / 16 ? 1e300L : t; }
static const LD TRIG = sizeof(FT) == 4 ? 6000 : 1e8;      // range where the three-part argument reduction is exact
static const LD DEG = 57.295779513082320876798154814105170L;
static LD kk(LD f, LD d) { return sizeof(FT) == 4 ? f : d; }
static LD red(LD x) { return std::fabs(x) * kk(2e-17L, 2e-30L) / EPS; } // what the reduction loses, absolute
// f64 exp reduces its argument with a constant of 2.3e-17 relative error: the bound grows with the exponent
static LD wide(LD x) { return sizeof(FT) == 4 ? 1 : 1 + 0.12L * std::min(std::fabs(x), LD(800)); }
static LD tune(LD x) { return std::fabs(std::log(x)); }
static const Fn table[] = {
#if PART0 / 2 == 0
    F1("sin", kfr::sin(a), std::sin(x), 3 * rel(e) + red(x), -TRIG, TRIG, PI / 4)
    F1("cos", kfr::cos(a), std::cos(x), 3 * rel(e) + red(x), -TRIG, TRIG, PI / 4)
    F1("tan", kfr::tan(a), std::tan(x), 4 * rel(e) + red(x) * (1 + e * e), -TRIG, TRIG, PI / 4)
    F1("sinc", kfr::sinc(a), x == 0 ? 1 : std::sin(x) / x, 3.5L * rel(e) + red(1), -TRIG, TRIG, PI / 4)
    F1("fastsin", kfr::fastsin(a), std::sin(x), 1.9e-6L / EPS, 0, 2 * PI, PI / 4)
    F1("fastcos", kfr::fastcos(a), std::cos(x), 1.9e-6L / EPS, 0, 2 * PI, PI / 4)
    F1("sindeg", kfr::sindeg(a), std::sin(x / DEG), 3 * rel(e) + fabsl(x) / DEG, -TRIG, TRIG, 45)
    F1("cosdeg", kfr::cosdeg(a), std::cos(x / DEG), 3 * rel(e) + fabsl(x) / DEG, -TRIG, TRIG, 45)
    F1("tandeg", kfr::tandeg(a), std::tan(x / DEG), pole(4 * rel(e) + fabsl(x) / DEG * (1 + e * e), e), -TRIG, TRIG, 15)
    F1("fastsindeg", kfr::fastsindeg(a), std::sin(x / DEG), 1.9e-6L / EPS, 0, 360, 45)
    F1("fastcosdeg", kfr::fastcosdeg(a), std::cos(x / DEG), 1.9e-6L / EPS, 0, 360, 45)
    F1("asin", kfr::asin(a), std::asin(x), 4 * rel(e), -1, 1, 0.125)
    F1("acos", kfr::acos(a), std::acos(x), 4 * rel(e), -1, 1, 0.125)
    F1("atan", kfr::atan(a), std::atan(x), 2.2L * rel(e), -FMAX, FMAX, 0.25)
    F1("atandeg", kfr::atandeg(a), std::atan(x) * DEG, 2.8L * rel(e), -FMAX, FMAX, 0.25)
    F2("atan2", kfr::atan2(a, b), std::atan2(x, y), 3 * rel(e), atan2_args(r, x, y))
    F2("atan2deg", kfr::atan2deg(a, b), std::atan2(x, y) * DEG, 3.5L * rel(e), atan2_args(r, x, y))
    F1("sqrt", kfr::sqrt(a), std::sqrt(x), 0.501L * rel(e), 0, FMAX, 0.25)
    ALT("sincos", kfr::sincos(a), (y == 0 ? std::sin(x) : std::cos(x)), 3 * rel(e) + red(x), -TRIG, TRIG, PI / 4)
    ALT("cossin", kfr::cossin(a), (y == 0 ? std::cos(x) : std::sin(x)), 3 * rel(e) + red(x), -TRIG, TRIG, PI / 4)
    ALT("sincosdeg", kfr::sincosdeg(a), (y == 0 ? std::sin(x / DEG) : std::cos(x / DEG)), 3 * rel(e) + fabsl(x) / DEG, -TRIG, TRIG, 45)
    ALT("cossindeg", kfr::cossindeg(a), (y == 0 ? std::cos(x / DEG) : std::sin(x / DEG)), 3 * rel(e) + fabsl(x) / DEG, -TRIG, TRIG, 45)
#else
    F1("exp", kfr::exp(a), std::exp(x), 2 * rel(e) * wide(x), -FMAX, FMAX, 0.25)
    F1("exp2", kfr::exp2(a), std::exp2(x), (2 + 0.6L * fabsl(x)) * rel(e) * (wide(x * 0.7L) > 2 ? 1.5L : 1), -FMAX / 2, FMAX / 2, 0.25)
    F1("exp10", kfr::exp10(a), std::pow(LD(10), x), (3.5L + 3 * fabsl(x)) * rel(e), -FMAX / 4, FMAX / 4, 0.25)
    F1("log", kfr::log(a), std::log(x), x < FMIN ? 4096 * rel(e) : 2.5L * rel(e), std::numeric_limits<FT>::denorm_min(), FMAX, 0.25)
    F1("log2", kfr::log2(a), std::log2(x), x < FMIN ? 4096 * rel(e) : 2.7L * rel(e), std::numeric_limits<FT>::denorm_min(), FMAX, 0.25)
    F1("log10", kfr::log10(a), std::log10(x), x < FMIN ? 4096 * rel(e) : 3.4L * rel(e), std::numeric_limits<FT>::denorm_min(), FMAX, 0.25)
    F1("logb", kfr::logb(a), std::logb(x), FMIN, FMIN, FMAX, 0.25)
    F1("cbrt", kfr::cbrt(a), std::cbrt(x), x == 0 ? FMIN : (3 + 0.7L * tune(fabsl(x))) * (fabsl(x) < FMIN ? 4096 * rel(e) : rel(e)), -FMAX, FMAX, 0.25)
    F1("sinh", kfr::sinh(a), std::sinh(x), 2 * std::max(LD(1), rel(e)) * wide(x), -LOGMAX * 0.9999L, LOGMAX * 0.9999L, 0.25)
    F1("cosh", kfr::cosh(a), std::cosh(x), 2 * rel(e) * wide(x), -LOGMAX * 0.9999L, LOGMAX * 0.9999L, 0.25)
    F1("tanh", kfr::tanh(a), std::tanh(x), 2.2L, -FMAX, FMAX, 0.25)
    F1("coth", kfr::coth(a), 1 / std::tanh(x), rel(e) * (2.5L + 1.2L / fabsl(x)), 0.001, FMAX, 0.25)
    F1("gamma", kfr::gamma(a), std::tgamma(x), gamma_tol(x) * rel(e), 0.01, kk(20, 100), 0.25)
    F1("factorial_approx", kfr::factorial_approx(a), std::tgamma(x + 1), gamma_tol(x + 1) * rel(e), 0, kk(19, 99), 0.25)
    F2("pow", kfr::pow(a, b), std::pow(x, y), (4 + 2.5L * fabsl(y) * tune(fabsl(x)))  * rel(e), pow_args(r, x, y))
    F2("root", kfr::root(a, b), x == 0 ? 0 : x < 0 ? -std::pow(-x, 1 / y) : std::pow(x, 1 / y), x == 0 ? FMIN : (3 + 2 * tune(fabsl(x)) / y) * (fabsl(x) < FMIN ? 4096 * rel(e) : rel(e)), root_args(r, x, y))
    F2("logn", kfr::logn(a, b), std::log(x) / std::log(y), 5 * rel(e), ({ x = in_range(r, FMIN, FMAX, 0.25); y = in_range(r, FMIN, FMAX, 0.25); if (y == 1) y = 2; }))
    F2("logm", kfr::logm(a, b), std::log(x) * y, 4 * rel(e), ({ x = in_range(r, FMIN, FMAX, 0.25); y = in_range(r, -1e30, 1e30, 0.25); }))
    F1("amp_to_dB", kfr::amp_to_dB(a), 20 * std::log10(std::fabs(x)), 3.5L * rel(e), FMIN, FMAX, 0.25)
    F1("dB_to_amp", kfr::dB_to_amp(a), std::pow(LD(10), x / 20), (2 + 0.1L * fabsl(x)) * rel(e), LOGMIN * 8.68L, LOGMAX * 8.68L, 0.25)
    F1("power_to_dB", kfr::power_to_dB(a), 10 * std::log10(std::fabs(x)), 4 * rel(e), FMIN, FMAX, 0.25)
    F1("note_to_hertz", kfr::note_to_hertz(a), 440 * std::exp2((x - 69) / 12), (6 + 0.07L * fabsl(x)) * rel(e), -500, 500, 0.25)
    F1("hertz_to_note", kfr::hertz_to_note(a), 69 + 12 * std::log2(x / 440), 70 + 3 * rel(e), FMIN, FMAX, 0.25)
#endif
};

static void run(const Fn& f)
{
    if (!vk::begin("%s/%s/" VK_CC, f.name, ft)) return;
    Rng r = vk::case_rng(1);
    const size_t iters = vk::thorough() ? 1500000 : 30000;
    static const FT hostile[] = { FT(NAN), FT(INFINITY), FT(-INFINITY), FT(FMAX), FT(-FMAX), FT(0), FT(-1), FT(1e10) };
    LD worst = 0;
    size_t cross = 0;
    vk::Buf<FT> bx(8), by(8), bo(8);
    FT *xs = bx.data(), *ys = by.data(), *o = bo.data(), o1[8];
    std::map<int, LD> hist;
    for (size_t it = 0; it < iters; ++it)
    {
        for (int i = 0; i < 8; ++i)
        {
            ys[i] = 1; xs[i] = f.gen(r, ys[i]);
            if (ys[i] == -1 && !f.w[0]) ys[i] = FT(i & 1);
        }
        LD e[8], t[8];
        for (int i = 0; i < 8; ++i) { e[i] = f.ref(xs[i], ys[i]); t[i] = f.tol(xs[i], ys[i], e[i]) * EPS; }
        bool have = false;
        for (int k = 0; k < 5; ++k)
        {
            if (!f.w[k]) continue;
            for (size_t b = 0; b + widths[k] <= 8; b += widths[k])
            {
                f.w[k](xs + b, ys + b, o);
                for (size_t i = 0; i < widths[k]; ++i)
                {
                    const FT got = o[i], x = xs[b + i];
                    if (have && memcmp(&o1[b + i], &got, sizeof(FT)) != 0 && !(got != got && o1[b + i] != o1[b + i]))
                    {
                        ++cross;
                        if (std::fabs(LD(o1[b + i]) - LD(got)) > t[b + i])
                        {
                            vk::fail("%s(%.17g, %.17g) is %.17g in a vector of %zu and %.17g in a narrower one", f.name, (double)x, (double)ys[b + i],
                                     (double)got, widths[k], (double)o1[b + i]);
                            return;
                        }
                    }
                    if (!have) o1[b + i] = got;
                    const LD ex = e[b + i], tol = t[b + i];
                    LD q;
                    if (std::fabs(ex) * (1 - 1e-30L) + (std::isinf(ex) ? 0 : tol) >= FMAX && std::isinf(got) && (got > 0) == (ex > 0)) q = 0; // overflow
                    else q = std::fabs(got - ex) / tol;
                    if (!(q <= 1e30L)) q = 1e30L;
                    if (measure) { int xe; std::frexp(x, &xe); if (q > hist[xe]) hist[xe] = q; }
                    if (q > worst)
                    {
                        worst = q;
                        if (q > 1 && !measure)
                        {
                            vk::fail("%s(%.17g, %.17g) in a vector of %zu is %.17g, exact %.20Lg: %.3Lg times the allowed error", f.name, (double)x,
                                     (double)ys[b + i], widths[k], (double)got, ex, q);
                            return;
                        }
                        if (measure && q > 0.2) printf("%s %s x=%.17g y=%.17g w=%zu got %.9g want %.9Lg q=%.3Lg\n", f.name, ft, x, ys[b+i], widths[k], got, ex, q);
                    }
                }
            }
            have = true;
            if (widths[k] > 1 && it % 4 == 0)
            {   // the lanes beside do not matter
                const size_t n = widths[k], j = r.below(n);
                f.w[k](xs, ys, o);
                const FT want = o[j];
                FT hx[8], hy[8];
                for (size_t i = 0; i < n; ++i) { hx[i] = i == j ? xs[j] : hostile[r.below(8)]; hy[i] = i == j ? ys[j] : hostile[r.below(8)]; }
                f.w[k](hx, hy, o);
                vk::stat("neighbour_trials", 1);
                if (memcmp(&want, &o[j], sizeof(FT)) != 0 && !(want != want && o[j] != o[j]))
                {
                    vk::fail("%s(%.17g) in lane %zu of %zu changes from %.17g to %.17g with the other lanes", f.name, (double)xs[j], j, n, (double)want, (double)o[j]);
                    return;
                }
            }
        }
        if (!bx.intact() || !by.intact() || !bo.intact()) vk::fail("memory beyond the vector written");
        vk::evals(8 * 5);
        vk::seen(vk::hash_bytes(xs, 8 * sizeof(FT)) ^ vk::hash_bytes(f.name, strlen(f.name)));
    }
    vk::stat("worst_share_of_bound_x1000", (double)std::floor(worst * 1000));
    vk::stat("functions", 1);
    if (cross) vk::stat("width_dependent_roundings", (double)cross);
    if (measure) { printf("%-12s %s worst %.4Lg cross %zu\n", f.name, ft, worst, cross); if (getenv("HIST")) for (auto& p : hist) printf("   2^%d: %.4Lg\n", p.first, p.second); }
}
// fixed arguments outside the ranges above: listed findings
static void large()
{
#if PART0 / 2 == 0
    static const LD args4[] = { 1e5L, 1e6L, 1e8L, 3e9L, 1e20L }, args8[] = { 1e12L, 3e13L, 1e24L, 1e100L };
    const LD* args = sizeof(FT) == 4 ? args4 : args8;
    struct { const char* name; FT (*f)(FT); LD (*ref)(LD); } t[] = { { "sin", [](FT x) { return FT(kfr::sin(x)); }, [](LD x) { return std::sin(x); } },
                                                                     { "cos", [](FT x) { return FT(kfr::cos(x)); }, [](LD x) { return std::cos(x); } },
                                                                     { "tan", [](FT x) { return FT(kfr::tan(x)); }, [](LD x) { return std::tan(x); } } };
    for (auto& q : t)
        for (int i = 0; i < (sizeof(FT) == 4 ? 5 : 4); ++i)
        {
            if (!vk::begin("%s-of-%Lg/%s/" VK_CC, q.name, args[i], ft)) continue;
            FT x = FT(args[i]), got = q.f(x);
            LD e = q.ref(x);
            vk::evals(1);
            if (!(std::fabs(got - e) <= 1e-5L * (1 + e * e))) vk::fail("%s(%.17g) is %.9g, exact %.9Lg", q.name, (double)x, (double)got, e);
        }
#else
    for (int s = 0; s < 2; ++s)
    {
        if (!vk::begin("%s-beyond-exp/%s/" VK_CC, s ? "cosh" : "sinh", ft)) continue;
        FT x = FT(LOGMAX + 0.5L), got = s ? kfr::cosh(x) : kfr::sinh(x);
        LD e = s ? std::cosh(LD(x)) : std::sinh(LD(x));
        vk::evals(1);
        if (!(std::fabs(got - e) <= e * 1e-3L)) vk::fail("%s(%.17g) is %g, exact %.9Lg", s ? "cosh" : "sinh", (double)x, (double)got, e);
    }
#endif
}
int main(int argc, char** argv)
{
    vk::init(argc, argv);
    for (const Fn& f : table) run(f);
    large();
    return vk::done();
}
