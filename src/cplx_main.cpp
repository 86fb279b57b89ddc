// C43: complex numbers: arithmetic, parts, polar form and elementary functions of vectors, scalars and expressions.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <cmath>
#include <complex>
#include <cstring>
using namespace kfr;
using namespace vk;

#ifndef PART
#define PART 0
#endif
#if PART == 0
using T = float;
#else
using T = double;
#endif
using C = kfr::complex<T>;
using L = long double;
using CL = std::complex<long double>;

static CL wide(C x) { return CL(x.real(), x.imag()); }
static bool bits(T a, T b) { return !std::memcmp(&a, &b, sizeof(T)); }
static bool bits(C a, C b) { return bits(a.real(), b.real()) && bits(a.imag(), b.imag()); }

/// values in all quadrants, on the axes, zeros of both signs, of magnitude up to limit
static C number(Rng& r, double limit, bool zero)
{
    double m = r.chance(0.3) ? 1 : r.chance(0.5) ? limit : std::pow(10.0, -4 * r.unit());
    auto part = [&]() -> T {
        if (r.chance(0.08))
            return r.chance(0.5) ? T(0) : -T(0);
        if (r.chance(0.08))
            return (T)((r.chance(0.5) ? 1 : -1) * std::min(1.0, limit));
        return (T)(r.sym() * m);
    };
    for (;;)
    {
        C x(part(), part());
        if (zero || std::abs(x) > 1e-6)
            return x;
    }
}

enum Kind
{
    exact,
    scaled, // error relative to a given magnitude
};
struct Expect
{
    CL value;
    L scale; // the error is measured in epsilons of this
    bool cut = false; // on a branch cut: the conjugate is right as well
};

#define VK_FUNCS(F)                                                                                                     \
    F(csin, 8, true) F(ccos, 8, true) F(csinh, 8, true) F(ccosh, 8, true) F(clog, 1e4, false) F(clog2, 1e4, false) F(clog10, 1e4, false) F(cexp, 10, true)   \
    F(cexp2, 10, true) F(cexp10, 5, true) F(csqrt, 1e4, true) F(csqr, 1e3, true) F(polar, 1e4, false) F(cartesian, 20, true)

enum Fn
{
#define F(n, l, z) f_##n,
    VK_FUNCS(F)
#undef F
        f_count
};
static const char* fname[] = {
#define F(n, l, z) #n,
    VK_FUNCS(F)
#undef F
};
static const double flimit[] = {
#define F(n, l, z) l,
    VK_FUNCS(F)
#undef F
};
static const bool fzero[] = {
#define F(n, l, z) z,
    VK_FUNCS(F)
#undef F
};

static Expect reference(int f, C a)
{
    CL z = wide(a);
    L ln2 = std::log(2.0L), ln10 = std::log(10.0L), m = std::abs(z);
    bool neg = a.imag() == 0 && a.real() < 0;
    switch (f)
    {
    case f_csin:
    case f_ccos:
        return { f == f_csin ? std::sin(z) : std::cos(z), std::cosh(z.imag()) };
    case f_csinh:
    case f_ccosh:
        return { f == f_csinh ? std::sinh(z) : std::cosh(z), std::cosh(z.real()) };
    case f_clog:
        return { std::log(z), 1 + std::abs(std::log(z)), neg };
    case f_clog2:
        return { std::log(z) / ln2, 2 + std::abs(std::log(z)) / ln2, neg };
    case f_clog10:
        return { std::log(z) / ln10, 1 + std::abs(std::log(z)) / ln10, neg };
    case f_cexp:
        return { std::exp(z), std::exp(z.real()) * (1 + m) };
    case f_cexp2:
        return { std::exp(z * ln2), std::exp(z.real() * ln2) * (1 + m) };
    case f_cexp10:
        return { std::exp(z * ln10), std::exp(z.real() * ln10) * (1 + 3 * m) };
    case f_csqrt:
        return { std::sqrt(z), std::sqrt(m), neg };
    case f_csqr:
        return { z * z, m * m };
    case f_polar:
        return { CL(m, std::atan2(z.imag(), z.real())), std::max(m, (L)1), neg };
    default: // cartesian
        return { CL(z.real() * std::cos(z.imag()), z.real() * std::sin(z.imag())), std::abs(z.real()) * (1 + std::abs(z.imag()) / 8) };
    }
}
static const L tolerance = 16;
static L worst = 0;

static bool close(C got, const Expect& e)
{
    if (!std::isfinite(got.real()) || !std::isfinite(got.imag()))
        return false;
    L err = std::abs(wide(got) - e.value), lim = tolerance * (L)std::numeric_limits<T>::epsilon() * e.scale + 1e-35L;
    if (err > lim && e.cut)
        err = std::abs(wide(got) - std::conj(e.value));
    if (err > lim && e.cut) // polar: the angle may be -pi
        err = std::abs(CL(got.real(), -got.imag()) - e.value);
    worst = std::max(worst, err / lim);
    return err <= lim;
}
static bool judge(const char* what, size_t n, size_t lane, C arg, C got, const Expect& e)
{
    if (close(got, e))
        return true;
    fail("%s of %zu: (%.9g, %.9g) gave (%.9g, %.9g) instead of (%.9Lg, %.9Lg) in lane %zu", what, n, (double)arg.real(), (double)arg.imag(), (double)got.real(), (double)got.imag(),
         e.value.real(), e.value.imag(), lane);
    return false;
}
static bool judge_real(const char* what, size_t n, size_t lane, C arg, T got, L ref, L scale, bool cut = false)
{
    L err = std::abs((L)got - ref), lim = tolerance * (L)std::numeric_limits<T>::epsilon() * scale + 1e-35L;
    if (err > lim && cut)
        err = std::abs((L)got + ref);
    worst = std::max(worst, err / lim);
    if (err <= lim)
        return true;
    fail("%s of %zu: (%.9g, %.9g) gave %.9g instead of %.9Lg in lane %zu", what, n, (double)arg.real(), (double)arg.imag(), (double)got, ref, lane);
    return false;
}
static bool same(const char* what, size_t n, size_t lane, C arg, C got, C ref)
{
    if (bits(got, ref))
        return true;
    fail("%s of %zu: (%.9g, %.9g) gave (%.9g, %.9g) instead of (%.9g, %.9g) in lane %zu", what, n, (double)arg.real(), (double)arg.imag(), (double)got.real(), (double)got.imag(), (double)ref.real(),
         (double)ref.imag(), lane);
    return false;
}

template <size_t N>
static void functions(Rng& r)
{
    for (int f = 0; f < f_count; ++f)
    {
        vec<C, N> x;
        C arg[N];
        for (size_t i = 0; i < N; ++i)
            x[i] = arg[i] = number(r, flimit[f], fzero[f]);
        vec<C, N> y;
        switch (f)
        {
#define F(n, l, z)                                                                                                      \
    case f_##n:                                                                                                         \
        y = kfr::n(x);                                                                                                  \
        break;
            VK_FUNCS(F)
#undef F
        }
        for (size_t i = 0; i < N; ++i)
            if (!judge(fname[f], N, i, arg[i], (C)y[i], reference(f, arg[i])))
                break;
        seen(hash_bytes(arg, sizeof(arg)) + (uint64_t)f);
        evals(1);
    }
    {
        vec<C, N> x;
        C arg[N];
        for (size_t i = 0; i < N; ++i)
            x[i] = arg[i] = number(r, 1e4, true);
        vec<T, N> a = cabs(x), s = cabssqr(x), g = carg(x);
        vec<C, N> p = kfr::polar(x), q = cartesian(p), w = csqr(csqrt(x));
        for (size_t i = 0; i < N; ++i)
        {
            L m      = std::abs(wide(arg[i]));
            bool neg = arg[i].imag() == 0 && arg[i].real() < 0;
            if (!judge_real("cabs", N, i, arg[i], a[i], m, m) || !judge_real("cabssqr", N, i, arg[i], s[i], m * m, m * m))
                break;
            L ang = std::arg(wide(arg[i]));
            if (m > 0 && !judge_real("carg", N, i, arg[i], g[i], ang, std::max(std::abs(ang), (L)1e-3), neg))
                break;
            if (!judge("cartesian(polar)", N, i, arg[i], (C)q[i], { wide(arg[i]), 2 * m }) || !judge("csqr(csqrt)", N, i, arg[i], (C)w[i], { wide(arg[i]), 2 * m }))
                break;
        }
        evals(5);
    }
    {
        vec<C, N> x, back;
        C arg[N];
        for (size_t i = 0; i < N; ++i)
        {
            do
                arg[i] = number(r, 3, false);
            while (std::abs(arg[i].imag()) > 3);
            x[i] = arg[i];
        }
        back = clog(cexp(x)); // in the principal strip
        for (size_t i = 0; i < N; ++i)
            if (!judge("clog(cexp)", N, i, arg[i], (C)back[i], { wide(arg[i]), 2 + std::abs(wide(arg[i])) }))
                break;
        evals(1);
    }
}

template <size_t N>
static void arithmetic(Rng& r)
{
    vec<C, N> x, y;
    vec<T, N> v;
    C a[N], b[N], sc = number(r, 100, false);
    T rl[N], rs = (T)(r.sym() * 9 + (r.chance(0.5) ? 10 : -10));
    for (size_t i = 0; i < N; ++i)
        x[i] = a[i] = number(r, 1e3, true), y[i] = b[i] = number(r, 1e3, false), v[i] = rl[i] = (T)(r.sym() + (r.chance(0.5) ? 2 : -2));
    CL s = wide(sc);
    vec<C, N> mulv = x * y, divv = x / y, addv = x + y, subv = x - y, negv = -x, conj = cconj(x);
    vec<C, N> muls = x * sc, smul = sc * x, divs = x / sc, sdiv = sc / y, adds = x + sc, ssub = sc - x;
    vec<C, N> mulr = x * rs, rmul = rs * x, divr = x / rs, rdiv = rs / y, addr = x + rs, rsub = rs - x;
    vec<C, N> mulvr = x * v, vmul = v * x, divvr = x / v, vdiv = v / y, addvr = x + v, vsub = v - x;
    for (size_t i = 0; i < N; ++i)
    {
        CL p = wide(a[i]), q = wide(b[i]);
        L ap = std::abs(p), aq = std::abs(q), as = std::abs(s), ar = std::abs((L)rs), av = std::abs((L)rl[i]);
        auto flat = [](T re) { return C(re, T(0)); };
        auto plus = [](C u, C w) { return C(u.real() + w.real(), u.imag() + w.imag()); };
        auto minus = [](C u, C w) { return C(u.real() - w.real(), u.imag() - w.imag()); };
        bool ok = judge("x * y", N, i, a[i], mulv[i], { p * q, ap * aq / 2 }) && judge("x / y", N, i, a[i], divv[i], { p / q, ap / aq }) && same("x + y", N, i, a[i], addv[i], plus(a[i], b[i])) &&
                  same("x - y", N, i, a[i], subv[i], minus(a[i], b[i])) && same("-x", N, i, a[i], negv[i], C(-a[i].real(), -a[i].imag())) &&
                  same("cconj", N, i, a[i], conj[i], C(a[i].real(), -a[i].imag())) && judge("x * scalar", N, i, a[i], muls[i], { p * s, ap * as / 2 }) &&
                  judge("scalar * x", N, i, a[i], smul[i], { p * s, ap * as / 2 }) && judge("x / scalar", N, i, a[i], divs[i], { p / s, ap / as }) &&
                  judge("scalar / x", N, i, b[i], sdiv[i], { s / q, as / aq }) && same("x + scalar", N, i, a[i], adds[i], plus(a[i], sc)) &&
                  same("scalar - x", N, i, a[i], ssub[i], minus(sc, a[i])) && judge("x * real", N, i, a[i], mulr[i], { p * (L)rs, ap * ar / 2 }) &&
                  judge("real * x", N, i, a[i], rmul[i], { p * (L)rs, ap * ar / 2 }) && judge("x / real", N, i, a[i], divr[i], { p / (L)rs, ap / ar }) &&
                  judge("real / x", N, i, b[i], rdiv[i], { (L)rs / q, ar / aq }) && same("x + real", N, i, a[i], addr[i], plus(a[i], flat(rs))) &&
                  same("real - x", N, i, a[i], rsub[i], minus(flat(rs), a[i])) && judge("x * reals", N, i, a[i], mulvr[i], { p * (L)rl[i], ap * av / 2 }) &&
                  judge("reals * x", N, i, a[i], vmul[i], { p * (L)rl[i], ap * av / 2 }) && judge("x / reals", N, i, a[i], divvr[i], { p / (L)rl[i], ap / av }) &&
                  judge("reals / x", N, i, b[i], vdiv[i], { (L)rl[i] / q, av / aq }) && same("x + reals", N, i, a[i], addvr[i], plus(a[i], flat(rl[i]))) &&
                  same("reals - x", N, i, a[i], vsub[i], minus(flat(rl[i]), a[i]));
        if (!ok)
            break;
    }
    evals(24), seen(hash_bytes(a, sizeof(a)));
}

template <size_t N>
static void parts_of(Rng& r)
{
    vec<C, N> x;
    vec<T, N> re, im;
    C a[N];
    for (size_t i = 0; i < N; ++i)
        x[i] = a[i] = number(r, 1e3, true), re[i] = a[i].real(), im[i] = a[i].imag();
    vec<T, N> xr = kfr::real(x), xi = kfr::imag(x);
    vec<C, N> made = make_complex(re, im), only = make_complex(re), cast = re;
    vec<T, 2 * N> flat = cdecom(x);
    vec<C, N> comp = ccomp(flat), dr = cdupreal(x), di = cdupimag(x), sw = cswapreim(x), nr = cnegreal(x), ni = cnegimag(x), one = C(a[0]);
    for (size_t i = 0; i < N; ++i)
    {
        T p = a[i].real(), q = a[i].imag();
        if (!bits(xr[i], p) || !bits(xi[i], q))
            return fail("real or imag of %zu: lane %zu", N, i);
        if (!bits(flat[2 * i], p) || !bits(flat[2 * i + 1], q))
            return fail("cdecom of %zu: lane %zu", N, i);
        if (!(same("make_complex", N, i, a[i], made[i], a[i]) && same("make_complex of reals", N, i, a[i], only[i], C(p, 0)) && same("conversion from reals", N, i, a[i], cast[i], C(p, 0)) &&
              same("ccomp(cdecom)", N, i, a[i], comp[i], a[i]) && same("cdupreal", N, i, a[i], dr[i], C(p, p)) && same("cdupimag", N, i, a[i], di[i], C(q, q)) &&
              same("cswapreim", N, i, a[i], sw[i], C(q, p)) && same("cnegreal", N, i, a[i], nr[i], C(-p, q)) && same("cnegimag", N, i, a[i], ni[i], C(p, -q)) &&
              same("broadcast", N, i, a[0], one[i], a[0])))
            return;
    }
    using O = std::conditional_t<std::is_same_v<T, float>, double, float>;
    vec<kfr::complex<O>, N> other = promoteto<kfr::complex<O>>(x);
    for (size_t i = 0; i < N; ++i)
    {
        kfr::complex<O> o = other[i];
        if (o.real() != (O)a[i].real() || o.imag() != (O)a[i].imag())
            return fail("conversion of %zu to the other precision: lane %zu", N, i);
    }
    evals(12);
}

static void scalars(Rng& r)
{
    for (int f = 0; f < f_count; ++f)
    {
        C x = number(r, flimit[f], fzero[f]), y;
        switch (f)
        {
#define F(n, l, z)                                                                                                      \
    case f_##n:                                                                                                         \
        y = kfr::n(x);                                                                                                  \
        break;
            VK_FUNCS(F)
#undef F
        }
        judge(fname[f], 0, 0, x, y, reference(f, x));
    }
    C x   = number(r, 1e3, false);
    L m   = std::abs(wide(x)), ang = std::arg(wide(x));
    bool neg = x.imag() == 0 && x.real() < 0;
    judge_real("cabs", 0, 0, x, cabs(x), m, m), judge_real("cabssqr", 0, 0, x, cabssqr(x), m * m, m * m);
    judge_real("carg", 0, 0, x, carg(x), ang, std::max(std::abs(ang), (L)1e-3), neg);
    same("cconj", 0, 0, x, kfr::cconj(x), std::conj(x));
    same("make_complex", 0, 0, x, make_complex(x.real(), x.imag()), x);
    if (!bits(kfr::real(x), x.real()) || !bits(kfr::imag(x), x.imag()) || isreal(x) != (x.imag() == 0))
        fail("parts of the scalar (%g, %g)", (double)x.real(), (double)x.imag());
    T q = (T)(r.sym() * 100);
    judge_real("cabs of a real", 0, 0, C(q), cabs(q), std::abs((L)q), std::abs((L)q));
    if (q != 0)
        judge_real("carg of a real", 0, 0, C(q), carg(q), q < 0 ? (L)M_PIl : 0, 1);
    evals(f_count + 8);
}

template <typename E>
static void expr(const char* what, size_t n, const univector<C>& in, const E& e, int f)
{
    univector<C> y(n);
    y = e;
    for (size_t i = 0; i < n; ++i)
        if (!judge(what, n, i, in[i], y[i], reference(f, in[i])))
            break;
    evals(1);
}
static void expressions(Rng& r)
{
    size_t n = 1 + r.below(70);
    univector<C> x(n), y(n), z(n);
    for (int f = 0; f < f_count; ++f)
    {
        for (size_t i = 0; i < n; ++i)
            x[i] = number(r, flimit[f], fzero[f]);
        switch (f)
        {
#define F(nm, l, zz)                                                                                                    \
    case f_##nm:                                                                                                        \
        expr(#nm " of an expression", n, x, kfr::nm(x), f);                                                            \
        break;
            VK_FUNCS(F)
#undef F
        }
    }
    for (size_t i = 0; i < n; ++i)
        x[i] = number(r, 1e3, true), y[i] = number(r, 1e3, false);
    univector<T> re(n), im(n), ab(n), sq(n), ar(n);
    re = kfr::real(x), im = kfr::imag(x), ab = cabs(x), sq = cabssqr(x), ar = carg(y);
    for (size_t i = 0; i < n; ++i)
    {
        L m = std::abs(wide(x[i])), ang = std::arg(wide(y[i]));
        if (!bits(re[i], x[i].real()) || !bits(im[i], x[i].imag()))
            return fail("real or imag of an expression: element %zu of %zu", i, n);
        if (!judge_real("cabs of an expression", n, i, x[i], ab[i], m, m) || !judge_real("cabssqr of an expression", n, i, x[i], sq[i], m * m, m * m) ||
            !judge_real("carg of an expression", n, i, y[i], ar[i], ang, std::max(std::abs(ang), (L)1e-3), y[i].imag() == 0 && y[i].real() < 0))
            return;
    }
    z = make_complex(re, im);
    for (size_t i = 0; i < n; ++i)
        if (!same("make_complex of expressions", n, i, x[i], z[i], x[i]))
            return;
    C sc = number(r, 10, false);
    T rs = (T)(1 + r.unit());
    univector<C> p(n), d(n), q(n), s(n);
    p = x * y, d = x / y, q = cconj(x) * sc + y, s = (x - y) * rs;
    for (size_t i = 0; i < n; ++i)
    {
        CL a = wide(x[i]), b = wide(y[i]);
        L aa = std::abs(a), ab_ = std::abs(b);
        if (!judge("product of expressions", n, i, x[i], p[i], { a * b, aa * ab_ / 2 }) || !judge("quotient of expressions", n, i, x[i], d[i], { a / b, aa / ab_ }) ||
            !judge("cconj(x) * c + y", n, i, x[i], q[i], { std::conj(a) * wide(sc) + b, aa * std::abs(wide(sc)) + ab_ }) ||
            !judge("(x - y) * r", n, i, x[i], s[i], { (a - b) * (L)rs, aa + ab_ }))
            return;
    }
    univector<C> rr(n);
    rr = x * re; // complex by real
    for (size_t i = 0; i < n; ++i)
        if (!judge("product of complex and real expressions", n, i, x[i], rr[i], { wide(x[i]) * (L)re[i], std::abs(wide(x[i])) * std::abs((L)re[i]) / 2 }))
            return;
    evals(12), seen(n);
}

template <size_t N>
static void width(const char* name, size_t cases)
{
    for (size_t k = 0; k < cases; ++k)
        if (begin("%s N=%zu k=%zu", name, N, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 20; ++i)
                functions<N>(r), arithmetic<N>(r), parts_of<N>(r);
        }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    const char* name = PART == 0 ? "f32" : "f64";
    size_t n         = thorough() ? 4000 : 300;
    width<1>(name, n), width<2>(name, n), width<3>(name, n), width<4>(name, n), width<5>(name, n), width<7>(name, n), width<8>(name, n), width<16>(name, n);
    for (size_t k = 0; k < n * 3; ++k)
        if (begin("%s scalars k=%zu", name, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 20; ++i)
                scalars(r);
        }
    for (size_t k = 0; k < n * 3; ++k)
        if (begin("%s expressions k=%zu", name, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 5; ++i)
                expressions(r);
        }
    stat("worst_error_percent_of_tolerance", (uint64_t)(worst * 100));
    return done();
}
