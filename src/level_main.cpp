// C40: mix-down, stereo matrices, level and pitch units, interpolation, waveshapers, weightings, DC removal.
#include "stream.hpp"
#include <kfr/dsp.hpp>
#include <kfr/math.hpp>
using namespace kfr;

#ifndef PART
#define PART 0
#endif
static const ld PI = acosl(-1.0L);

template <typename T>
static void expect(const char* what, ld x, T got, ld want, ld tol)
{
    evals();
    ld g = (ld)got;
    if (g == want)
        return;
    if (!(fabsl(g - want) <= tol) && !failed())
        fail("%s of %.9Lg: %.17Lg instead of %.17Lg (off by %.3Lg, allowed %.3Lg)", what, x, g, want, fabsl(g - want), tol);
}

// ---- mixing -------------------------------------------------------------------------------------------------
template <typename T>
static void mixing(const char* tn)
{
    for (int k = 0; k < (thorough() ? 1500 : 300); ++k)
    {
        if (!begin("%s mixing k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r        = case_rng();
        const size_t n = (size_t)r.range(0, 300);
        univector<T> c[5];
        for (auto& x : c)
        {
            x.resize(n);
            for (auto& v : x)
                v = std::is_integral_v<T> ? (T)r.range(-1000, 1000) : (T)r.sym();
        }
        seen(hash_bytes(c[0].data(), n * sizeof(T)) + n);
        std::vector<T> y(n);
        for (int m = 1; m <= 5; ++m)
        {
            switch (m)
            {
            case 1: read_pieces<32>(r, mixdown(c[0]), y.data(), n); break;
            case 2: read_pieces<32>(r, mixdown(c[0], c[1]), y.data(), n); break;
            case 3: read_pieces<32>(r, mixdown(c[0], c[1], c[2]), y.data(), n); break;
            case 4: read_pieces<32>(r, mixdown(c[0], c[1], c[2], c[3]), y.data(), n); break;
            default: { univector<T> u = mixdown(c[0], c[1], c[2], c[3], c[4]); y.assign(u.begin(), u.end()); }
            }
            if (y.size() != n)
            {
                fail("mixdown of %zu samples gave %zu", n, y.size());
                break;
            }
            for (size_t i = 0; i < n; ++i)
            {
                ld s = 0;
                for (int j = 0; j < m; ++j)
                    s += (ld)c[j][i];
                expect("mixdown", (ld)i, y[i], s, std::is_integral_v<T> ? 0 : (ld)eps<T>() * 8);
            }
        }
        if constexpr (std::is_floating_point_v<T>)
        {
            ld M[2][2];
            for (auto& row : M)
                for (auto& v : row)
                    v = (double)r.sym() * 2;
            f64x2x2 mt{ f64x2{ (double)M[0][0], (double)M[0][1] }, f64x2{ (double)M[1][0], (double)M[1][1] } };
            int kind = (int)r.below(3);
            if (kind == 1)
                mt = matrix_sum_diff(), M[0][0] = M[0][1] = M[1][0] = 1, M[1][1] = -1;
            if (kind == 2)
                mt = matrix_halfsum_halfdiff(), M[0][0] = M[0][1] = M[1][0] = 0.5, M[1][1] = -0.5;
            univector<T> a(n), b(n);
            unpack(a, b) = mixdown_stereo(c[0], c[1], mt);
            for (size_t i = 0; i < n; ++i)
            {
                expect("mixdown_stereo, first channel", (ld)i, a[i], M[0][0] * c[0][i] + M[0][1] * c[1][i], (ld)eps<T>() * 16);
                expect("mixdown_stereo, second channel", (ld)i, b[i], M[1][0] * c[0][i] + M[1][1] * c[1][i], (ld)eps<T>() * 16);
            }
            // there and back
            if (kind == 1)
            {
                univector<T> d(n), e(n);
                unpack(d, e) = mixdown_stereo(a, b, matrix_halfsum_halfdiff());
                for (size_t i = 0; i < n; ++i)
                {
                    expect("sum and difference and back, first", (ld)i, d[i], c[0][i], (ld)eps<T>() * 16);
                    expect("sum and difference and back, second", (ld)i, e[i], c[1][i], (ld)eps<T>() * 16);
                }
            }
        }
    }
}

// ---- functions of one number --------------------------------------------------------------------------------
template <typename T>
struct Fn
{
    const char* name;
    T (*scalar)(const T&);
    void (*vec8)(const T*, T*);
    void (*expr)(Rng&, const univector<T>&, T*, size_t);
    ld (*ref)(ld);
    ld lo, hi;
    bool logscale; // arguments spread evenly in the logarithm
    ld (*tol)(ld x, ld want, ld e);
};
#define VK_FN(FN)                                                                                                       \
    #FN, [](const T& x) -> T { return FN(x); }, [](const T* in, T* out) { write(out, vec<T, 8>(kfr::FN(read<8>(in)))); }, \
        [](Rng& r, const univector<T>& in, T* out, size_t n) { read_pieces<32>(r, kfr::FN(in), out, n); }

static ld e_log(ld, ld w, ld e) { return e * (200 + 8 * fabsl(w)); }
static ld e_exp(ld x, ld w, ld e) { return fabsl(w) * e * (16 + 16 * fabsl(x)); }
static ld e_mul(ld, ld w, ld e) { return fabsl(w) * e * 64; }
static ld e_abs(ld, ld w, ld e) { return e * 16 * (1 + fabsl(w)); }
static ld A(ld f)
{
    ld q = f * f;
    return 12200.0L * 12200 * q * q / ((q + 20.6L * 20.6L) * sqrtl((q + 107.7L * 107.7L) * (q + 737.9L * 737.9L)) * (q + 12200.0L * 12200));
}
static ld B(ld f)
{
    ld q = f * f;
    return 12200.0L * 12200 * q * f / ((q + 20.6L * 20.6L) * sqrtl(q + 158.5L * 158.5L) * (q + 12200.0L * 12200));
}
static ld C(ld f)
{
    ld q = f * f;
    return 12200.0L * 12200 * q / ((q + 20.6L * 20.6L) * (q + 12200.0L * 12200));
}

template <typename T>
static void functions(const char* tn)
{
    const Fn<T> list[] = {
        { VK_FN(amp_to_dB), [](ld x) { return 20 * log10l(fabsl(x)); }, -100, 100, true, e_log },
        { VK_FN(dB_to_amp), [](ld x) { return powl(10, x / 20); }, -200, 200, false, e_exp },
        { VK_FN(power_to_dB), [](ld x) { return 10 * log10l(fabsl(x)); }, -100, 100, true, e_log },
        { VK_FN(dB_to_power), [](ld x) { return powl(10, x / 10); }, -200, 200, false, e_exp },
        { VK_FN(note_to_hertz), [](ld x) { return 440 * powl(2, (x - 69) / 12); }, -24, 160, false, e_exp },
        { VK_FN(hertz_to_note), [](ld x) { return 69 + 12 * log2l(x / 440); }, 1, 40000, true, [](ld, ld w, ld e) { return e * (400 + 8 * fabsl(w)); } },
        { VK_FN(aweighting), [](ld x) { return A(x) / A(1000); }, 0.1L, 100000, true, e_mul },
        { VK_FN(bweighting), [](ld x) { return B(x) / B(1000); }, 0.1L, 100000, true, e_mul },
        { VK_FN(cweighting), [](ld x) { return C(x) / C(1000); }, 0.1L, 100000, true, e_mul },
        { VK_FN(saturate_I), [](ld x) { return x / (fabsl(x) + 1); }, -50, 50, false, e_abs },
        { VK_FN(saturate_II), [](ld x) { ld q = (fabsl(x) + 1) * (fabsl(x) + 1); return copysignl((q - 1) / (q + 1), x); }, -50, 50, false, e_abs },
    };
    for (const auto& f : list)
        for (int k = 0; k < (thorough() ? 120 : 24); ++k)
        {
            if (!begin("%s %s k=%d", tn, f.name, k))
                continue;
            watchdog(60);
            Rng r    = case_rng();
            size_t n = (size_t)r.range(8, 300);
            univector<T> x(n);
            for (auto& v : x)
            {
                if (f.logscale)
                {
                    ld lo = logl(f.lo > 0 ? f.lo : 1e-6L), hi = logl(f.hi);
                    v = (T)expl(lo + (hi - lo) * r.unit());
                    if (f.lo < 0 && r.chance(0.3))
                        v = -v;
                }
                else
                    v = (T)(f.lo + (f.hi - f.lo) * r.unit());
                if (r.chance(0.1) && f.lo < 0 && !f.logscale)
                    v = (T)r.range((long)f.lo, (long)f.hi);
            }
            seen(hash_bytes(x.data(), n * sizeof(T)));
            std::vector<T> ye(n), yv(n);
            f.expr(r, x, ye.data(), n);
            for (size_t i = 0; i + 8 <= n; i += 8)
                f.vec8(x.data() + i, yv.data() + i);
            for (size_t i = 0; i < n; ++i)
            {
                ld w = f.ref((ld)x[i]), t = f.tol((ld)x[i], w, (ld)eps<T>());
                if (strstr(f.name, "weighting"))
                    t += fabsl(w) * 2e-5L; // gains are stored in nine digits or more
                expect(f.name, x[i], ye[i], w, t);
                expect((std::string(f.name) + "(scalar)").c_str(), x[i], f.scalar(x[i]), w, t);
                if (i < n / 8 * 8)
                    expect((std::string(f.name) + "(vector)").c_str(), x[i], yv[i], w, t);
            }
        }
    if (begin("%s special levels", tn))
    {
        T inf = std::numeric_limits<T>::infinity();
        expect("amp_to_dB", 0, amp_to_dB(T(0)), -INFINITY, 0);
        expect("power_to_dB", 0, power_to_dB(T(0)), -INFINITY, 0);
        expect("dB_to_amp", -INFINITY, dB_to_amp(-inf), 0, 0);
        expect("dB_to_power", -INFINITY, dB_to_power(-inf), 0, 0);
        univector<T> z = { T(0), -inf, T(1), T(0) };
        univector<T> a = amp_to_dB(univector<T>{ T(0), T(1), T(0), T(10) }), b = dB_to_power(z);
        expect("amp_to_dB of an expression", 0, a[0], -INFINITY, 0), expect("amp_to_dB of an expression", 1, a[1], 0, 0);
        expect("dB_to_power of an expression", -INFINITY, b[1], 0, 0), expect("dB_to_power of an expression", 0, b[0], 1, (ld)eps<T>() * 4);
        expect("amp_to_dB of an integer", 10, (ld)amp_to_dB(10), 20, 1e-4L);
        expect("note_to_hertz of an integer", 69, (ld)note_to_hertz(69), 440, 1e-2L);
        expect("saturate_I", 0, saturate_I(T(0)), 0, 0), expect("saturate_II", 0, saturate_II(T(0)), 0, 0);
        seen(1);
    }
    // there and back; other tunings
    for (int k = 0; k < (thorough() ? 400 : 80); ++k)
    {
        if (!begin("%s inverse k=%d", tn, k))
            continue;
        Rng r = case_rng();
        seen(k + 5);
        const ld e = (ld)eps<T>();
        for (int i = 0; i < 50; ++i)
        {
            T d = (T)(r.sym() * 150), p = (T)(r.unit() * 130);
            expect("amp_to_dB(dB_to_amp)", d, amp_to_dB(dB_to_amp(d)), d, e * (400 + 300 * fabsl((ld)d)));
            expect("power_to_dB(dB_to_power)", d, power_to_dB(dB_to_power(d)), d, e * (400 + 300 * fabsl((ld)d)));
            expect("hertz_to_note(note_to_hertz)", p, hertz_to_note(note_to_hertz(p)), p, e * (1000 + 300 * fabsl((ld)p)));
            T tn_ = (T)r.range(30, 90), th = (T)(200 + 400 * r.unit());
            ld w = (ld)th * powl(2, ((ld)p - (ld)tn_) / 12);
            expect("note_to_hertz with a tuning", p, kfr::intrinsics::note_to_hertz(p, tn_, th), w, w * e * (64 + 32 * fabsl((ld)p)));
            T hz = (T)w;
            expect("hertz_to_note with a tuning", hz, kfr::intrinsics::hertz_to_note(hz, tn_, th), p, e * (1000 + 100 * fabsl((ld)p)));
        }
    }
}

// ---- interpolation ------------------------------------------------------------------------------------------
template <typename T>
static void interpolation(const char* tn)
{
    for (int k = 0; k < (thorough() ? 1000 : 200); ++k)
    {
        if (!begin("%s interpolation k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r = case_rng();
        T x[4];
        for (auto& v : x)
            v = (T)(r.sym() * 4);
        const ld X[4] = { (ld)x[0], (ld)x[1], (ld)x[2], (ld)x[3] };
        seen(hash_bytes(x, sizeof(x)));
        const ld e = (ld)eps<T>() * 400;
        for (int i = 0; i < 24; ++i)
        {
            T mu = i == 0 ? T(0) : i == 1 ? T(1) : i == 2 ? T(0.5) : (T)r.unit();
            ld m = (ld)mu;
            ld lin = X[1] + (X[2] - X[1]) * m, co = X[1] + (X[2] - X[1]) * (1 - cosl(PI * m)) / 2;
            ld a0 = X[3] - X[2] - X[0] + X[1], a1 = X[0] - X[1] - a0, a2 = X[2] - X[0];
            ld cu = ((a0 * m + a1) * m + a2) * m + X[1];
            ld cr = 0.5L * (2 * X[1] + (X[2] - X[0]) * m + (2 * X[0] - 5 * X[1] + 4 * X[2] - X[3]) * m * m +
                            (3 * X[1] - 3 * X[2] + X[3] - X[0]) * m * m * m);
            expect("linear", m, kfr::linear(mu, x[1], x[2]), lin, e);
            expect("cosine", m, kfr::cosine(mu, x[1], x[2]), co, e + 3e-5L);
            expect("cubic", m, kfr::cubic(mu, x[0], x[1], x[2], x[3]), cu, e);
            expect("catmullrom", m, kfr::catmullrom(mu, x[0], x[1], x[2], x[3]), cr, e);
            using V = vec<T, 4>;
            V vm(mu, T(0), T(1), T(0.25)), v0(x[0]), v1(x[1]), v2(x[2]), v3(x[3]);
            ld ms[4] = { m, 0, 1, 0.25L };
            V ln = kfr::linear(vm, v1, v2), cs = kfr::cosine(vm, v1, v2), cb = kfr::cubic(vm, v0, v1, v2, v3),
              ct = kfr::catmullrom(vm, v0, v1, v2, v3), ne = kfr::nearest(vm, v1, v2);
            for (int j = 0; j < 4; ++j)
            {
                expect("nearest (vector)", ms[j], ne[j], ms[j] < 0.5L ? X[1] : X[2], 0);
                if (j == 1 || j == 2)
                {
                    ld end = j == 1 ? X[1] : X[2];
                    expect("linear at an end point", ms[j], ln[j], end, e);
                    expect("cosine at an end point", ms[j], cs[j], end, e + 3e-5L);
                    expect("cubic at an end point", ms[j], cb[j], end, e);
                    expect("catmullrom at an end point", ms[j], ct[j], end, e);
                }
            }
            expect("linear (vector)", m, ln[0], lin, e);
            expect("cosine (vector)", m, cs[0], co, e + 3e-5L);
            expect("cubic (vector)", m, cb[0], cu, e);
            expect("catmullrom (vector)", m, ct[0], cr, e);
        }
    }
}

// ---- waveshapers --------------------------------------------------------------------------------------------
template <typename E>
static std::vector<double> late(Rng& r, const E& e, size_t n)
{
    volatile char junk[512];
    for (auto& c : junk)
        c = (char)r.next(); // where the temporaries were
    std::vector<double> y(n);
    read_pieces<32>(r, e, y.data(), n);
    return y;
}
template <typename T>
static void shapers(const char* tn)
{
    for (int k = 0; k < (thorough() ? 600 : 150); ++k)
    {
        if (!begin("%s waveshapers k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r    = case_rng();
        size_t n = (size_t)r.range(1, 300);
        univector<T> x(n);
        for (auto& v : x)
            v = (T)(r.chance(0.1) ? 0 : r.sym() * (r.chance(0.2) ? 20 : 2));
        seen(hash_bytes(x.data(), n * sizeof(T)));
        double s = 0.05 + 5 * r.unit(), c1 = r.sym(), c3 = r.sym(), c5 = r.sym();
        // made from temporaries, stored, read later
        auto e1 = waveshaper_tanh(x * 2.0, s);
        auto e2 = waveshaper_saturate_I(x * 2.0, s);
        auto e3 = waveshaper_saturate_II(x * 2.0, s);
        auto e4 = waveshaper_poly(x * 2.0, c1, c3, c5);
        auto e5 = waveshaper_hardclip(x * 2.0, s);
        auto y1 = late(r, e1, n), y2 = late(r, e2, n), y3 = late(r, e3, n), y4 = late(r, e4, n), y5 = late(r, e5, n);
        auto q1 = [](ld v) { return v / (fabsl(v) + 1); };
        auto q2 = [](ld v) { ld q = (fabsl(v) + 1) * (fabsl(v) + 1); return copysignl((q - 1) / (q + 1), v); };
        const ld e = (ld)std::numeric_limits<double>::epsilon() * 200;
        // waveshaper_poly takes its coefficients as fbase (float)
        const ld C1 = (fbase)c1, C3 = (fbase)c3, C5 = (fbase)c5;
        for (size_t i = 0; i < n; ++i)
        {
            ld v = 2 * (ld)x[i];
            expect("waveshaper_tanh", v, y1[i], tanhl(s * v) / tanhl(s), e * 20 / tanhl(s));
            expect("waveshaper_saturate_I", v, y2[i], q1(s * v) / q1(s), e / q1(s));
            expect("waveshaper_saturate_II", v, y3[i], q2(s * v) / q2(s), e / q2(s));
            expect("waveshaper_poly", v, y4[i], C1 * v + C3 * v * v * v + C5 * v * v * v * v * v, e * (1 + fabsl(v * v * v * v * v)));
            expect("waveshaper_hardclip", v, y5[i], v < -s ? -(ld)s : v > s ? (ld)s : v, 0);
            // bounded
            if (!(fabsl((ld)y1[i]) <= (1 + e * 20) / tanhl(s)) || !(fabsl((ld)y2[i]) <= (1 + e) / q1(s)))
                fail("a waveshaper exceeds its bound at %.9Lg", v);
        }
        // odd and non-decreasing
        std::sort(x.begin(), x.end());
        univector<T> neg = x * T(-1);
        auto z2 = late(r, waveshaper_saturate_I(x * 2.0, s), n), m2 = late(r, waveshaper_saturate_I(neg * 2.0, s), n);
        auto z1 = late(r, waveshaper_tanh(x * 2.0, s), n), m1 = late(r, waveshaper_tanh(neg * 2.0, s), n);
        auto z3 = late(r, waveshaper_saturate_II(x * 2.0, s), n), m3 = late(r, waveshaper_saturate_II(neg * 2.0, s), n);
        for (size_t i = 0; i < n; ++i)
        {
            if (z2[i] != -m2[i] || z3[i] != -m3[i] || std::fabs(z1[i] + m1[i]) > (double)e * 20 / std::tanh(s))
                fail("a waveshaper is not odd at %.9g", (double)x[i] * 2);
            if (i && (z2[i] < z2[i - 1] - 1e-12 || z3[i] < z3[i - 1] - 1e-12 || z1[i] < z1[i - 1] - 1e-9))
                fail("a waveshaper decreases at %.9g", (double)x[i] * 2);
        }
    }
}

// ---- DC removal ---------------------------------------------------------------------------------------------
template <typename T>
static void dc(const char* tn)
{
    for (int k = 0; k < (thorough() ? 60 : 12); ++k)
    {
        if (!begin("%s dcremove k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r       = case_rng();
        size_t n    = (size_t)r.range(100, 3000);
        double f    = k % 3 == 0 ? 0.00025 : 0.001 + 0.05 * r.unit();
        univector<T> x(n);
        make_signal<T>(r, x.data(), n, (int)r.below(6));
        seen(hash_bytes(x.data(), n * sizeof(T)));
        std::vector<T> y(n);
        if (k % 3 == 0)
            read_pieces<32>(r, dcremove(x), y.data(), n);
        else
            read_pieces<32>(r, dcremove(x, f), y.data(), n);
        // second order high-pass with Q = 1/2
        ld K = tanl(PI * f), nm = 1 / (1 + 2 * K + K * K), b1 = 2 * (K * K - 1) * nm, b2 = (1 - 2 * K + K * K) * nm;
        ld x1 = 0, x2 = 0, w1 = 0, w2 = 0;
        ld tol = (sizeof(T) == 4 ? 0.15L * (f < 0.001 ? 2 : 1) * (0.001L / f) + 2e-3L : 1e-6L);
        for (size_t i = 0; i < n; ++i)
        {
            ld v = (ld)x[i], w = nm * (v - 2 * x1 + x2) - b1 * w1 - b2 * w2;
            x2 = x1, x1 = v, w2 = w1, w1 = w;
            expect("dcremove", (ld)i, y[i], w, tol * 4);
        }
        // a constant dies away, an alternating signal passes
        univector<T> one(60000, T(1)), alt(2000);
        for (size_t i = 0; i < alt.size(); ++i)
            alt[i] = T(i & 1 ? -1 : 1);
        univector<T> o = dcremove(one), a = dcremove(alt, f);
        expect("dcremove of a constant", 59999, o[59999], 0, 1e-3L);
        expect("dcremove of an alternating signal", 1999, fabsl((ld)a[1999]), 1, f < 0.01 ? 0.02L : 0.05L);
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
#if PART == 0
    mixing<float>("f32"), mixing<double>("f64"), mixing<i32>("i32"), interpolation<float>("f32"), interpolation<double>("f64");
#elif PART == 1
    functions<float>("f32"), functions<double>("f64");
#elif PART == 2
    shapers<float>("f32"), shapers<double>("f64"), dc<float>("f32"), dc<double>("f64");
#endif
    return done();
}
