// C37: generators, oscillators, special signals and Goertzel against their formulas in long double.
#include "stream.hpp"
#include <kfr/dsp.hpp>
using namespace kfr;

#ifndef PART
#define PART 0
#endif
static const ld PI = acosl(-1.0L);

template <typename T>
static void expect(const char* what, size_t i, T got, ld want, ld tol)
{
    evals();
    ld g = (ld)got;
    if (!(fabsl(g - want) <= tol) && !failed())
        fail("%s at %zu: %.17Lg instead of %.17Lg (off by %.3Lg, allowed %.3Lg)", what, i, g, want, fabsl(g - want), tol);
}
static ld fractl(ld x) { return x - floorl(x); }

// ---- generators ---------------------------------------------------------------------------------------------
// value at index i, with the error bound relative to the real number x_i = start + i step
struct GenRef
{
    ld (*f)(ld start, ld step, size_t i);
    ld (*tol)(ld start, ld step, size_t i, ld eps);
};
template <typename T, typename G, typename GT>
static void run_gen(const char* nm, Rng& r, G& g, T start, T step, const GenRef& ref, int parts_per)
{
    size_t n = 1 + (size_t)r.range(0, thorough() ? 6000 : 1200);
    for (int round = 0; round < 2; ++round)
    {
        std::vector<GT> v(n);
        read_pieces<32>(r, g, v.data(), n);
        for (size_t i = 0; i < n; ++i)
        {
            ld e = ref.tol((ld)start, (ld)step, i, (ld)eps<T>());
            if constexpr (std::is_same_v<GT, complex<T>>)
            {
                ld x = (ld)start + (ld)i * (ld)step;
                expect(nm, i, v[i].real(), cosl(x), e);
                expect(nm, i, v[i].imag(), sinl(x), e);
            }
            else
                expect(nm, i, v[i], ref.f((ld)start, (ld)step, i), e);
        }
        // from the start again
        start = round == 0 ? (T)(start / 2) : start;
        g.resync((GT)start);
    }
}
static ld tol_trig(ld s, ld st, size_t i, ld e) { return e * (16 + 8 * fabsl(s) + 8 * ((ld)i + 64) * (1 + fabsl(st))); }
static ld tol_exp(ld s, ld st, size_t i, ld e)
{
    return expl(s + i * st) * e * (32 + 16 * fabsl(s) + 16 * fabsl(st) * 64 + (8 + 64 * fabsl(st)) * (ld)i);
}
static ld tol_lin(ld s, ld st, size_t i, ld e) { return e * (fabsl(s) + fabsl(st) * ((ld)i + 64)) * (8 + (ld)i); }

template <typename T>
static void generators(const char* tn)
{
    const GenRef lin  = { [](ld s, ld st, size_t i) { return s + i * st; }, tol_lin };
    const GenRef ex   = { [](ld s, ld st, size_t i) { return expl(s + i * st); }, tol_exp };
    const GenRef ex2  = { [](ld s, ld st, size_t i) { return exp2l(s + i * st); },
                        [](ld s, ld st, size_t i, ld e) { return tol_exp(s * logl(2), st * logl(2), i, e) + exp2l(s + i * st) * e * 8; } };
    const GenRef cs   = { [](ld s, ld st, size_t i) { return i & 1 ? sinl(s + (i / 2) * st) : cosl(s + (i / 2) * st); }, tol_trig };
    const GenRef sn   = { [](ld s, ld st, size_t i) { return sinl(s + i * st); }, tol_trig };
    const int K       = thorough() ? 400 : 60;
    for (int k = 0; k < K; ++k)
    {
        if (!begin("%s generators k=%d", tn, k))
            continue;
        watchdog(120);
        Rng r   = case_rng();
        T start = (T)(r.chance(0.2) ? 0 : r.sym() * (r.chance(0.3) ? 20 : 2));
        T step  = (T)(r.chance(0.1) ? 0 : r.chance(0.5) ? r.sym() * 0.01 : r.sym() * 3);
        T estep = (T)(r.sym() * 0.004);
        seen((u64)hash_bytes(&start, sizeof(T)) ^ hash_bytes(&step, sizeof(T)));
        auto g1 = gen_linear(start, step);
        run_gen<T, decltype(g1), T>("gen_linear", r, g1, start, step, lin, 0);
        auto g2 = gen_exp(start, estep);
        run_gen<T, decltype(g2), T>("gen_exp", r, g2, start, estep, ex, 0);
        auto g3 = gen_exp2(start, estep);
        run_gen<T, decltype(g3), T>("gen_exp2", r, g3, start, estep, ex2, 0);
        auto g4 = gen_expj(start, step);
        run_gen<T, decltype(g4), complex<T>>("gen_expj", r, g4, start, step, sn, 0);
        auto g5 = gen_cossin(start, step);
        run_gen<T, decltype(g5), T>("gen_cossin", r, g5, start, step, cs, 0);
        auto g6 = gen_sin(start, step);
        run_gen<T, decltype(g6), T>("gen_sin", r, g6, start, step, sn, 0);
        // rendered at once, to an output of any length
        size_t n       = (size_t)r.range(0, 200);
        univector<T> u = truncate(gen_sin(start, step), n);
        univector<T> w = truncate(gen_linear(start, step), n);
        if (u.size() != n || w.size() != n)
            fail("truncate(gen, %zu) rendered %zu elements", n, u.size());
        for (size_t i = 0; i < u.size() && i < w.size(); ++i)
        {
            expect("gen_sin rendered", i, u[i], sinl((ld)start + i * (ld)step), tol_trig(start, step, i, eps<T>()));
            expect("gen_linear rendered", i, w[i], (ld)start + i * (ld)step, tol_lin(start, step, i, eps<T>()));
        }
    }
}

// ---- oscillators --------------------------------------------------------------------------------------------
template <typename T>
struct Osc
{
    const char* name;
    T (*scalar)(const T&);
    void (*vec4)(const T*, T*);                                // one vector
    void (*expr)(Rng&, const univector<T>&, size_t, T*, size_t); // through an expression
    ld (*ref)(ld);
    int kind;      // 0: argument in [0, 1), 1: any number of periods, 2: any number of radians
    ld slope;      // of the wave per unit of its argument
    ld jump;       // phase (in periods) at which the wave jumps, -1 if never
    ld jump2;
    ld approx;     // error of the approximation
};
#define VK_OSC(FN)                                                                                                      \
    #FN, [](const T& x) -> T { return FN(x); },                                                                         \
        [](const T* in, T* out) { write(out, kfr::FN(read<8>(in))); },                                                  \
        [](Rng& r, const univector<T>& in, size_t first, T* out, size_t n)                                              \
    { read_pieces<32>(r, kfr::FN(in), out, n, first); }

static ld ref_square(ld p) { return fractl(p) < 0.5L ? 1 : -1; }
static ld ref_saw(ld p) { return 1 - 2 * fractl(p); }
static ld ref_isaw(ld p) { return -1 + 2 * fractl(p + 0.5L); }
static ld ref_tri(ld p) { return 1 - fabsl(4 * fractl(p + 0.25L) - 2); }
static ld ref_sin(ld p) { return sinl(2 * PI * fractl(p)); }

template <typename T>
static void oscillators(const char* tn)
{
    const Osc<T> list[] = {
        { VK_OSC(rawsine), ref_sin, 0, 7, -1, -1, 3e-6L },
        { VK_OSC(sinenorm), ref_sin, 1, 7, -1, -1, 3e-6L },
        { VK_OSC(sine), ref_sin, 2, 7, -1, -1, 3e-6L },
        { VK_OSC(rawsquare), ref_square, 0, 0, 0, 0.5, 0 },
        { VK_OSC(squarenorm), ref_square, 1, 0, 0, 0.5, 0 },
        { VK_OSC(square), ref_square, 2, 0, 0, 0.5, 0 },
        { VK_OSC(rawsawtooth), ref_saw, 0, 2, 0, -1, 0 },
        { VK_OSC(sawtoothnorm), ref_saw, 1, 2, 0, -1, 0 },
        { VK_OSC(sawtooth), ref_saw, 2, 2, 0, -1, 0 },
        { VK_OSC(isawtoothnorm), ref_isaw, 1, 2, 0.5, -1, 0 },
        { VK_OSC(isawtooth), ref_isaw, 2, 2, 0.5, -1, 0 },
        { VK_OSC(rawtriangle), [](ld p) { return 1 - fabsl(4 * p - 2); }, 0, 4, -1, -1, 0 },
        { VK_OSC(trianglenorm), ref_tri, 1, 4, -1, -1, 0 },
        { VK_OSC(triangle), ref_tri, 2, 4, -1, -1, 0 },
    };
    for (const auto& o : list)
        for (int k = 0; k < (thorough() ? 60 : 12); ++k)
        {
            if (!begin("%s %s k=%d", tn, o.name, k))
                continue;
            watchdog(60);
            Rng r    = case_rng();
            size_t n = (size_t)r.range(8, 400);
            univector<T> x(n);
            for (size_t i = 0; i < n; ++i)
            {
                ld p = r.unit();
                if (r.chance(0.2))
                    p = (ld)r.below(8) / 8; // breakpoints
                if (o.kind > 0)
                    p += r.range(-20, 20);
                x[i] = (T)(o.kind == 2 ? p * 2 * PI : p);
                if (o.kind == 0 && x[i] >= T(1))
                    x[i] = 0;
            }
            seen(hash_bytes(x.data(), n * sizeof(T)));
            std::vector<T> ye(n), ys(n), yv(n);
            o.expr(r, x, 0, ye.data(), n);
            for (size_t i = 0; i < n; ++i)
                ys[i] = o.scalar(x[i]);
            for (size_t i = 0; i + 8 <= n; i += 8)
                o.vec4(x.data() + i, yv.data() + i);
            for (size_t i = 0; i < n; ++i)
            {
                ld ph  = (ld)x[i] / (o.kind == 2 ? 2 * PI : 1);
                ld per = (ld)eps<T>() * (4 + 4 * fabsl(ph));
                ld tol = o.slope * per + o.approx + 8 * (ld)eps<T>();
                // exact at the jump itself unless the phase had to be computed
                bool near = false;
                for (ld j : { o.jump, o.jump2 })
                {
                    ld d = fabsl(fractl(ph - j + 0.5L) - 0.5L);
                    if (j >= 0 && d <= per && !(o.kind != 2 && d == 0))
                        near = true;
                }
                if (near)
                    continue;
                ld w = o.ref(ph);
                expect(o.name, i, ye[i], w, tol);
                expect((std::string(o.name) + " of a scalar").c_str(), i, ys[i], w, tol);
                if (i < n / 8 * 8)
                    expect((std::string(o.name) + " of a vector").c_str(), i, yv[i], w, tol);
            }
        }
    for (int k = 0; k < (thorough() ? 200 : 40); ++k)
    {
        if (!begin("%s phasor k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r   = case_rng();
        T f     = (T)(r.unit() * 0.5), rate = (T)(r.chance(0.5) ? 1 : 44100);
        T ph    = (T)r.unit();
        T fr    = f * rate;
        bool def = r.chance(0.3);
        if (def)
            rate = 1, ph = 0, fr = f;
        size_t n = (size_t)r.range(1, 500), first = (size_t)r.below(100);
        std::vector<T> y(n), z(n);
        if (def)
            read_pieces<32>(r, phasor<T>(fr), y.data(), n, first), read_pieces<32>(r, sinenorm(phasor<T>(fr)), z.data(), n, first);
        else
            read_pieces<32>(r, phasor<T>(fr, rate, ph), y.data(), n, first),
                read_pieces<32>(r, sinenorm(phasor<T>(fr, rate, ph)), z.data(), n, first);
        seen(hash_bytes(y.data(), n * sizeof(T)));
        ld st = (ld)fr / (ld)rate;
        for (size_t i = 0; i < n; ++i)
        {
            ld p   = (ld)ph + (ld)(i + first) * st;
            ld tol = (ld)eps<T>() * 4 * (2 + fabsl(p));
            evals();
            ld d = fabsl(fractl((ld)y[i] - p + 0.5L) - 0.5L); // distance on the circle
            if (!(d <= tol) || !(y[i] >= 0 && y[i] <= 1))
                fail("phasor at %zu: %.9Lg instead of %.9Lg", i + first, (ld)y[i], fractl(p));
            expect("sinenorm of a phasor", i, z[i], sinl(2 * PI * fractl(p)), 7 * tol + 3e-6L);
        }
    }
}

// ---- test signals -------------------------------------------------------------------------------------------
template <typename T>
static void signals(const char* tn)
{
    for (int k = 0; k < (thorough() ? 300 : 60); ++k)
    {
        if (!begin("%s signals k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r    = case_rng();
        size_t n = (size_t)r.range(1, k % 4 == 0 ? 4000 : 200);
        T magn   = (T)(r.sym() * 4);
        seen(n * 100 + k);
        univector<T> a, b;
        if (r.chance(0.5))
        {
            a = jaehne<T>(magn, n), b = swept<T>(magn, n);
            if (a.size() != n || b.size() != n)
            {
                fail("jaehne or swept of length %zu rendered %zu, %zu elements", n, a.size(), b.size());
                continue;
            }
        }
        else
        {
            a.resize(n), b.resize(n);
            size_t first = (size_t)r.below(n);
            read_pieces<32>(r, jaehne<T>(magn, n), a.data() + first, n - first, first);
            read_pieces<32>(r, jaehne<T>(magn, n), a.data(), first, 0);
            read_pieces<32>(r, swept<T>(magn, n), b.data(), n, 0);
        }
        for (size_t i = 0; i < n; ++i)
        {
            ld x = (ld)i, s = (ld)n;
            ld ja = PI / 2 * x * x / s, sw = PI / 4 * powl(x / s, 4) * s;
            expect("jaehne", i, a[i], magn * sinl(ja), fabsl((ld)magn) * (ld)eps<T>() * (4 + 16 * ja));
            expect("swept", i, b[i], magn * sinl(sw), fabsl((ld)magn) * (ld)eps<T>() * (4 + 24 * sw));
        }
        size_t first = (size_t)r.below(5), m = (size_t)r.range(1, 90);
        std::vector<T> u(m);
        read_pieces<32>(r, unitimpulse<T>(), u.data(), m, first);
        for (size_t i = 0; i < m; ++i)
            expect("unitimpulse", i + first, u[i], i + first == 0 ? 1 : 0, 0);
        univector<T> v = truncate(unitimpulse<T>(), m);
        for (size_t i = 0; i < v.size(); ++i)
            expect("unitimpulse rendered", i, v[i], i == 0 ? 1 : 0, 0);
    }
}

// ---- Goertzel -----------------------------------------------------------------------------------------------
template <typename T>
static cld ref_goertzel(const univector<T>& x, T w, ld& tol)
{
    cld y = 0;
    ld s  = 0;
    for (size_t i = 0; i < x.size(); ++i)
    {
        ld a = (ld)w * (ld)(x.size() - 1 - i);
        y += cld(cosl(a), sinl(a)) * (ld)x[i];
        s += fabsl((ld)x[i]);
    }
    // the state grows like 1 / sin w, and so does what a rounded 2 cos w moves the resonance by
    ld g = 1 / (fabsl(sinl((ld)w)) + 1 / ((ld)x.size() + 1));
    tol  = (ld)eps<T>() * (s + 1) * (16 + 8 * g * g + 4 * (ld)x.size() * g);
    return y;
}
template <typename T, size_t W>
static void goertzels(Rng& r, const univector<T>& x, int order)
{
    T w[W];
    complex<T> c[W];
    for (size_t i = 0; i < W; ++i)
    {
        w[i] = (T)(r.chance(0.6) ? 2 * PI * (ld)r.below(x.size() + 1) / (ld)(x.size() + 1) : r.unit() * PI);
        c[i] = complex<T>(-77, -77);
    }
    process(goertzel(c, w), x);
    for (size_t i = 0; i < W; ++i)
    {
        ld tol;
        cld y = ref_goertzel(x, w[i], tol);
        expect("goertzel (several), real part", i, c[i].real(), y.real(), tol);
        expect("goertzel (several), imaginary part", i, c[i].imag(), y.imag(), tol);
        complex<T> one(-77, -77);
        // one at a time, the input in pieces
        process(goertzel(one, w[i]), x);
        expect("goertzel, real part", i, one.real(), y.real(), tol);
        expect("goertzel, imaginary part", i, one.imag(), y.imag(), tol);
    }
}
template <typename T>
static void goertzel_all(const char* tn)
{
    for (int k = 0; k < (thorough() ? 500 : 100); ++k)
    {
        if (!begin("%s goertzel k=%d", tn, k))
            continue;
        watchdog(60);
        Rng r    = case_rng();
        size_t n = (size_t)(k < 40 ? k : r.range(0, 600));
        univector<T> x(n);
        make_signal<T>(r, x.data(), n, (int)r.below(6));
        seen(hash_bytes(x.data(), n * sizeof(T)) + n);
        goertzels<T, 1>(r, x, k), goertzels<T, 2>(r, x, k), goertzels<T, 3>(r, x, k), goertzels<T, 5>(r, x, k),
            goertzels<T, 8>(r, x, k), goertzels<T, 16>(r, x, k);
        // the DFT bin, from the phase at the last sample back to the first
        if (n > 2)
        {
            size_t bin = (size_t)r.below(n);
            T w        = (T)(2 * PI * (ld)bin / (ld)n);
            complex<T> c;
            process(goertzel(c, w), x);
            cld X = 0;
            for (size_t i = 0; i < n; ++i)
            {
                ld a = -2 * PI * (ld)((bin * i) % n) / (ld)n;
                X += cld(cosl(a), sinl(a)) * (ld)x[i];
            }
            ld tol;
            ref_goertzel(x, w, tol);
            tol += (ld)eps<T>() * (ld)n * (ld)n * 8;
            expect("|goertzel| of a DFT bin", bin, cabs(c), std::abs(X), 2 * tol);
        }
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
#if PART == 0
    generators<float>("f32"), generators<double>("f64");
#elif PART == 1
    oscillators<float>("f32"), oscillators<double>("f64");
#elif PART == 2
    signals<float>("f32"), signals<double>("f64");
    goertzel_all<float>("f32"), goertzel_all<double>("f64");
#endif
    return done();
}
