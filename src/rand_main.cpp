// C29: random numbers: reference generator, ranges, distributions, correlation, shared and copied state.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
using namespace kfr;
using namespace vk;

#ifndef PART
#define PART 0
#endif

// ---- the reference: four linear congruential lanes, bytes rotated by three ----------------------------------
struct Ref
{
    uint32_t v[4];
    Ref(const uint32_t* s)
    {
        std::memcpy(v, s, 16);
        next();
    }
    void next()
    {
        static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
        unsigned char b[16], c[16];
        for (int i = 0; i < 4; ++i)
            v[i] = v[i] * mul[i] + add[i];
        std::memcpy(b, v, 16);
        for (int i = 0; i < 16; ++i)
            c[(i + 3) % 16] = b[i];
        std::memcpy(v, c, 16);
    }
    // n bytes are made of halves: the largest power of two below n first
    void bytes(unsigned char* p, size_t n)
    {
        if (n <= 16)
        {
            next();
            std::memcpy(p, v, n);
            return;
        }
        size_t h = 1;
        while (h * 2 <= n - 1)
            h *= 2;
        bytes(p, h), bytes(p + h, n - h);
    }
    template <typename T>
    T uniform(const unsigned char* p)
    {
        T r;
        if constexpr (std::is_same_v<T, float>)
        {
            uint32_t u;
            std::memcpy(&u, p, 4);
            r = (float)(u & 0x7FFFFF) / 8388608.0f;
        }
        else if constexpr (std::is_same_v<T, double>)
        {
            uint64_t u;
            std::memcpy(&u, p, 8);
            r = (double)(u & 0xFFFFFFFFFFFFFull) / 4503599627370496.0;
        }
        else
            std::memcpy(&r, p, sizeof(T));
        return r;
    }
};

struct Seed
{
    uint32_t s[4];
    random_state state() const { return random_init(s[0], s[1], s[2], s[3]); }
    Seed(Rng& r, size_t k)
    {
        for (auto& x : s)
            x = k == 0 ? 0 : k == 1 ? 0xFFFFFFFFu : k < 6 ? r.below(8) : (uint32_t)(r.next() >> 32);
    }
};
static bool same_state(const random_state& a, const Ref& b) { return !std::memcmp(&a, b.v, 16); }

template <typename T, size_t N>
static void exact(const Seed& s)
{
    random_state st = s.state(), st2 = random_init((uint64_t)s.s[0] | (uint64_t)s.s[1] << 32, (uint64_t)s.s[2] | (uint64_t)s.s[3] << 32);
    Ref ref(s.s);
    if (!same_state(st, ref) || !same_state(st2, ref))
        fail("the state after random_init differs");
    unsigned char b[N * sizeof(T)];
    for (int k = 0; k < 6; ++k)
    {
        vec<T, N> x = random_uniform<T, N>(st);
        ref.bytes(b, sizeof(b));
        for (size_t i = 0; i < N; ++i)
            if (x[i] != ref.uniform<T>(b + i * sizeof(T)))
                return fail("random_uniform of %zu elements of %zu bytes: element %zu of call %d differs", N, sizeof(T), i, k);
        if (!same_state(st, ref))
            return fail("random_uniform of %zu elements of %zu bytes: state after call %d differs", N, sizeof(T), k);
    }
    vec<u8, N> bits = random_bits<N>(st);
    ref.bytes(b, N);
    for (size_t i = 0; i < N; ++i)
        if (bits[i] != b[i])
            return fail("random_bits of %zu bytes: byte %zu differs", N, i);
    evals(7);
}
template <typename T, size_t... Ns>
static void exact_all(const Seed& s, std::index_sequence<Ns...>)
{
    (exact<T, Ns + 1>(s), ...);
}

/// (u * range) >> bits, exactly
template <typename T>
static T scaled(T u, T lo, T hi)
{
    using U = std::make_unsigned_t<T>;
    U range = (U)((U)hi - (U)lo);
    return (T)(U)((U)(((unsigned __int128)(U)u * range) >> (8 * sizeof(T))) + (U)lo);
}

static uint64_t histo_bad = 0;
/// chi square of counts against equal probabilities, in standard deviations
static double chi(const std::vector<uint64_t>& c, double expect)
{
    double x = 0;
    for (auto v : c)
        x += (v - expect) * (v - expect) / expect;
    double df = (double)c.size() - 1;
    return (x - df) / std::sqrt(2 * df);
}

template <typename T, size_t N>
static void int_range(Rng& r, const Seed& s)
{
    using L = std::numeric_limits<T>;
    random_state st = s.state();
    for (int k = 0; k < 30; ++k)
    {
        T lo, hi;
        switch (r.below(5))
        {
        case 0:
            lo = L::min(), hi = L::max();
            break;
        case 1:
            lo = (T)r.next(), hi = (T)(lo + 1);
            break;
        case 2:
            lo = 0, hi = (T)(1 + r.below(100));
            break;
        default:
            lo = (T)r.next(), hi = (T)r.next();
        }
        if (lo > hi)
            std::swap(lo, hi);
        if (lo == hi)
            continue;
        vec<T, N> x = random_range<N>(st, lo, hi);
        for (size_t i = 0; i < N; ++i)
            if (!(x[i] >= lo && x[i] < hi))
                return fail("random_range of %zu elements of %zu bytes in [%lld, %lld) gave %lld", N, sizeof(T), (long long)lo, (long long)hi, (long long)x[i]);
        seen((uint64_t)hi - (uint64_t)lo);
        evals(1);
    }
    // every value is reached, equally often
    T lo = (T)(r.next() >> 3), span = (T)(2 + r.below(60));
    if (lo > (T)(L::max() - span))
        lo = (T)(L::max() - span);
    if (L::min() < 0 && r.chance(0.5))
        lo = (T)(-(span / 2) - 1);
    std::vector<uint64_t> c((size_t)span);
    const size_t calls = 400 * (size_t)span / N + 8;
    for (size_t k = 0; k < calls; ++k)
    {
        vec<T, N> x = random_range<N>(st, lo, (T)(lo + span));
        for (size_t i = 0; i < N; ++i)
        {
            if (!(x[i] >= lo && x[i] < (T)(lo + span)))
                return fail("random_range of %zu elements of %zu bytes in [%lld, %lld) gave %lld", N, sizeof(T), (long long)lo, (long long)(lo + span), (long long)x[i]);
            ++c[(size_t)(x[i] - lo)];
        }
    }
    for (size_t i = 0; i < c.size(); ++i)
        if (!c[i])
            return fail("random_range of %zu elements of %zu bytes in [%lld, %lld) never gave %lld", N, sizeof(T), (long long)lo, (long long)(lo + span), (long long)(lo + i));
    // 8-bit ranges are at best as even as 256 values can be
    double ch = chi(c, (double)(calls * N) / (double)span);
    if (sizeof(T) > 1 && ch > 8)
        fail("random_range of %zu elements of %zu bytes in [%lld, %lld) is uneven (%.1f standard deviations)", N, sizeof(T), (long long)lo, (long long)(lo + span), ch);
    evals(calls);
}

template <typename T>
static double tol_of(T lo, T hi) { return (double)std::numeric_limits<T>::epsilon() * std::max(std::abs((double)lo), std::abs((double)hi)) / ((double)hi - (double)lo); }

template <typename T, size_t N>
static void float_range(Rng& r, const Seed& s)
{
    random_state st = s.state();
    struct
    {
        T lo, hi;
    } ranges[] = { { -1, 1 }, { 0, 1 }, { 1000, 1001 }, { -1001, -1000 }, { (T)16777216, (T)16777220 }, { (T)r.sym(), (T)(2 + r.unit()) }, { (T)-3e5, (T)7e-3 }, { (T)0.5, (T)0.5000005 } };
    for (auto& g : ranges)
    {
        const size_t calls = 40000 / N;
        random_state st2   = st;
        double sum = 0, lo = 1, hi = 0;
        for (size_t k = 0; k < calls; ++k)
        {
            vec<T, N> x = random_range<N>(st, g.lo, g.hi), u = random_uniform<T, N>(st2);
            for (size_t i = 0; i < N; ++i)
            {
                if (!(x[i] >= g.lo && x[i] < g.hi))
                    return fail("random_range of %zu in [%.9g, %.9g) gave %.9g", N, (double)g.lo, (double)g.hi, (double)x[i]);
                double f = ((double)x[i] - (double)g.lo) / ((double)g.hi - (double)g.lo), e = (double)u[i];
                double tol = 4 * (double)std::numeric_limits<T>::epsilon() * std::max({ std::abs((double)g.lo), std::abs((double)g.hi), 1.0 }) / ((double)g.hi - (double)g.lo);
                if (std::abs(f - e) > tol && !(x[i] == g.lo && e > 1 - tol))
                    return fail("random_range of %zu in [%.9g, %.9g): %.9g instead of %.9g of the way", N, (double)g.lo, (double)g.hi, f, e);
                sum += f, lo = std::min(lo, f), hi = std::max(hi, f);
            }
        }
        double n = (double)(calls * N), m = sum / n;
        if (std::abs(m - 0.5) > 8 / std::sqrt(12 * n) + 1e-5 && (double)g.hi - (double)g.lo > 1e-3 && tol_of(g.lo, g.hi) < 1e-3)
            fail("random_range of %zu in [%.9g, %.9g) has its mean at %.4f of the way", N, (double)g.lo, (double)g.hi, m);
        if (tol_of(g.lo, g.hi) < 1e-3 && (double)g.hi - (double)g.lo > 0.1 && (lo > 0.01 || hi < 0.99))
            fail("random_range of %zu in [%.9g, %.9g) covers only %.4f to %.4f", N, (double)g.lo, (double)g.hi, lo, hi);
        evals(calls);
    }
}

/// moments, evenness, pairs and serial correlation of a stream that should be uniform
static void judge_uniform(const char* what, const std::vector<double>& x)
{
    const size_t n = x.size();
    double m = 0, v = 0;
    std::vector<uint64_t> c(256);
    for (double a : x)
        m += a, ++c[std::min<size_t>(255, (size_t)(a * 256))];
    m /= n;
    for (double a : x)
        v += (a - m) * (a - m);
    v /= n;
    if (std::abs(m - 0.5) > 7 / std::sqrt(12.0 * n))
        return fail("%s: mean %.5f", what, m);
    if (std::abs(v - 1.0 / 12) > 7 / std::sqrt(180.0 * n))
        return fail("%s: variance %.5f", what, v);
    if (chi(c, n / 256.0) > 8)
        return fail("%s: uneven, chi square %.1f standard deviations off", what, chi(c, n / 256.0));
    for (size_t lag : { 1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64 })
    {
        double s = 0;
        std::vector<uint64_t> p(256);
        for (size_t i = 0; i + lag < n; ++i)
            s += (x[i] - m) * (x[i + lag] - m), ++p[std::min<size_t>(15, (size_t)(x[i] * 16)) * 16 + std::min<size_t>(15, (size_t)(x[i + lag] * 16))];
        double rho = s / (n - lag) / v;
        if (std::abs(rho) > 7 / std::sqrt((double)n))
            return fail("%s: values %zu apart are correlated: %.4f", what, lag, rho);
        if (chi(p, (n - lag) / 256.0) > 9)
            return fail("%s: pairs %zu apart are uneven: %.1f standard deviations", what, lag, chi(p, (n - lag) / 256.0));
    }
    evals(n / 64);
}
static void judge_normal(const char* what, const std::vector<double>& x, double mu, double sigma)
{
    const size_t n = x.size();
    double m = 0, v = 0, s3 = 0, s4 = 0, big = 0;
    size_t in1 = 0, in2 = 0;
    for (double a : x)
    {
        if (!std::isfinite(a))
            return fail("%s: a value of %g", what, a);
        m += (a - mu) / sigma;
    }
    m /= n;
    for (double a : x)
    {
        double z = (a - mu) / sigma;
        v += (z - m) * (z - m), s3 += std::pow(z - m, 3), s4 += std::pow(z - m, 4), big = std::max(big, std::abs(z));
        in1 += std::abs(z) < 1, in2 += std::abs(z) < 2;
    }
    v /= n, s3 /= n, s4 /= n;
    double q = std::sqrt((double)n);
    if (std::abs(m) > 7 / q)
        return fail("%s: mean is off by %.4f deviations", what, m);
    if (std::abs(v - 1) > 7 * std::sqrt(2.0) / q)
        return fail("%s: variance is %.4f of the one asked for", what, v);
    if (std::abs(s3) > 7 * std::sqrt(6.0) / q + 0.01 || std::abs(s4 - 3) > 7 * std::sqrt(24.0) / q + 0.02)
        return fail("%s: skewness %.3f, kurtosis %.3f", what, s3, s4);
    if (std::abs(in1 / (double)n - 0.682689) > 3.5 / q || std::abs(in2 / (double)n - 0.954500) > 2 / q)
        return fail("%s: %.4f within one deviation, %.4f within two", what, in1 / (double)n, in2 / (double)n);
    if (big < 2.5 || big > 8)
        return fail("%s: largest value at %.2f deviations", what, big);
    for (size_t lag : { 1, 2, 3, 4, 6, 8, 16 })
    {
        double s = 0, s2 = 0;
        for (size_t i = 0; i + lag < n; ++i)
        {
            double a = (x[i] - mu) / sigma - m, b = (x[i + lag] - mu) / sigma - m;
            s += a * b, s2 += (a * a - v) * (b * b - v);
        }
        if (std::abs(s / n / v) > 7 / q)
            return fail("%s: values %zu apart are correlated: %.4f", what, lag, s / n / v);
        if (std::abs(s2 / n / 2) > 12 / q)
            return fail("%s: squares of values %zu apart are correlated: %.4f", what, lag, s2 / n / 2);
    }
    evals(n / 64);
}

template <typename T, size_t N>
static void normal_exact(const Seed& s, double mu, double sigma)
{
    random_state st = s.state();
    Ref ref(s.s);
    constexpr size_t M = (N + 1) / 2 * 2;
    unsigned char b[M * sizeof(T)];
    std::vector<double> all;
    const size_t calls = 30000 / N;
    for (size_t k = 0; k < calls; ++k)
    {
        vec<T, N> x = random_normal<N>(st, (T)mu, (T)sigma);
        ref.bytes(b, sizeof(b));
        if (!same_state(st, ref))
            return fail("random_normal of %zu elements: state after call %zu differs", N, k);
        for (size_t i = 0; i < N; ++i)
            all.push_back((double)x[i]);
        // pairs lie on a circle whose radius is exponential: recover both uniform values
        for (size_t i = 0; i + 1 < N; i += 2)
        {
            double a = ((double)x[i] - mu) / sigma, c = ((double)x[i + 1] - mu) / sigma, r2 = a * a + c * c;
            double u = (double)ref.uniform<T>(b + i * sizeof(T)), w = (double)ref.uniform<T>(b + (i + 1) * sizeof(T));
            double e1 = std::exp(-r2 / 2), tol = 1e-3 + 64 * std::abs(mu / sigma) * (double)eps<T>();
            if (std::abs(e1 - u) > tol && std::abs(e1 - (1 - u)) > tol)
                return fail("random_normal of %zu elements: radius of pair %zu does not follow from the uniform value", N, i / 2);
            double ph = std::atan2(c, a) / (2 * M_PI), d = ph - w;
            d -= std::floor(d + 0.5);
            if (r2 > 0.01 && std::abs(d) > tol)
                return fail("random_normal of %zu elements: angle of pair %zu does not follow from the uniform value", N, i / 2);
        }
    }
    char what[80];
    snprintf(what, sizeof(what), "random_normal of %zu with mean %g and deviation %g", N, mu, sigma);
    judge_normal(what, all, mu, sigma);
}

/// the state whose next call yields these bytes
static random_state before(const unsigned char* want)
{
    static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    unsigned char b[16];
    uint32_t v[4];
    for (int i = 0; i < 16; ++i)
        b[i] = want[(i + 3) % 16];
    std::memcpy(v, b, 16);
    for (int i = 0; i < 4; ++i)
    {
        uint32_t inv = 1;
        for (int k = 0; k < 6; ++k)
            inv *= 2 - mul[i] * inv;
        v[i] = (v[i] - add[i]) * inv;
    }
    random_state s;
    std::memcpy((void*)&s, v, 16);
    return s;
}
/// the uniform values at the ends of the range
template <typename T>
static void extremes(Rng& r)
{
    constexpr size_t N = 16 / sizeof(T);
    for (int k = 0; k < 200; ++k)
    {
        unsigned char b[16];
        for (int i = 0; i < 16; i += (int)sizeof(T))
        {
            uint64_t x = r.chance(0.4) ? 0 : r.chance(0.5) ? ~0ull : r.next() >> r.below(64);
            std::memcpy(b + i, &x, sizeof(T));
        }
        random_state s = before(b), t = s, n = s;
        vec<T, N> u = random_uniform<T, N>(s);
        T lo = (T)r.normal() * (T)std::pow(10.0, (double)r.below(6)), hi = lo + (T)std::pow(10.0, (double)r.below(9) - 4.0) * (T)(1 + r.unit());
        bool ok = lo < hi;
        vec<T, N> x = random_range<N>(t, lo, hi), z = random_normal<N>(n, T(0), T(1));
        for (size_t i = 0; i < N; ++i)
        {
            if (!(u[i] >= 0 && u[i] < 1))
                return fail("random_uniform gave %.9g", (double)u[i]);
            if (ok && !(x[i] >= lo && x[i] < hi))
                return fail("random_range in [%.9g, %.9g) gave %.9g", (double)lo, (double)hi, (double)x[i]);
            if (!(std::abs((double)z[i]) < 12))
                return fail("random_normal gave %.9g for uniform values %.9g, %.9g", (double)z[i], (double)u[i / 2 * 2], (double)u[i / 2 * 2 + 1]);
        }
        evals(3);
    }
}

// ---- expressions --------------------------------------------------------------------------------------------
template <size_t W, typename T, typename E>
static void read_w(const E& e, size_t n, std::vector<T>& out)
{
    for (size_t i = 0; i + W <= n; i += W)
    {
        vec<T, W> x = get_elements(e, shape<1>{ i }, axis_params_v<0, W>);
        for (size_t k = 0; k < W; ++k)
            out.push_back(x[k]);
    }
}
template <typename T>
static double apart(T a, T b) { return std::abs((double)a - (double)b); }

template <typename T, size_t W, typename MakeC, typename MakeR, typename Fn>
static void form(const char* what, const Seed& s, MakeC copied, MakeR shared, Fn fn)
{
    const size_t n = 20 * W;
    random_state st = s.state(), ref = st, mine = st;
    auto e = copied(st);
    std::vector<T> a, b;
    read_w<W>(e, n, a);
    if (std::memcmp(&st, &mine, 16))
        fail("%s with a copied state advanced the caller's", what);
    for (size_t i = 0; i < n; i += W)
    {
        vec<T, W> x = fn(ref);
        for (size_t k = 0; k < W; ++k)
            if (!(a[i + k] == x[k]))
                return fail("%s read by %zu: element %zu differs from the function: %g, %g", what, W, i + k, (double)a[i + k], (double)x[k]);
    }
    auto f = shared(st);
    read_w<W>(f, n, b);
    if (std::memcmp(&st, &ref, 16))
        fail("%s with a shared state left it elsewhere than the function", what);
    if (a != b)
        fail("%s with a shared state differs from the one with a copied state", what);
    // two expressions over one state: neither repeats the other
    auto g = shared(st);
    std::vector<T> c, d;
    read_w<W>(g, W, c), read_w<W>(f, W, d);
    vec<T, W> x = fn(ref), y = fn(ref);
    for (size_t k = 0; k < W; ++k)
        if (!(c[k] == x[k] && d[k] == y[k]))
            return fail("%s: two expressions that share a state", what);
    auto h = e; // a copy goes on from where the original is
    std::vector<T> p, q;
    read_w<W>(h, n, p), read_w<W>(e, n, q);
    if (p != q)
        fail("%s: a copied expression differs", what);
    univector<T> v = truncate(copied(mine), 100);
    univector<T> w = truncate(copied(mine), 100);
    for (size_t i = 0; i < 100; ++i)
        if (!(v[i] == w[i]))
            return fail("%s: the same seed gives another sequence", what);
    evals(6 * 20);
}
template <typename T, size_t W>
static void forms(Rng& r, const Seed& s)
{
    T lo = (T)r.sym(), hi = lo + (T)(0.5 + r.unit()), sg = (T)(0.5 + r.unit()), mu = (T)r.normal();
    form<T, W>("gen_random_uniform", s, [](const random_state& st) { return gen_random_uniform<T>(st); },
               [](random_state& st) { return gen_random_uniform<T>(std::ref(st)); }, [](random_state& st) { return random_uniform<T, W>(st); });
    form<T, W>("gen_random_range", s, [&](const random_state& st) { return gen_random_range<T>(st, lo, hi); },
               [&](random_state& st) { return gen_random_range<T>(std::ref(st), lo, hi); }, [&](random_state& st) { return random_range<W>(st, lo, hi); });
    form<T, W>("gen_random_normal", s, [&](const random_state& st) { return gen_random_normal<T>(st, sg, mu); },
               [&](random_state& st) { return gen_random_normal<T>(std::ref(st), sg, mu); }, [&](random_state& st) { return random_normal<W>(st, mu, sg); });
    form<T, W>("gen_random_normal by default", s, [&](const random_state& st) { return gen_random_normal<T>(st); },
               [&](random_state& st) { return gen_random_normal<T>(std::ref(st)); }, [&](random_state& st) { return random_normal<W>(st, T(0), T(1)); });
}
static void int_forms(Rng& r, const Seed& s)
{
    int lo = (int)r.below(100) - 50, hi = lo + 1 + (int)r.below(1000);
    form<i32, 4>("gen_random_range of integers", s, [&](const random_state& st) { return gen_random_range<i32>(st, lo, hi); },
                 [&](random_state& st) { return gen_random_range<i32>(std::ref(st), lo, hi); }, [&](random_state& st) { return random_range<4>(st, lo, hi); });
}

template <typename T>
static void whole(const Seed& s, Rng& r)
{
    const size_t n = thorough() ? 400000 : 60000;
    auto dbl = [](const univector<T>& v) { return std::vector<double>(v.begin(), v.end()); };
    univector<T> v(n);
    v = gen_random_uniform<T>(s.state());
    judge_uniform("gen_random_uniform", dbl(v));
    T lo = (T)r.normal(), hi = lo + (T)(1 + 3 * r.unit());
    v = (gen_random_range<T>(s.state(), lo, hi) - lo) / (hi - lo);
    for (auto& x : v)
        x = std::min(x, (T)(1 - 1e-7));
    judge_uniform("gen_random_range", dbl(v));
    double mu = 3 * r.normal(), sg = 0.2 + 4 * r.unit();
    v = gen_random_normal<T>(s.state(), (T)sg, (T)mu);
    judge_normal("gen_random_normal", dbl(v), mu, sg);
    random_state st = s.state();
    for (size_t i = 0; i < n; i += 100) // many short reads of a shared state
    {
        auto part = v.slice(i, 100);
        part      = gen_random_normal<T>(std::ref(st));
    }
    judge_normal("gen_random_normal in short reads", dbl(v), 0, 1);
    st = s.state();
    for (size_t i = 0; i < n; i += 50)
    {
        auto part = v.slice(i, 50);
        part      = gen_random_uniform<T>(std::ref(st));
    }
    judge_uniform("gen_random_uniform in short reads", dbl(v));
    // seeds that differ in one bit
    Seed o = s;
    o.s[r.below(4)] ^= 1u << r.below(32);
    univector<T> w(n);
    w = gen_random_uniform<T>(o.state());
    v = gen_random_uniform<T>(s.state());
    size_t same = 0;
    double cor  = 0;
    for (size_t i = 64; i < n; ++i)
        same += v[i] == w[i], cor += ((double)v[i] - 0.5) * ((double)w[i] - 0.5);
    if (same > n / 100 || std::abs(cor * 12 / n) > 8 / std::sqrt((double)n))
        fail("seeds that differ in one bit: %zu values equal, correlation %.4f", same, cor * 12 / n);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    const size_t n = thorough() ? 400 : 24;
#if PART == 0
    for (size_t k = 0; k < n * 4; ++k)
        if (begin("exact k=%zu", k))
        {
            Rng r = case_rng();
            Seed s(r, k);
            auto seq = std::make_index_sequence<33>{};
            exact_all<u8>(s, seq), exact_all<i16>(s, seq), exact_all<u32>(s, seq), exact_all<i32>(s, seq), exact_all<u64>(s, seq), exact_all<float>(s, seq), exact_all<double>(s, seq);
            exact<float, 64>(s), exact<u8, 64>(s), exact<u8, 100>(s), exact<u16, 64>(s);
            extremes<float>(r), extremes<double>(r);
            seen(hash_bytes(s.s, 16));
        }
#elif PART == 1
    for (size_t k = 0; k < n; ++k)
        if (begin("range k=%zu", k))
        {
            Rng r = case_rng();
            Seed s(r, k);
            int_range<u8, 4>(r, s), int_range<i8, 8>(r, s), int_range<u16, 8>(r, s), int_range<i16, 3>(r, s), int_range<u32, 4>(r, s), int_range<i32, 8>(r, s), int_range<i32, 1>(r, s), int_range<i32, 5>(r, s),
                int_range<u64, 2>(r, s), int_range<i64, 4>(r, s), int_range<u64, 8>(r, s), int_range<i64, 1>(r, s);
            float_range<float, 4>(r, s), float_range<float, 1>(r, s), float_range<float, 16>(r, s), float_range<double, 4>(r, s), float_range<double, 3>(r, s);
        }
#else
    for (size_t k = 0; k < n; ++k)
        if (begin("normal k=%zu", k))
        {
            Rng r = case_rng();
            Seed s(r, k + 6); // seeds without structure: judged as random
            normal_exact<float, 4>(s, 0, 1), normal_exact<float, 3>(s, r.normal(), 0.3), normal_exact<float, 1>(s, 0, 2), normal_exact<float, 16>(s, -2, 0.5), normal_exact<double, 2>(s, 0, 1),
                normal_exact<double, 7>(s, 1, 3), normal_exact<double, 8>(s, r.normal(), 1);
            whole<float>(s, r), whole<double>(s, r);
            seen(hash_bytes(s.s, 16));
        }
    for (size_t k = 0; k < n * 3; ++k)
        if (begin("forms k=%zu", k))
        {
            Rng r = case_rng();
            Seed s(r, k);
            forms<float, 1>(r, s), forms<float, 4>(r, s), forms<float, 8>(r, s), forms<float, 16>(r, s), forms<double, 1>(r, s), forms<double, 2>(r, s), forms<double, 8>(r, s), int_forms(r, s);
            seen(hash_bytes(s.s, 16) + 1);
        }
    if (begin("own seeds"))
    {
        random_state a = random_init(), b = random_init();
        if (!std::memcmp(&a, &b, 16))
            fail("two generators seeded by the clock are equal");
        univector<float> v = truncate(gen_random_uniform<float>(), 5000), w = truncate(gen_random_range<float>(2.f, 3.f), 5000), z = truncate(gen_random_normal<float>(), 5000);
        for (float x : v)
            if (!(x >= 0 && x < 1))
                fail("gen_random_uniform() gave %g", x);
        for (float x : w)
            if (!(x >= 2 && x < 3))
                fail("gen_random_range() gave %g", x);
        for (float x : z)
            if (!(std::abs(x) < 9))
                fail("gen_random_normal() gave %g", x);
    }
#endif
    return done();
}
