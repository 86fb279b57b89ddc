// C24: reductions, horizontal operations and histograms against their sequential definitions.
#include "simd.hpp"
#include <kfr/base/reduce.hpp>
#include <kfr/base.hpp>
#include <complex>
using namespace kfr;
using namespace vk;

template <typename T> constexpr const char* tn() { return tname<T>(); }
// values: moderate in magnitude (sums and products of signed integers stay representable), edges for selections
template <typename T> T small_value(Rng& r)
{
    if constexpr (is_fp<T>) return r.chance(0.3) ? T(r.range(-9, 9)) : T(r.normal());
    else if constexpr (std::is_signed<T>::value) return sizeof(T) == 1 ? T(r.range(-1, 1)) : sizeof(T) == 2 ? T(r.range(-5, 5)) : T(r.range(-300, 300));
    else return T(r.next());
}
template <typename T> T edge_value(Rng& r)
{
    for (;;)
    {
        T x = gen<T>(r);
        if (x != x) continue;
        if constexpr (!is_fp<T> && std::is_signed<T>::value) if (x == std::numeric_limits<T>::min()) continue;
        return x;
    }
}
template <typename T> T factor(Rng& r)
{
    if constexpr (is_fp<T>) return T(std::exp(0.3 * r.normal())) * (r.chance(0.5) ? 1 : -1);
    else if constexpr (std::is_signed<T>::value) return r.chance(0.5) ? T(1) : T(-1);
    else return T(r.next() | 1);
}
template <typename T> T tabs(T x) { return x < 0 ? T(-x) : x; }

enum { SUM, MEAN, MIN, MAX, ABSMIN, ABSMAX, DOT, RMS, SUMSQR, PROD, NOPS };
static const char* opname[] = { "sum", "mean", "minof", "maxof", "absminof", "absmaxof", "dotproduct", "rms", "sumsqr", "product" };

template <typename T> bool check_reduce(int op, const std::vector<T>& a, const std::vector<T>& b, T got, const char* form)
{
    const size_t n = a.size();
    vk::evals(n);
    auto bad = [&](std::string want)
    { vk::fail("%s of %zu x %s (%s) is %s, sequential definition gives %s", opname[op], n, tn<T>(), form, show(got).c_str(), want.c_str()); return false; };
    if (op == MIN || op == MAX || op == ABSMIN || op == ABSMAX)
    {
        T w = op == ABSMIN || op == ABSMAX ? tabs(a[0]) : a[0];
        for (T x : a)
        {
            T y = op == ABSMIN || op == ABSMAX ? tabs(x) : x;
            if (op == MIN || op == ABSMIN ? y < w : y > w) w = y;
        }
        return got == w || bad(show(w));
    }
    if constexpr (is_fp<T>)
    {
        long double s = 0, m = 0, p = 1;
        for (size_t i = 0; i < n; ++i)
        {
            long double x = op == DOT ? (long double)a[i] * b[i] : op == RMS || op == SUMSQR ? (long double)a[i] * a[i] : (long double)a[i];
            s += x; m += std::fabs(x); p *= a[i];
        }
        const long double e = std::numeric_limits<T>::epsilon();
        long double want = op == PROD ? p : s, tol = (n + 4) * e * (op == PROD ? std::fabs(p) : m);
        if (op == MEAN) { want /= n; tol /= n; }
        if (op == RMS) { want = std::sqrt(s / n); tol = (n + 4) * e * want; }
        return std::fabs(got - want) <= tol || bad(show((double)want));
    }
    else
    {
        using W = typename std::conditional<std::is_signed<T>::value, i64_t, u64_t>::type;
        W s = 0, p = 1;
        for (size_t i = 0; i < n; ++i)
        {
            W x = op == DOT ? W(W(a[i]) * W(b[i])) : op == SUMSQR ? W(W(a[i]) * W(a[i])) : W(a[i]);
            s = W(u64(s) + u64(x));
            p = W(u64(p) * u64(W(a[i])));
        }
        T w = op == PROD ? T(p) : op == MEAN ? T(T(s) / T(n)) : T(s);
        return got == w || bad(show(w));
    }
}

// every reduction of one expression form; first(expr a), second(expr b) are evaluated by the callee
template <typename T, typename E> T apply(int op, const E& e, const E& f)
{
    switch (op)
    {
    case SUM: return kfr::sum(e);
    case MEAN: return kfr::mean(e);
    case MIN: return kfr::minof(e);
    case MAX: return kfr::maxof(e);
    case ABSMIN: return kfr::absminof(e);
    case ABSMAX: return kfr::absmaxof(e);
    case DOT: return kfr::dotproduct(e, f);
    case SUMSQR: return kfr::sumsqr(e);
    case PROD: return kfr::product(e);
    case RMS: if constexpr (is_fp<T>) return kfr::rms(e);
    }
    return T();
}
template <typename T> bool usable(int op, size_t n)
{
    if (op == RMS && !is_fp<T>) return false;
    if (n == 0) return false;
    if (op == MEAN && !is_fp<T>) return u64(n) <= u64(std::numeric_limits<T>::max());
    return true;
}
template <typename T> void fill(int op, std::vector<T>& a, std::vector<T>& b, Rng& r)
{
    const bool sel = op == MIN || op == MAX || op == ABSMIN || op == ABSMAX;
    const bool narrow = r.chance(0.3);
    for (T& x : a) x = op == PROD ? factor<T>(r) : sel ? (narrow ? small_value<T>(r) : edge_value<T>(r)) : small_value<T>(r);
    for (T& x : b) x = small_value<T>(r);
    if (op == PROD && !is_fp<T> && std::is_signed<T>::value)
        for (int k = 0; k < (sizeof(T) == 1 ? 6 : 12); ++k) a[r.below(a.size())] = 2; // distinct powers of two: a lane skipped or repeated shows
    if (op == PROD && !is_fp<T> && std::is_signed<T>::value && r.chance(0.5)) a[r.below(a.size())] = 3;
    // one decisive element at a random place: selections must see it wherever it is
    if (sel && !a.empty())
    {
        const size_t p = r.chance(0.5) ? a.size() - 1 - r.below(std::min(a.size(), size_t(9))) : r.below(a.size());
        if (op == MIN) a[p] = std::numeric_limits<T>::lowest();
        if (op == MAX || op == ABSMAX) a[p] = std::numeric_limits<T>::max();
        if (op == ABSMIN) a[p] = T(0);
    }
}
template <typename T> void lengths(int op)
{
    if (!vk::begin("reduce/%s/%s/" VK_CC, opname[op], tn<T>())) return;
    Rng r = vk::case_rng(1);
    const size_t last = vk::thorough() ? 700 : 150;
    for (size_t k = 0; k < last + 24; ++k)
    {
        const size_t n = k <= last ? k : 200 + r.below(5000);
        if (!usable<T>(op, n)) continue;
        for (int rep = 0; rep < (k <= last ? 3 : 1); ++rep)
        {
            std::vector<T> a(n), b(n);
            fill<T>(op, a, b, r);
            const size_t off = r.below(17);
            Buf<T> A(n + off), B(n + off);
            std::fill(A.data(), A.data() + off, T(1)); std::fill(B.data(), B.data() + off, T(1));
            std::copy(a.begin(), a.end(), A.data() + off);
            std::copy(b.begin(), b.end(), B.data() + off);
            univector_ref<const T> ea = make_univector((const T*)A.data() + off, n), eb = make_univector((const T*)B.data() + off, n);
            if (!check_reduce<T>(op, a, b, apply<T>(op, ea, eb), "unaligned view")) return;
            univector<T> ua(n), ub_(n);
            std::copy(a.begin(), a.end(), ua.begin()); std::copy(b.begin(), b.end(), ub_.begin());
            if (!check_reduce<T>(op, a, b, apply<T>(op, ua, ub_), "univector")) return;
            {
                auto xa = ua + T(0), xb = ub_ + T(0);
                if (!check_reduce<T>(op, a, b, apply<T>(op, xa, xb), "computed expression")) return;
            }
            {   // slice of a longer vector
                univector<T> la(n + off + 5, T(op == PROD ? 2 : 7)), lb(n + off + 5, T(7));
                std::copy(a.begin(), a.end(), la.begin() + off); std::copy(b.begin(), b.end(), lb.begin() + off);
                auto xa = slice(la, off, n), xb = slice(lb, off, n);
                if (!check_reduce<T>(op, a, b, apply<T>(op, xa, xb), "slice expression")) return;
            }
            if (n > 0)
            {   // the same elements as tensors of two and three dimensions, whole and as a window of a larger one
                size_t d[3] = { 1, 1, n };
                for (size_t q = 1 + r.below(12); q > 1; --q) if (n % q == 0) { d[1] = q; d[2] = n / q; break; }
                if (r.chance(0.3)) std::swap(d[1], d[2]);
                tensor<T, 2> t2(shape<2>(d[1], d[2])), s2(shape<2>(d[1], d[2]));
                std::copy(a.begin(), a.end(), t2.begin()); std::copy(b.begin(), b.end(), s2.begin());
                if (!check_reduce<T>(op, a, b, apply<T>(op, t2, s2), "tensor 2D")) return;
                for (size_t q = 5; q > 1; --q) if (d[1] % q == 0) { d[0] = q; d[1] /= q; break; }
                if (r.chance(0.3)) std::swap(d[0], d[2]);
                tensor<T, 3> t3(shape<3>(d[0], d[1], d[2])), s3(shape<3>(d[0], d[1], d[2]));
                std::copy(a.begin(), a.end(), t3.begin()); std::copy(b.begin(), b.end(), s3.begin());
                if (!check_reduce<T>(op, a, b, apply<T>(op, t3, s3), "tensor 3D")) return;
                const size_t o0 = r.below(3), o1 = r.below(3), o2 = r.below(3);
                tensor<T, 3> big(shape<3>(d[0] + o0 + 1, d[1] + o1 + 1, d[2] + o2 + 1), T(op == PROD ? 2 : 9)), bigb(big.shape(), T(9));
                tensor<T, 3> w = big(shape<3>(o0, o1, o2), shape<3>(o0 + d[0], o1 + d[1], o2 + d[2]));
                tensor<T, 3> wb = bigb(shape<3>(o0, o1, o2), shape<3>(o0 + d[0], o1 + d[1], o2 + d[2]));
                std::copy(a.begin(), a.end(), w.begin()); std::copy(b.begin(), b.end(), wb.begin());
                if (!check_reduce<T>(op, a, b, apply<T>(op, w, wb), "tensor window")) return;
                vk::stat("tensor_reductions", 3);
            }
            if (!A.intact() || !B.intact()) vk::fail("input buffers written around");
            vk::seen(hash_bytes(a.data(), n * sizeof(T)) + op);
            vk::stat("reductions", 4);
        }
    }
}
// complex elements and mixed-type expressions
template <typename T> void complex_sums()
{
    if constexpr (is_fp<T>)
    {
        if (!vk::begin("reduce/complex/%s/" VK_CC, tn<T>())) return;
        Rng r = vk::case_rng(2);
        for (size_t n = 1; n < 140; ++n)
        {
            univector<complex<T>> a(n), b(n);
            std::complex<double> s = 0, d = 0, p = 1; double m = 0, md = 0;
            for (size_t i = 0; i < n; ++i)
            {
                a[i] = complex<T>(T(r.normal()), T(r.normal())); b[i] = complex<T>(T(r.normal()), T(r.normal()));
                double t = r.unit() * 6; if (n < 60) a[i] = complex<T>(T(std::cos(t)), T(std::sin(t)));
                std::complex<double> x(a[i].real(), a[i].imag()), y(b[i].real(), b[i].imag());
                s += x; d += x * y; p *= x; m += std::abs(x); md += 2 * std::abs(x * y);
            }
            auto near = [&](complex<T> g, std::complex<double> w, double t, const char* what)
            {
                if (std::abs(std::complex<double>(g.real(), g.imag()) - w) <= t * 2 * (n + 4) * std::numeric_limits<T>::epsilon()) return true;
                vk::fail("%s of %zu complex<%s> is (%g, %g), expected (%g, %g)", what, n, tn<T>(), (double)g.real(), (double)g.imag(), w.real(), w.imag());
                return false;
            };
            if (!near(kfr::sum(a), s, m, "sum") || !near(kfr::dotproduct(a, b), d, md, "dotproduct") ||
                !near(kfr::mean(a), s / double(n), m / n, "mean") || (n < 60 && !near(kfr::product(a), p, 2, "product"))) return;
            vk::evals(n * 4); vk::seen(hash_bytes(a.data(), n * sizeof(a[0])));
        }
    }
}
// horizontal operations of registers
template <typename T> void go_h(const char* name, size_t N, int kind, T (*op)(const T*, const T*))
{
    if (!vk::begin("%s/%zu/%s/" VK_CC, name, N, tn<T>())) return;
    Rng r = vk::case_rng(3);
    for (int it = 0; it < (vk::thorough() ? 4000 : 300); ++it)
    {
        std::vector<T> a(N), b(N);
        if (kind < NOPS) fill<T>(kind, a, b, r);
        else for (size_t i = 0; i < N; ++i) a[i] = fb<T>((U<T>)(kind == NOPS ? r.next() | r.next() | r.next() : r.next()));
        Buf<T> A(N), B(N);
        std::copy(a.begin(), a.end(), A.data()); std::copy(b.begin(), b.end(), B.data());
        T got = op(A.data(), B.data());
        if (kind < NOPS)
        {
            if (!usable<T>(kind, N)) return;
            if (!check_reduce<T>(kind, a, b, got, name)) return;
        }
        else
        {
            U<T> w = ub(a[0]);
            for (size_t i = 1; i < N; ++i) w = U<T>(kind == NOPS ? w & ub(a[i]) : kind == NOPS + 1 ? w | ub(a[i]) : w ^ ub(a[i]));
            if (ub(got) != w && !(got != got && fb<T>(w) != fb<T>(w))) { vk::fail("bits %llx, expected %llx", (unsigned long long)ub(got), (unsigned long long)w); return; }
            vk::evals(N);
        }
        vk::seen(hash_bytes(a.data(), N * sizeof(T)) + kind);
    }
}
template <typename T, size_t N> void horiz()
{
#define H1(name, kind) go_h<T>(#name, N, kind, [](const T* p, const T*) { return T(kfr::name(vec<T, N>(read<N>(p)))); });
    H1(hadd, SUM) H1(hsum, SUM) H1(hmul, PROD) H1(hproduct, PROD) H1(hmin, MIN) H1(hmax, MAX) H1(havg, MEAN)
    H1(hbitwiseand, NOPS) H1(hbitwiseor, NOPS + 1) H1(hbitwisexor, NOPS + 2)
    if constexpr (is_fp<T>) { H1(hrms, RMS) }
    go_h<T>("hdot", N, DOT, [](const T* p, const T* q) { return T(kfr::hdot(vec<T, N>(read<N>(p)), vec<T, N>(read<N>(q)))); });
}
// histograms: every value counted once, in its bin
template <typename T, typename H> bool check_hist(const H& h, const std::vector<T>& a, size_t bins, const char* form)
{
    std::vector<u64> want(bins + 2), extra(bins + 2); // extra: values beside a boundary may fall on either side
    u64 nans = 0; // NaN has no bin; it must be counted somewhere all the same
    for (T x : a)
    {
        if constexpr (is_fp<T>)
        {
            if (x != x) { ++nans; continue; }
            if (x < 0) { want[0]++; continue; }
            if (x > 1) { want[bins + 1]++; continue; }
            double y = std::min(double(x) * bins, double(bins - 1)), f = y - std::floor(y);
            if (std::fabs(f - 0.5) < 1e-5 * (y + 1)) extra[1 + (size_t)std::floor(y)]++;
            else want[1 + (size_t)std::floor(y + 0.5)]++;
        }
        else
        {
            if (std::is_signed<T>::value && i64_t(x) < 0) want[0]++;
            else if (u64(x) >= bins) want[bins + 1]++;
            else want[1 + size_t(x)]++;
        }
    }
    u64 total = 0;
    auto bad = [&](const char* what, size_t i, u64 got, u64 w)
    { vk::fail("histogram (%s, %zu bins) of %zu x %s: %s %zu holds %llu, expected %llu", form, bins, a.size(), tn<T>(), what, i, (unsigned long long)got, (unsigned long long)w); return false; };
    if (h.size() != bins) return bad("size", 0, h.size(), bins);
    if (h.below() < want[0] || h.below() > want[0] + nans) return bad("below", 0, h.below(), want[0]);
    if (h.above() < want[bins + 1] || h.above() > want[bins + 1] + nans) return bad("above", 0, h.above(), want[bins + 1]);
    total += h.below() + h.above();
    for (size_t i = 0; i < bins; ++i)
    {
        u64 lo = want[1 + i], hi = lo + extra[1 + i] + extra[i] + nans;
        if (h[i] < lo || h[i] > hi) return bad("bin", i, h[i], lo);
        if (h.values()[i] != h[i]) return bad("values()", i, h.values()[i], h[i]);
        total += h[i];
    }
    if (total != a.size()) return bad("sum of bins", 0, total, a.size());
    if (h.total() != a.size()) return bad("total()", 0, h.total(), a.size());
    vk::evals(a.size());
    return true;
}
template <typename T> void hist()
{
    if (!vk::begin("histogram/%s/" VK_CC, tn<T>())) return;
    Rng r = vk::case_rng(4);
    for (size_t n = 0; n < (vk::thorough() ? 2000u : 300u); ++n)
    {
        std::vector<T> a(n);
        size_t bins = 1 + r.below(n % 3 ? 20 : 120);
        if (n % 4 == 0) bins = n % 8 ? 10 : 1;
        for (T& x : a)
        {
            if constexpr (is_fp<T>) x = r.chance(0.1) ? gen<T>(r) : r.chance(0.3) ? T(double(r.range(-2, (long long)bins + 2)) / bins) : T(r.unit() * 1.4 - 0.2);
            else x = r.chance(0.2) ? gen<T>(r) : T(r.range(-2, (long long)std::min<size_t>(bins + 3, 125)));
        }
        univector<T> u(n); std::copy(a.begin(), a.end(), u.begin());
        if (!check_hist<T>(histogram(u, bins), a, bins, "run time")) return;
        if (bins == 10 && !check_hist<T>(histogram<10>(u), a, bins, "compile time")) return;
        if (bins == 1 && !check_hist<T>(histogram<1>(u), a, bins, "compile time")) return;
        {   // counted while flowing through, in pieces
            auto hx = histogram_expression(u + T(0), bins);
            univector<T> out(n); size_t pos = 0;
            if (n) { process(out, hx); (void)pos; }
            if (!check_hist<T>(hx.data, a, bins, "in the flow")) return;
        }
        histogram_data<0> hd(bins);
        for (T x : a) hd.put(x);
        if (!check_hist<T>(hd, a, bins, "put one by one")) return;
        vk::seen(hash_bytes(a.data(), n * sizeof(T)) + bins);
        vk::stat("histograms", 3);
    }
}
template <typename T> void all()
{
    for (int op = 0; op < NOPS; ++op) if (op != RMS || is_fp<T>) lengths<T>(op);
    complex_sums<T>();
    hist<T>();
    horiz<T, 1>(); horiz<T, 2>(); horiz<T, 3>(); horiz<T, 4>(); horiz<T, 5>(); horiz<T, 7>(); horiz<T, 8>(); horiz<T, 12>(); horiz<T, 16>();
    horiz<T, 17>(); horiz<T, 31>(); horiz<T, 32>(); horiz<T, 64>();
}
int main(int argc, char** argv)
{
    if (!cpu_ok()) return 0;
    vk::init(argc, argv);
#define RUN(T) all<T>();
    VK_TYPES(RUN)
    return vk::done();
}
