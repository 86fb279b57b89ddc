// C17: vector operators against scalar operators, lane by lane, for every element type and width.
#include "simd.hpp"
using namespace kfr;
using namespace vk;

static int ITER = 24;

template <typename T> using F3 = T (*)(T, T, T);

template <typename T, size_t N>
struct Run
{
    // operation on three vectors giving a vector of R; oracle gives the value of one lane; fix repairs inputs outside the domain
    template <typename R>
    static void v3(const char* name, void (*op)(const T*, const T*, const T*, R*), R (*ref)(T, T, T),
                   void (*fix)(T&, T&, T&) = nullptr, bool (*ok)(T, T, T, R) = nullptr)
    {
        if (!vk::begin("%s/%s/%zu", name, tname<T>(), N))
            return;
        Rng r = vk::case_rng(1);
        for (int it = 0; it < ITER; ++it)
        {
            Buf<T> a(N), b(N), c(N);
            Buf<R> o(N);
            for (size_t i = 0; i < N; ++i)
            {
                T x = gen<T>(r), y = it % 3 == 1 ? x : gen<T>(r), z = gen<T>(r);
                if (fix) fix(x, y, z);
                a[i] = x; b[i] = y; c[i] = z;
            }
            op(a.data(), b.data(), c.data(), o.data());
            if (!a.intact() || !b.intact() || !c.intact() || !o.intact())
                vk::fail("memory beyond the vector written");
            for (size_t i = 0; i < N; ++i)
            {
                R e = ref(a[i], b[i], c[i]);
                bool good = same(e, o[i]) || (ok && ok(a[i], b[i], c[i], o[i]));
                if (!good)
                {
                    vk::fail("lane %zu: (%s, %s, %s) gives %s, expected %s", i, show(a[i]).c_str(), show(b[i]).c_str(),
                             show(c[i]).c_str(), show(o[i]).c_str(), show(e).c_str());
                    return;
                }
            }
            vk::evals(N);
            vk::seen(hash_bytes(a.data(), N * sizeof(T), hash_bytes(b.data(), N * sizeof(T), hash_bytes(name, strlen(name)))) + N);
        }
    }
};

template <typename T> void nofix(T&, T&, T&) {}
// b is a valid divisor
template <typename T> void fixdiv(T& a, T& b, T&)
{
    if constexpr (!is_fp<T>)
    {
        if (b == 0) b = 3;
        if (std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == T(-1)) a = 5;
    }
}
template <typename T> void fixshift(T&, T& b, T&)
{
    if constexpr (!is_fp<T>) b = T(U<T>(b) % (sizeof(T) * 8));
}
template <typename T> void fixsmall(T& a, T&, T&)
{
    if constexpr (is_fp<T>) { if (!(std::fabs(a) < 100)) a = T(3.25); }
}
template <typename T> T wadd(T a, T b) { if constexpr (is_fp<T>) return a + b; else return T(u64(a) + u64(b)); }
template <typename T> T wsub(T a, T b) { if constexpr (is_fp<T>) return a - b; else return T(u64(a) - u64(b)); }
template <typename T> T wmul(T a, T b) { if constexpr (is_fp<T>) return a * b; else return T(u64(a) * u64(b)); }
template <typename T> T wneg(T a) { if constexpr (is_fp<T>) return -a; else return T(0 - u64(a)); }
template <typename T> T bswap(T x)
{
    unsigned char p[sizeof(T)], q[sizeof(T)];
    memcpy(p, &x, sizeof x);
    for (size_t i = 0; i < sizeof x; ++i)
        q[i] = p[sizeof x - 1 - i];
    T r;
    memcpy(&r, q, sizeof r);
    return r;
}
template <typename T> T wpow10(T x)
{
    T p = 1;
    for (int i = 0; i < 10; ++i)
        p = wmul(p, x);
    return p;
}
template <typename T> T rotl(T a, T b)
{
    if constexpr (is_fp<T>) return a;
    else
    {
        unsigned w = sizeof(T) * 8, k = unsigned(U<T>(b)) % w;
        U<T> x = U<T>(a);
        return k ? T(U<T>(x << k) | U<T>(x >> (w - k))) : a;
    }
}

// mask -> 0 or 1, 2 if the lane is not all zeros or all ones
template <typename T, size_t N> void put_mask(const mask<T, N>& m, uint8_t* o)
{
    T t[N];
    kfr::vec<T, N> v = m.asvec();
    v.write(t);
    for (size_t i = 0; i < N; ++i)
    {
        o[i] = ub(t[i]) == 0 ? 0 : ub(t[i]) == U<T>(~U<T>(0)) ? 1 : 2;
        if (o[i] < 2 && (bool)m[i] != (bool)o[i])
            o[i] = 3;
    }
}

#define ARGS (const T* pa, const T* pb, const T* pc, T* po)
#define LOADS vec<T, N> a = read<N>(pa), b = read<N>(pb), c = read<N>(pc); (void)a; (void)b; (void)c
#define V(name, expr, sexpr, ...)                                                                            \
    Run<T, N>::template v3<T>(name, [] ARGS { LOADS; vec<T, N> o = (expr); write(po, o); },                  \
                              [](T a, T b, T c) -> T { (void)a; (void)b; (void)c; return T(sexpr); }, ##__VA_ARGS__)
#define M(name, expr, sexpr, ...)                                                                            \
    Run<T, N>::template v3<uint8_t>(name, [](const T* pa, const T* pb, const T* pc, uint8_t* po) { LOADS; put_mask<T, N>(expr, po); }, \
                                    [](T a, T b, T c) -> uint8_t { (void)a; (void)b; (void)c; return (sexpr) ? 1 : 0; }, ##__VA_ARGS__)

template <typename T> bool nearf(T x, ld e, int ulps)
{
    if (x != x || e != e) return true;
    return std::fabs((ld)x - e) <= ulps * std::numeric_limits<T>::epsilon() * (std::fabs(e) + std::numeric_limits<T>::min());
}

template <typename T, size_t N> void arith()
{
    V("add", a + b, wadd(a, b));
    V("sub", a - b, wsub(a, b));
    V("mul", a * b, wmul(a, b));
    V("div", a / b, a / b, fixdiv<T>);
    V("neg", -a, wneg(a));
    V("add-scalar", a + pb[0], wadd(a, b), [](T&, T& y, T&) { static T k; k = y = T(5); });
    V("sub-scalar", pb[0] - a, wsub(b, a), [](T&, T& y, T&) { y = std::numeric_limits<T>::max(); });
    V("mul-scalar", a * pb[0], wmul(a, b), [](T&, T& y, T&) { y = T(7); });
    V("div-scalar", pb[0] / a, b / a, [](T& x, T& y, T&) { y = T(101); if (!is_fp<T> && x == 0) x = T(1); });
    V("compound+", a += b, wadd(a, b));
    V("compound-", a -= b, wsub(a, b));
    V("compound*", a *= b, wmul(a, b));
    V("compound/", a /= b, a / b, fixdiv<T>);
    V("and", a & b, fb<T>(ub(a) & ub(b)));
    V("or", a | b, fb<T>(ub(a) | ub(b)));
    V("xor", a ^ b, fb<T>(ub(a) ^ ub(b)));
    V("not", ~a, fb<T>(U<T>(~ub(a))));
    V("bitwiseandnot", bitwiseandnot(a, b), fb<T>(U<T>(ub(a) & ~ub(b))));
    V("bitwiseor", bitwiseor(a, b), fb<T>(ub(a) | ub(b)));
    V("bitwisexor", bitwisexor(a, b), fb<T>(ub(a) ^ ub(b)));
    V("bitwiseand", bitwiseand(a, b), fb<T>(ub(a) & ub(b)));
    V("bitwisenot", bitwisenot(a), fb<T>(U<T>(~ub(a))));
    V("and-scalar", a & pb[0], fb<T>(ub(a) & ub(b)), [](T&, T& y, T&) { y = fb<T>(U<T>(0xA5A5A5A5A5A5A5A5ull)); });
    if constexpr (!is_fp<T>)
    {
        V("mod", a % b, a % b, fixdiv<T>);
        V("compound%", a %= b, a % b, fixdiv<T>);
        V("compound&", a &= b, a & b);
        V("compound|", a |= b, a | b);
        V("compound^", a ^= b, a ^ b);
        V("shl", a << bitcast<U<T>>(b), U<T>(a) << b, fixshift<T>);
        V("shr", a >> bitcast<U<T>>(b), a >> b, fixshift<T>);
        V("shl-uniform", a << unsigned(pb[0]), U<T>(a) << 3, [](T&, T& y, T&) { y = 3; });
        V("shr-uniform", a >> unsigned(pb[0]), a >> 5, [](T&, T& y, T&) { y = 5; });
        V("shr-last", a >> unsigned(pb[0]), a >> (sizeof(T) * 8 - 1), [](T&, T& y, T&) { y = sizeof(T) * 8 - 1; });
        if constexpr (std::is_unsigned<T>::value)
        {
            V("rol", rol(a, b), rotl<T>(a, b), [](T&, T& y, T&) { y = T(1 + U<T>(y) % (sizeof(T) * 8 - 1)); });
            V("ror", ror(a, b), rotl<T>(a, T(sizeof(T) * 8 - b)), [](T&, T& y, T&) { y = T(1 + U<T>(y) % (sizeof(T) * 8 - 1)); });
        }
        V("ipow3", ipow(a, 3), wmul(a, wmul(a, a)));
        V("ipow10", ipow(a, 10), wpow10<T>(a));
    }
    V("sqr", sqr(a), wmul(a, a));
    V("cub", cub(a), wmul(wmul(a, a), a));
    V("pow4", pow4(a), wmul(wmul(a, a), wmul(a, a)), fixsmall<T>, [](T a, T, T, T o) { return is_fp<T> && nearf<T>(o, std::pow((ld)a, 4), 4); });
    V("pow5", pow5(a), wmul(a, wmul(wmul(a, a), wmul(a, a))), fixsmall<T>, [](T a, T, T, T o) { return is_fp<T> && nearf<T>(o, std::pow((ld)a, 5), 6); });
    V("sqrsum", sqrsum(a, b), wmul(wadd(a, b), wadd(a, b)));
    V("sqrdiff", sqrdiff(a, b), wmul(wsub(a, b), wsub(a, b)));
    V("fmadd", fmadd(a, b, c), wadd(wmul(a, b), c), nofix<T>, [](T a, T b, T c, T o) { if constexpr (is_fp<T>) return same(o, std::fma(a, b, c)); else return false; });
    V("fmsub", fmsub(a, b, c), wsub(wmul(a, b), c), nofix<T>, [](T a, T b, T c, T o) { if constexpr (is_fp<T>) return same(o, std::fma(a, b, -c)); else return false; });
    V("horner", horner(a, b, c), wadd(wmul(c, a), b), nofix<T>, [](T a, T b, T c, T o) { if constexpr (is_fp<T>) return same(o, std::fma(c, a, b)); else return false; });
    V("add3", add(a, b, c), wadd(a, wadd(b, c)), nofix<T>, [](T a, T b, T c, T o) { return same(o, wadd(wadd(a, b), c)); });
#ifdef __clang__
    constexpr bool shuffles = N >= 2;
#else
    constexpr bool shuffles = N >= 2 && (N & (N - 1)) == 0; // the generic backend does not compile these for other widths
#endif
    if constexpr (shuffles)
    {
        // lane parity decides: b carries the lane number
        Run<T, N>::template v3<T>("addsub", [] ARGS { LOADS; vec<T, N> o = addsub(a, b); vec<T, N> p = subadd(b, a);
            for (size_t i = 1; i < N; i += 2) { T x = p[i]; (void)x; }
            T t[N], s[N]; write(t, o); write(s, p);
            for (size_t i = 0; i < N; ++i) {
                T e = i % 2 == 0 ? wadd<T>(pa[i], pb[i]) : wsub<T>(pa[i], pb[i]), g = i % 2 == 0 ? wsub<T>(pb[i], pa[i]) : wadd<T>(pb[i], pa[i]);
                po[i] = same(t[i], e) && same(s[i], g) ? T(1) : T(0);
            } }, [](T, T, T) { return T(1); });
        if constexpr (is_fp<T> && N % 2 == 0)
            Run<T, N>::template v3<T>("negeven-negodd", [] ARGS { LOADS; T t[N], s[N]; write(t, negeven(a)); write(s, negodd(a));
                for (size_t i = 0; i < N; ++i) po[i] = same(t[i], i % 2 ? pa[i] : -pa[i]) && same(s[i], i % 2 ? -pa[i] : pa[i]) ? T(1) : T(0); },
                [](T, T, T) { return T(1); });
    }
    if constexpr (is_fp<T>)
    {
        V("mulsign", mulsign(a, b), std::signbit(b) ? -a : a);
        V("copysign", kfr::copysign(a, b), std::copysign(a, b));
        V("reciprocal", reciprocal(a), T(1) / a);
        V("mix", mix(a, b, c), a * (c - b) + b, [](T& x, T& y, T& z) { fixsmall(x, y, z); fixsmall(y, x, z); fixsmall(z, x, y); },
          [](T a, T b, T c, T o) { return std::fabs((ld)o - ((ld)a * ((ld)c - b) + b)) <= 4 * std::numeric_limits<T>::epsilon() * (std::fabs((ld)a) * (std::fabs((ld)b) + std::fabs((ld)c)) + std::fabs((ld)b)) + 4 * (ld)std::numeric_limits<T>::denorm_min(); });
        V("mixs", mixs(a, b, c), b + (T(1) + a) / 2 * (c - b), [](T& x, T& y, T& z) { fixsmall(x, y, z); fixsmall(y, x, z); fixsmall(z, x, y); },
          [](T a, T b, T c, T o) { return std::fabs((ld)o - ((1 - (ld)a) / 2 * b + (1 + (ld)a) / 2 * c)) <= 600 * std::numeric_limits<T>::epsilon() * (1 + std::fabs(a)) ; });
    }
    V("swapbyteorder", swapbyteorder(a), bswap<T>(a),
      [](T& x, T&, T&) { if (x != x) x = T(1); },
      // a byte pattern that is a NaN may be quietened on the way
      [](T, T, T, T o) { return o != o; });
}

template <typename T, size_t N> void masks()
{
    M("eq", a == b, a == b);
    M("ne", a != b, a != b);
    M("lt", a < b, a < b);
    M("gt", a > b, a > b);
    M("le", a <= b, a <= b);
    M("ge", a >= b, a >= b);
    M("lt-scalar", a < pb[0], a < b, [](T&, T& y, T&) { y = T(3); });
    M("ge-scalar", pb[0] >= a, b >= a, [](T&, T& y, T&) { y = T(3); });
    M("mask-and", (a < b) & (b < c), (a < b) && (b < c));
    M("mask-land", (a < b) && (b < c), (a < b) && (b < c));
    M("mask-or", (a < b) | (b < c), (a < b) || (b < c));
    M("mask-lor", (a < b) || (b < c), (a < b) || (b < c));
    M("mask-xor", (a < b) ^ (b < c), (a < b) != (b < c));
    M("mask-not", ~(a < b), !(a < b));
    M("mask-lnot", !(a < b), !(a < b));
    M("iszero", iszero(a), a == 0);
    M("inrange", (inrange(a, b, c)), a >= b && a <= c);
    M("equal", equal(a, b), a == b);
    M("lessorequal", lessorequal(a, b), a <= b);
    if constexpr (is_fp<T>)
    {
        M("isnan", kfr::isnan(a), a != a);
        M("isinf", kfr::isinf(a), std::isinf(a));
        M("isfinite", kfr::isfinite(a), std::isfinite(a));
        M("isnegative", isnegative(a), std::signbit(a), [](T& x, T&, T&) { if (x != x) x = T(1); });
        M("ispositive", ispositive(a), !std::signbit(a), [](T& x, T&, T&) { if (x != x) x = T(1); });
    }
    V("select", select(a < b, c, a), a < b ? c : a);
    V("select-scalar", select(a < b, T(1), a), a < b ? T(1) : a);
    V("select-scalar2", select(a == b, c, T(2)), a == b ? c : T(2));
    Run<T, N>::template v3<T>("all-any", [] ARGS { LOADS;
        // counts true lanes in a sparse mask
        bool ea = true, eo = false;
        for (size_t i = 0; i < N; ++i) { ea = ea && pa[i] < pb[i]; eo = eo || pa[i] < pb[i]; }
        bool ga = all(a < b), go = any(a < b), gn = all(!(a < b)), gq = any(!(a < b));
        for (size_t i = 0; i < N; ++i) po[i] = T((ga == ea ? 1 : 0) + (go == eo ? 2 : 0) + (gn == !eo ? 4 : 0) + (gq == !ea ? 8 : 0)); },
        [](T, T, T) { return T(15); }, [](T& x, T& y, T&) { if (!(x < y) && U<T>(ub(x)) % 16 != 0) { x = T(0); y = T(1); } });
    Run<T, N>::template v3<T>("all-any-one", [] ARGS { LOADS;
        int bad = 0;
        for (size_t k = 0; k < N; ++k)
        {
            T s[N] = {};
            s[k] = T(1);
            vec<T, N> v = read<N>(s);
            bad += !any(v > T(0)) + all(v == T(0)) + (N > 1 ? any(v != v) + all(v > T(0)) : 0) + !all(v >= T(0)) + any(v < T(0) - (is_fp<T> ? T(1) : T(0)));
        }
        for (size_t i = 0; i < N; ++i) po[i] = T(bad ? 1 : 0); }, [](T, T, T) { return T(0); });
}

template <typename T, typename R> void fixcast(T& a, T&, T&)
{
    // conversion must be defined: floating to integer only in range
    if constexpr (is_fp<T> && !is_fp<R>)
    {
        ld lo = (ld)std::numeric_limits<R>::min(), hi = (ld)std::numeric_limits<R>::max();
        if (!(a == a) || !((ld)std::trunc(a) >= lo && (ld)std::trunc(a) <= hi))
        {
            static u64 s = 1;
            double f = (splitmix(s) >> 11) * 0x1p-53;
            a = T(std::is_signed<R>::value ? (f - 0.5) * 1.9 * (double)hi : f * 0.99 * (double)hi);
        }
    }
}
template <typename T, typename R, size_t N> void cast1(const char* name)
{
    Run<T, N>::template v3<R>(name, [](const T* pa, const T*, const T*, R* po) { vec<T, N> a = read<N>(pa); vec<R, N> o = cast<R>(a); write(po, o); },
                              [](T a, T, T) { return R(a); }, fixcast<T, R>);
}
template <typename T, size_t N> void casts()
{
    cast1<T, int8_t, N>("cast-i8"); cast1<T, uint8_t, N>("cast-u8"); cast1<T, int16_t, N>("cast-i16"); cast1<T, uint16_t, N>("cast-u16");
    cast1<T, int32_t, N>("cast-i32"); cast1<T, uint32_t, N>("cast-u32"); cast1<T, int64_t, N>("cast-i64"); cast1<T, uint64_t, N>("cast-u64");
    cast1<T, float, N>("cast-f32"); cast1<T, double, N>("cast-f64");
    V("bitcast", bitcast<T>(bitcast<U<T>>(a)), a, [](T& x, T&, T&) { if (x != x) x = T(1); });
    V("broadcast", (vec<T, N>(pa[0])), a, [](T& x, T&, T&) { x = T(42); });
    // mixed types: the result has the common type
    if constexpr (!std::is_same<T, double>::value && sizeof(T) <= 4)
        Run<T, N>::template v3<double>("mixed-add", [](const T* pa, const T* pb, const T*, double* po) {
            vec<T, N> a = read<N>(pa); vec<double, N> b = cast<double>(read<N>(pb)); vec<double, N> o = a + b; write(po, o); },
            [](T a, T b, T) { return (double)a + (double)b; });
    if constexpr (sizeof(T) <= 2)
        Run<T, N>::template v3<int32_t>("mixed-mul", [](const T* pa, const T* pb, const T*, int32_t* po) {
            vec<T, N> a = read<N>(pa); vec<int32_t, N> b = cast<int32_t>(read<N>(pb)); vec<int32_t, N> o = a * b; write(po, o); },
            [](T a, T b, T) { return (int32_t)wmul<int32_t>(a, b); });
}

template <typename T, size_t N> void element_ops()
{
    if (!vk::begin("element/%s/%zu", tname<T>(), N))
        return;
    Rng r = vk::case_rng(2);
    for (int it = 0; it < ITER; ++it)
    {
        T m[N];
        for (auto& x : m) x = it % 2 ? T(r.range(0, 100)) : gen<T>(r);
        vec<T, N> v = read<N>(m);
        for (int k = 0; k < 12; ++k)
        {
            size_t i = r.below(N), j = r.below(N);
            T x = T(r.range(0, 9)), got = 0, exp = 0;
            int op = (int)r.below(10);
            switch (op)
            {
            case 0: v[i] = x; m[i] = x; break;
            case 1: v[i] += x; m[i] = wadd(m[i], x); break;
            case 2: v[i] -= x; m[i] = wsub(m[i], x); break;
            case 3: v[i] *= x; m[i] = wmul(m[i], x); break;
            case 4: exp = m[i] = wadd(m[i], T(1)); got = ++v[i]; break;
            case 5: exp = m[i]; m[i] = wadd(m[i], T(1)); got = v[i]++; break;
            case 6: exp = m[i] = wsub(m[i], T(1)); got = --v[i]; break;
            case 7: exp = m[i]; m[i] = wsub(m[i], T(1)); got = v[i]--; break;
            case 8: v[i] = v[j]; m[i] = m[j]; break;
            case 9: v.set(i, x); m[i] = x; break;
            }
            T t[N];
            write(t, v);
            vk::evals(1);
            if (!same(got, exp))
                return vk::fail("element operation %d returned %s, expected %s", op, show(got).c_str(), show(exp).c_str());
            for (size_t q = 0; q < N; ++q)
                if (!same(t[q], m[q]) || !same(T(v[q]), m[q]) || !same(v.get(q), m[q]))
                    return vk::fail("after element operation %d on lane %zu, lane %zu is %s, expected %s", op, i, q, show(t[q]).c_str(), show(m[q]).c_str());
            if (!same((T)v.front(), m[0]) || !same((T)v.back(), m[N - 1]))
                return vk::fail("front or back wrong");
        }
        vk::seen(hash_bytes(m, sizeof m, N));
    }
}

template <typename T, size_t N> void memory()
{
    if (!vk::begin("memory/%s/%zu", tname<T>(), N))
        return;
    Rng r = vk::case_rng(3);
    for (int it = 0; it < ITER; ++it)
    {
        size_t stride = it % 5 == 4 ? 1 : 1 + r.below(7);
        size_t M = 4 * N * stride + 4 * N + 16;
        Buf<T> src(M);
        for (size_t i = 0; i < M; ++i) src[i] = T(r.next() >> 3);
        std::vector<T> base(M);
        // exactly fitting loads and stores at every misalignment
        size_t off = r.below(9);
        {
            Buf<T> tight(N), dst(N);
            for (size_t i = 0; i < N; ++i) tight[i] = src[i + off];
            vec<T, N> v = read<N>(tight.data());
            write(dst.data(), v);
            vec<T, N> w(tight.data());
            Buf<T> dst2(N);
            w.write(dst2.data());
            vec<T, N> u = read<N>(src.data() + off);
            T x[N];
            write(x, u);
            for (size_t i = 0; i < N; ++i)
                if (!same(dst[i], src[i + off]) || !same(dst2[i], src[i + off]) || !same(x[i], src[i + off]))
                    return vk::fail("load or store of %zu elements wrong at lane %zu", N, i);
            if (!dst.intact() || !dst2.intact())
                return vk::fail("store wrote beyond %zu elements", N);
            alignas(64 * 16) T al[N];
            write<true>(al, v);
            vec<T, N> z = read<N, true>(al);
            write(x, z);
            for (size_t i = 0; i < N; ++i)
                if (!same(x[i], tight[i])) return vk::fail("aligned load or store wrong at lane %zu", i);
        }
        vk::evals(4 * N);
        if constexpr (N <= 32)
        {
            uint32_t idx[N];
            for (auto& i : idx) i = (uint32_t)r.below(M);
            vec<uint32_t, N> vi = read<N>(idx);
            T x[N];
            write(x, kfr::gather(src.data(), vi));
            for (size_t i = 0; i < N; ++i)
                if (!same(x[i], src[idx[i]])) return vk::fail("gather wrong at lane %zu", i);
            // scatter to distinct places
            Buf<T> dst(M);
            for (size_t i = 0; i < M; ++i) base[i] = dst[i] = T(i % 97);
            for (size_t i = 0; i < N; ++i) idx[i] = (uint32_t)(i * (M / N) + r.below(M / N));
            vi = read<N>(idx);
            vec<T, N> v = read<N>(src.data());
            kfr::scatter<1>(dst.data(), vi, v);
            for (size_t i = 0; i < N; ++i) base[idx[i]] = src[i];
            for (size_t i = 0; i < M; ++i)
                if (!same(dst[i], base[i])) return vk::fail("scatter: element %zu is wrong", i);
            // strided
            write(x, kfr::gather_stride<N>(src.data(), stride));
            for (size_t i = 0; i < N; ++i)
                if (!same(x[i], src[i * stride])) return vk::fail("gather_stride(%zu) wrong at lane %zu", stride, i);
            for (size_t i = 0; i < M; ++i) base[i] = dst[i] = T(i % 97);
            kfr::scatter_stride(dst.data(), v, stride);
            for (size_t i = 0; i < N; ++i) base[i * stride] = src[i];
            for (size_t i = 0; i < M; ++i)
                if (!same(dst[i], base[i])) return vk::fail("scatter_stride(%zu): element %zu is wrong", stride, i);
            write(x, kfr::gather_stride<N, 3>(src.data()));
            for (size_t i = 0; i < N; ++i)
                if (3 * (N - 1) < M && !same(x[i], src[i * 3])) return vk::fail("gather_stride<N, 3> wrong at lane %zu", i);
            vk::evals(5 * N);
#ifdef __clang__
            constexpr bool pairs = N <= 16;
            constexpr size_t G   = 3;
#else
            constexpr bool pairs = N <= 16 && (N & (N - 1)) == 0;
            constexpr size_t G   = 2;
#endif
            if constexpr (pairs)
            {
                // groups of two
                T y[2 * N];
                write(y, kfr::gather_stride<N, 2>(src.data(), stride));
                for (size_t i = 0; i < 2 * N; ++i)
                    if (!same(y[i], src[i / 2 * 2 * stride + i % 2])) return vk::fail("gather_stride of pairs (stride %zu) wrong at lane %zu", stride, i);
                vec<T, 2 * N> v2 = read<2 * N>(src.data());
                for (size_t i = 0; i < M; ++i) base[i] = dst[i] = T(i % 97);
                kfr::scatter_stride<2>(dst.data(), v2, stride);
                for (size_t i = 0; i < 2 * N; ++i) base[i / 2 * 2 * stride + i % 2] = src[i];
                for (size_t i = 0; i < M; ++i)
                    if (!same(dst[i], base[i])) return vk::fail("scatter_stride of pairs (stride %zu): element %zu is wrong", stride, i);
                uint32_t ix[N];
                for (size_t i = 0; i < N; ++i) ix[i] = (uint32_t)r.below(M / 2);
                write(y, kfr::gather<2>(src.data(), read<N>(ix)));
                for (size_t i = 0; i < 2 * N; ++i)
                    if (!same(y[i], src[ix[i / 2] * 2 + i % 2])) return vk::fail("gather of pairs wrong at lane %zu", i);
                // read_group / write_group
                size_t gs = N + r.below(5);
                T z[G * N];
                write(z, kfr::read_group<G, N>(src.data(), gs));
                for (size_t i = 0; i < G * N; ++i)
                    if (!same(z[i], src[i / N * gs + i % N])) return vk::fail("read_group (stride %zu) wrong at lane %zu", gs, i);
                for (size_t i = 0; i < M; ++i) base[i] = dst[i] = T(i % 97);
                kfr::write_group<G, N>(dst.data(), gs, read<G * N>(src.data()));
                for (size_t i = 0; i < G * N; ++i) base[i / N * gs + i % N] = src[i];
                for (size_t i = 0; i < M; ++i)
                    if (!same(dst[i], base[i])) return vk::fail("write_group (stride %zu): element %zu is wrong", gs, i);
                vk::evals(10 * N);
            }
            if (!dst.intact() || !src.intact())
                return vk::fail("wrote beyond the buffer");
            for (size_t n = 0; n <= N; ++n)
            {
                write(x, kfr::partial_mask<T, N>(n));
                for (size_t i = 0; i < N; ++i)
                    if (ub(x[i]) != (i < n ? U<T>(~U<T>(0)) : U<T>(0))) return vk::fail("partial_mask(%zu) wrong at lane %zu", n, i);
            }
        }
        vk::seen(hash_bytes(src.data(), 8 * sizeof(T), N * 16 + stride));
    }
}

template <typename T, size_t N> void all_ops()
{
    masks<T, N>();
#ifndef VK_MASKS
    arith<T, N>();
    if constexpr (N != 5 && N != 11 && N != 20)
        casts<T, N>();
    element_ops<T, N>();
    memory<T, N>();
#endif
}
template <typename T, size_t N> void all64()
{
    masks<T, N>();
#ifndef VK_MASKS
    arith<T, N>();
#endif
}
template <typename T> void all_widths()
{
#define W(n) all_ops<T, n>();
#ifdef __clang__
#if defined VK_ALLW
    W(1) W(2) W(3) W(4) W(5) W(7) W(8) W(11) W(16)
    if constexpr (sizeof(T) <= 4) { W(20) W(32) }
    all64<T, 64>();
#elif defined __AVX512F__
    W(2) W(7) W(16)
    if constexpr (sizeof(T) == 8) { W(8) W(11) }
    if constexpr (sizeof(T) <= 4) { W(32) }
    if constexpr (sizeof(T) <= 2) { all64<T, 64>(); }
#else
    W(1) W(3) W(4) W(8)
    if constexpr (sizeof(T) >= 4) { W(2) W(5) W(11) }
    if constexpr (sizeof(T) <= 2) { W(16) }
    if constexpr (sizeof(T) == 1) { all64<T, 32>(); }
#endif
#else
    W(1) W(2) W(3) W(4) W(8)
    if constexpr (sizeof(T) <= 2) { W(16) }
    if constexpr (sizeof(T) == 1) { all64<T, 32>(); }
#endif
}

int main(int argc, char** argv)
{
    vk::init(argc, argv);
    if (!cpu_ok())
    {
        vk::stat("skipped_unsupported_cpu", 1);
        return vk::done();
    }
    ITER = vk::thorough() ? 400 : 24;
#define X(t) all_widths<t>();
    VK_TYPES(X)
    return vk::done();
}
