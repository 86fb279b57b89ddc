// C19: rounding, clamping, min/max, abs and saturating functions against exact scalar definitions; 8-bit operands exhaustively.
#include "simd.hpp"
using namespace kfr;
using namespace vk;

template <typename T> T gmin(T x, T y) { return x < y ? x : y; }
template <typename T> T gmax(T x, T y) { return x > y ? x : y; }
template <typename T> T gabs(T x) { if constexpr (is_fp<T>) return std::fabs(x); else if constexpr (std::is_signed<T>::value) return x < 0 ? T(0 - u64(x)) : x; else return x; }
template <typename T> T gsadd(T a, T b)
{
    __int128 s = (__int128)a + b;
    return s > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : s < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : T(s);
}
template <typename T> T gssub(T a, T b)
{
    __int128 s = (__int128)a - b;
    return s > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : s < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : T(s);
}
template <typename T> T away(T x) { return std::round(x); }
template <typename T> T nearest(T x) { return std::nearbyint(x); }

// equal values; zeros of either sign are equal
template <typename T> bool eq(T a, T b) { if constexpr (is_fp<T>) return a == b || (a != a && b != b); else return a == b; }

enum Kind { ANY2, UNARY, ORDERED }; // how operands are drawn
template <typename T, typename R>
void go(const char* name, size_t N, Kind kind, void (*op)(const T*, const T*, const T*, R*), bool (*ok)(T, T, T, R), std::string (*exp)(T, T, T))
{
    if (!vk::begin("%s/%s/%zu", name, tname<T>(), N))
        return;
    Rng r = vk::case_rng(1);
    Buf<T> a(N), b(N), c(N);
    Buf<R> o(N);
    auto judge = [&]
    {
        op(a.data(), b.data(), c.data(), o.data());
        for (size_t i = 0; i < N; ++i)
            if (!ok(a[i], b[i], c[i], o[i]))
            {
                vk::fail("(%s, %s, %s) gives %s, expected %s", show(a[i]).c_str(), show(b[i]).c_str(), show(c[i]).c_str(), show(o[i]).c_str(),
                         exp ? exp(a[i], b[i], c[i]).c_str() : "?");
                return false;
            }
        vk::evals(N);
        vk::seen(hash_bytes(a.data(), N * sizeof(T), hash_bytes(b.data(), N * sizeof(T), hash_bytes(name, strlen(name)))) + N);
        return true;
    };
    size_t rnd = vk::thorough() ? 40000 : 1500;
    for (size_t it = 0; it < rnd; ++it)
    {
        for (size_t i = 0; i < N; ++i)
        {
            a[i] = gen<T>(r), b[i] = gen<T>(r), c[i] = gen<T>(r);
            if (kind == ORDERED)
            {
                if (b[i] != b[i]) b[i] = T(-2);
                if (c[i] != c[i]) c[i] = T(2);
                if (c[i] < b[i]) std::swap(b[i], c[i]);
            }
            if (is_fp<T> && kind == UNARY && it % 2)
            {
                // around integers and halves of every magnitude
                T base = T(std::floor(std::ldexp(1.0 + r.unit(), (int)r.range(0, 54)))) / 2;
                a[i]   = (r.chance(0.5) ? -1 : 1) * (r.chance(0.3) ? base : std::nextafter(base, r.chance(0.5) ? T(INFINITY) : T(0)));
            }
        }
        if (!judge()) return;
    }
    if (!a.intact() || !b.intact() || !c.intact() || !o.intact())
        vk::fail("memory beyond the vector written");
    if (sizeof(T) == 1 && kind == ANY2) // all pairs
    {
        for (size_t k = 0; k < 65536; k += N)
        {
            for (size_t i = 0; i < N; ++i) a[i] = T((k + i) >> 8), b[i] = T(k + i);
            if (!judge()) return;
        }
        vk::stat("exhaustive_pairs", 65536);
    }
    if (sizeof(T) <= 2 && kind == UNARY)
    {
        for (size_t k = 0; k < 65536; k += N)
        {
            for (size_t i = 0; i < N; ++i) a[i] = T(k + i);
            if (!judge()) return;
        }
        vk::stat("exhaustive_values", 65536);
    }
    if (sizeof(T) == 4 && is_fp<T> && kind == UNARY) // a walk over the whole range of f32 (thorough: every value)
    {
        u64 stride = vk::thorough() && N == 4 ? 1 : 20011 + 2 * r.below(500);
        for (u64 k = 0; k < (u64(1) << 32); k += stride * N)
        {
            for (size_t i = 0; i < N; ++i) a[i] = fb<T>((U<T>)(k + i * stride));
            if (!judge()) return;
        }
        vk::stat("f32_walks", 1);
    }
}
#define L vec<T, N> a = read<N>(pa), b = read<N>(pb), c = read<N>(pc); (void)a; (void)b; (void)c;
// vector op giving R; scalar condition on (a, b, c, o); expectation
#define F(name, R, kind, expr, cond, expect)                                                                                        \
    go<T, R>(name, N, kind, [](const T* pa, const T* pb, const T* pc, R* po) { L vec<R, N> o_ = (expr); write(po, o_); },           \
             [](T a, T b, T c, R o) -> bool { (void)a; (void)b; (void)c; return cond; },                                            \
             [](T a, T b, T c) -> std::string { (void)a; (void)b; (void)c; return show(R(expect)); });
// the scalar overload
#define FS(name, R, kind, expr, cond, expect)                                                                                       \
    go<T, R>(name, 1, kind, [](const T* pa, const T* pb, const T* pc, R* po) { T a = *pa, b = *pb, c = *pc; (void)a; (void)b; (void)c; *po = (expr); }, \
             [](T a, T b, T c, R o) -> bool { (void)a; (void)b; (void)c; return cond; },                                            \
             [](T a, T b, T c) -> std::string { (void)a; (void)b; (void)c; return show(R(expect)); });

template <typename T> bool okmin(T x, T y, T o) { return x != x || y != y ? same(o, x) || same(o, y) : eq(o, gmin(x, y)); }
template <typename T> bool okmax(T x, T y, T o) { return x != x || y != y ? same(o, x) || same(o, y) : eq(o, gmax(x, y)); }
template <typename T> bool okclamp(T x, T lo, T hi, T o)
{
    if (x != x) return same(o, x) || eq(o, lo) || eq(o, hi);
    return eq(o, x < lo ? lo : x > hi ? hi : x);
}
template <typename T> constexpr ld big() { return is_fp<T> ? (sizeof(T) == 4 ? 2147483392.0L : 9223372036854774784.0L) : 0; }
template <typename T> bool inrange(T x) { return std::fabs((ld)x) <= big<T>(); }

#define BOTH(...) F(__VA_ARGS__)
template <typename T, size_t N> void ops()
{
    F("min", T, ANY2, min(a, b), okmin(a, b, o), gmin(a, b));
    F("max", T, ANY2, max(a, b), okmax(a, b, o), gmax(a, b));
    F("absmin", T, ANY2, absmin(a, b), okmin(gabs(a), gabs(b), o), gmin(gabs(a), gabs(b)));
    F("absmax", T, ANY2, absmax(a, b), okmax(gabs(a), gabs(b), o), gmax(gabs(a), gabs(b)));
    F("abs", T, UNARY, abs(a), same(o, gabs(a)), gabs(a));
    F("clamp", T, ORDERED, clamp(a, b, c), okclamp(a, b, c, o), a);
    F("clamp-scalar", T, ANY2, clamp(a, T(0), T(100)), okclamp(a, T(0), T(100), o), a);
    F("min-scalar", T, ANY2, min(a, T(17)), okmin(a, T(17), o), gmin(a, T(17)));
    F("max-scalar", T, ANY2, max(T(17), a), okmax(T(17), a, o), gmax(T(17), a));
    if constexpr (!is_fp<T>)
    {
        F("satadd", T, ANY2, satadd(a, b), o == gsadd(a, b), gsadd(a, b));
        F("satsub", T, ANY2, satsub(a, b), o == gssub(a, b), gssub(a, b));
        F("satadd-scalar", T, ANY2, satadd(a, T(100)), o == gsadd(a, T(100)), gsadd(a, T(100)));
        F("floor-int", T, UNARY, floor(a), o == a, a);
        F("round-int", T, UNARY, round(a), o == a, a);
        F("ceil-int", T, UNARY, ceil(a), o == a, a);
        F("trunc-int", T, UNARY, trunc(a), o == a, a);
        F("fract-int", T, UNARY, fract(a), o == 0, 0);
    }
    else
    {
        using I = kfr::itype<T>;
        F("floor", T, UNARY, floor(a), eq(o, std::floor(a)), std::floor(a));
        F("ceil", T, UNARY, ceil(a), eq(o, std::ceil(a)), std::ceil(a));
        F("trunc", T, UNARY, trunc(a), eq(o, std::trunc(a)), std::trunc(a));
        F("round", T, UNARY, round(a), eq(o, nearest(a)), nearest(a));
        F("fract", T, UNARY, fract(a), eq(o, a - std::floor(a)), a - std::floor(a));
        F("ifloor", I, UNARY, ifloor(a), !inrange(a) || o == I(std::floor(a)), std::floor(a));
        F("iceil", I, UNARY, iceil(a), !inrange(a) || o == I(std::ceil(a)), std::ceil(a));
        F("itrunc", I, UNARY, itrunc(a), !inrange(a) || o == I(std::trunc(a)), std::trunc(a));
        F("iround", I, UNARY, iround(a), !inrange(a) || o == I(nearest(a)), nearest(a));
    }
}
template <typename T> void scalars()
{
    FS("s-min", T, ANY2, min(a, b), okmin(a, b, o), gmin(a, b));
    FS("s-max", T, ANY2, max(a, b), okmax(a, b, o), gmax(a, b));
    FS("s-absmax", T, ANY2, absmax(a, b), okmax(gabs(a), gabs(b), o), gmax(gabs(a), gabs(b)));
    FS("s-abs", T, UNARY, kfr::abs(a), same(o, gabs(a)), gabs(a));
    FS("s-clamp", T, ORDERED, clamp(a, b, c), okclamp(a, b, c, o), a);
    if constexpr (!is_fp<T>)
    {
        FS("s-satadd", T, ANY2, satadd(a, b), o == gsadd(a, b), gsadd(a, b));
        FS("s-satsub", T, ANY2, satsub(a, b), o == gssub(a, b), gssub(a, b));
    }
    else
    {
        using I = kfr::itype<T>;
        FS("s-floor", T, UNARY, kfr::floor(a), eq(o, std::floor(a)), std::floor(a));
        FS("s-ceil", T, UNARY, kfr::ceil(a), eq(o, std::ceil(a)), std::ceil(a));
        FS("s-trunc", T, UNARY, kfr::trunc(a), eq(o, std::trunc(a)), std::trunc(a));
        FS("s-round", T, UNARY, kfr::round(a), eq(o, nearest(a)), nearest(a));
        FS("s-iround", I, UNARY, kfr::iround(a), !inrange(a) || o == I(nearest(a)), nearest(a));
    }
}
template <typename T> void all()
{
    scalars<T>();
    ops<T, 1>();
    ops<T, 2>();
    ops<T, 4>();
    ops<T, 8>();
    if constexpr (sizeof(T) <= 4) ops<T, 16>();
#if defined __clang__
    ops<T, 3>();
    ops<T, 7>();
    if constexpr (sizeof(T) <= 2) ops<T, 32>();
    if constexpr (sizeof(T) == 1) ops<T, 64>();
#endif
}
int main(int argc, char** argv)
{
    vk::init(argc, argv);
    if (!cpu_ok())
    {
        vk::stat("skipped_unsupported_cpu", 1);
        return vk::done();
    }
#define X(t) all<t>();
    VK_TYPES(X)
    return vk::done();
}
