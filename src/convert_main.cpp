// C25: sample format conversion and interleaving.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/base/conversion.hpp>
using namespace vk;
using namespace kfr;
typedef long double ld;

#ifndef PART
#define PART 0
#endif
template <typename T> static ld full();
template <> ld full<i8>() { return 127; }
template <> ld full<i16>() { return 32767; }
template <> ld full<i24>() { return 8388607; }
template <> ld full<i32>() { return 2147483647; }
template <> ld full<i64>() { return 9223372036854775807.0L; }
template <> ld full<f32>() { return 1; }
template <> ld full<f64>() { return 1; }
template <typename T> static const char* name();
template <> const char* name<i8>() { return "i8"; }
template <> const char* name<i16>() { return "i16"; }
template <> const char* name<i24>() { return "i24"; }
template <> const char* name<i32>() { return "i32"; }
template <> const char* name<i64>() { return "i64"; }
template <> const char* name<f32>() { return "f32"; }
template <> const char* name<f64>() { return "f64"; }
template <typename T> constexpr bool flt = std::is_same_v<T, f32> || std::is_same_v<T, f64>;
template <typename T>
static ld num(T x)
{
    if constexpr (std::is_same_v<T, i24>)
        return x.as_int();
    else
        return (ld)x;
}
static ld num(i24 x) { return x.as_int(); }
template <typename T>
static bool bits(const T& a, const T& b)
{
    return memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename T>
static T value(Rng& r)
{
    if constexpr (flt<T>)
    {
        switch (r.range(0, 11))
        {
        case 0: return (T)r.range(-1, 1);
        case 1: return (T)(r.sym() * 3);
        case 2: return std::numeric_limits<T>::infinity() * (r.chance(0.5) ? 1 : -1);
        case 3: return std::nextafter((T)1, (T)r.range(0, 2)) * (r.chance(0.5) ? 1 : -1);
        case 4: return (T)(r.sym() * 1e30);
        case 5: return (T)std::ldexp(r.sym(), -(int)r.range(0, 60));
        case 6: return (T)(r.range(-32767, 32767) / 32767.0);
        case 7: return (T)(r.range(-8388607, 8388607) / 8388607.0);
        case 8: return (T)((r.range(-127, 127) + 0.5) / 127.0);
        case 9: return (T)((r.range(-32767, 32767) + 0.5) / 32767.0);
        default: return (T)r.sym();
        }
    }
    else if constexpr (std::is_same_v<T, i24>)
        return i24((i32)(r.chance(0.1) ? (r.chance(0.5) ? -8388608 + r.range(0, 1) : 8388607 - r.range(0, 1)) : r.range(-8388608, 8388607)));
    else
    {
        switch (r.range(0, 7))
        {
        case 0: return std::numeric_limits<T>::max() - (T)r.range(0, 2);
        case 1: return std::numeric_limits<T>::min() + (T)r.range(0, 2);
        case 2: return (T)r.range(-3, 3);
        default: return (T)(r.next() >> r.range(0, sizeof(T) * 8 - 1));
        }
    }
}

/// what a correct conversion may give for x
template <typename Out, typename In>
static void judge(In x, Out y, const char* how)
{
    if constexpr (std::is_same_v<In, Out>)
    {
        if (!bits(x, y))
            fail("%s: %s %.20Lg became %.20Lg", how, name<In>(), num(x), num(y));
    }
    else
    {
        const ld S = full<Out>(), v = num(x);
        ld e = v / full<In>() * S, got = num(y);
        e       = std::min(std::max(e, -S), S);
        ld eps  = std::is_same_v<In, f64> || std::is_same_v<Out, f64> || sizeof(In) > 3 || sizeof(Out) > 3 ? 0x1p-53L : 0x1p-24L;
        if (std::is_same_v<In, f32> && sizeof(Out) <= 3)
            eps = 0x1p-24L;
        if (std::is_same_v<Out, f32>)
            eps = 0x1p-24L;
        ld tol = flt<Out> ? 3 * eps * std::abs(e) + 0x1p-149L : 0.5L + 3 * eps * std::abs(e) * (std::is_same_v<Out, i64> ? 2 : 1);
        if (!(std::abs(got - e) <= tol + (std::is_same_v<Out, i64> ? 1 : 0)))
            fail("%s: %s %.20Lg became %s %.20Lg, expected %.20Lg", how, name<In>(), v, name<Out>(), got, e);
        // full scale and beyond: exactly full scale
        if (std::abs(v) >= full<In>() && !(got == (v > 0 ? S : -S) || (std::is_same_v<Out, i64> && v < 0 && got == -S - 1)))
            fail("%s: full scale %s %.20Lg became %s %.20Lg", how, name<In>(), v, name<Out>(), got);
        if (v == 0 && got != 0)
            fail("%s: zero %s became %s %.20Lg", how, name<In>(), name<Out>(), got);
    }
}

template <typename A, typename B>
static void there_and_back(A x)
{
    // B represents every value of A
    B y = convert_sample<B>(x);
    A z = convert_sample<A>(y);
    judge(x, y, "convert_sample");
    if (num(x) >= -full<A>() && !bits(x, z))
        fail("%s %.20Lg to %s and back is %.20Lg", name<A>(), num(x), name<B>(), num(z));
}

template <typename Out, typename In>
static void single(Rng& r)
{
    evals(64);
    for (int i = 0; i < 64; ++i)
    {
        In x = value<In>(r);
        if (i == 0)
            seen(hash_bytes(&x, sizeof x) * 31 + sizeof(Out) + flt<Out>);
        judge(x, convert_sample<Out>(x), "convert_sample");
    }
    // larger in, not smaller out
    In a = value<In>(r), b = value<In>(r);
    if (num(a) > num(b))
        std::swap(a, b);
    if (num(convert_sample<Out>(a)) > num(convert_sample<Out>(b)))
        fail("convert_sample from %s to %s is not monotonic at %.20Lg, %.20Lg", name<In>(), name<Out>(), num(a), num(b));
}

template <typename T>
static T* buffer(Buf<unsigned char>& b, size_t shift)
{
    return (T*)(b.data() + shift * sizeof(T));
}
template <typename T>
struct Block
{
    // n samples at a position aligned to the sample only, red zones on both sides
    Buf<unsigned char> b;
    size_t n, shift;
    Block(size_t n, Rng& r) : b((n + 3) * sizeof(T)), n(n), shift(r.range(0, 3)) {}
    T* p() { return (T*)(b.data() + shift * sizeof(T)); }
    bool clean()
    {
        for (size_t i = 0; i < b.n; ++i)
            if ((i < shift * sizeof(T) || i >= (shift + n) * sizeof(T)) && b[i] != 0xA5)
                return false;
        return b.intact();
    }
};

template <typename Out, typename In>
static void block(Rng& r)
{
    size_t n = r.chance(0.1) ? 0 : r.chance(0.5) ? r.range(1, 40) : r.range(1, 700);
    Block<In> in(n, r);
    Block<Out> out(n, r), typed_in(n, r), typed_out(n, r);
    for (size_t i = 0; i < n; ++i)
        in.p()[i] = value<In>(r);
    seen(hash_bytes(in.p(), n * sizeof(In)) + 7);
    convert(out.p(), (const In*)in.p(), n);
    convert(typed_in.p(), (const void*)in.p(), audio_sample_traits<In>::type, n);
    convert((void*)typed_out.p(), audio_sample_traits<Out>::type, (const In*)in.p(), n);
    evals(n);
    for (size_t i = 0; i < n; ++i)
    {
        judge<Out, In>(in.p()[i], out.p()[i], "convert");
        if (!bits(out.p()[i], typed_in.p()[i]) || !bits(out.p()[i], typed_out.p()[i]))
            return fail("convert from %s to %s: sample %zu of %zu depends on how the format is given", name<In>(), name<Out>(), i, n);
    }
    if (!out.clean() || !typed_in.clean() || !typed_out.clean() || !in.clean())
        fail("convert from %s to %s wrote outside %zu samples", name<In>(), name<Out>(), n);
    static_assert(audio_sample_sizeof(audio_sample_traits<In>::type) == sizeof(In));
    static_assert(audio_sample_bit_depth(audio_sample_traits<In>::type) == sizeof(In) * 8);
}

template <typename Out, typename In>
static void leaves(Rng& r)
{
    size_t ch = r.chance(0.2) ? r.range(1, 3) : r.range(1, 16), n = r.chance(0.1) ? 0 : r.range(1, 120);
    std::vector<std::unique_ptr<Block<In>>> in;
    std::vector<const In*> ip;
    std::vector<std::unique_ptr<Block<Out>>> back;
    std::vector<Out*> bp;
    for (size_t c = 0; c < ch; ++c)
    {
        in.emplace_back(new Block<In>(n, r));
        back.emplace_back(new Block<Out>(n, r));
        for (size_t i = 0; i < n; ++i)
            in[c]->p()[i] = value<In>(r);
        ip.push_back(in[c]->p());
        bp.push_back(back[c]->p());
    }
    Block<Out> inter(n * ch, r);
    Block<In> same(n * ch, r);
    interleave(inter.p(), ip.data(), ch, n);
    interleave(same.p(), ip.data(), ch, n);
    deinterleave(bp.data(), (const In*)same.p(), ch, n);
    evals(n * ch);
    seen(hash_bytes(same.p(), n * ch * sizeof(In)) + ch);
    for (size_t c = 0; c < ch; ++c)
        for (size_t i = 0; i < n; ++i)
        {
            if (!bits(same.p()[i * ch + c], in[c]->p()[i]))
                return fail("interleave %s: frame %zu of %zu, channel %zu of %zu", name<In>(), i, n, c, ch);
            if (!bits(inter.p()[i * ch + c], convert_sample<Out>(in[c]->p()[i])) || !bits(bp[c][i], convert_sample<Out>(in[c]->p()[i])))
                return fail("interleave or deinterleave %s to %s: frame %zu of %zu, channel %zu of %zu", name<In>(), name<Out>(), i, n, c, ch);
        }
    for (size_t c = 0; c < ch; ++c)
        if (!in[c]->clean() || !back[c]->clean())
            return fail("deinterleave %s to %s wrote outside channel %zu of %zu with %zu frames", name<In>(), name<Out>(), c, ch, n);
    if (!inter.clean() || !same.clean())
        fail("interleave %s to %s wrote outside %zu frames of %zu channels", name<In>(), name<Out>(), n, ch);
}
template <typename Out, typename In>
static void vectors(Rng& r)
{
    if constexpr (!std::is_same_v<Out, i24> && !std::is_same_v<In, i24>)
    {
        size_t ch = r.range(1, 16), n = r.chance(0.1) ? 0 : r.range(1, 90), extra = r.range(0, (i64)ch - 1);
        univector2d<In> in;
        univector2d<Out> back;
        for (size_t c = 0; c < ch; ++c)
        {
            univector<In> v(n);
            for (auto& x : v)
                x = value<In>(r);
            in.push_back(v);
            back.push_back(univector<Out>(n + extra, Out(3)));
        }
        univector<In> flat = interleave(in);
        evals();
        if (flat.size() != n * ch)
            return fail("interleave of %zu channels with %zu frames gives %zu samples", ch, n, flat.size());
        univector<Out> conv(n * ch + extra, Out(5));
        interleave(conv, in);
        univector<In> longer = flat;
        longer.resize(n * ch + extra);
        deinterleave(back, longer);
        for (size_t c = 0; c < ch; ++c)
            for (size_t i = 0; i < n; ++i)
                if (!bits(flat[i * ch + c], in[c][i]) || !bits(conv[i * ch + c], convert_sample<Out>(in[c][i])) ||
                    !bits(back[c][i], convert_sample<Out>(in[c][i])))
                    return fail("interleaved vectors %s to %s: frame %zu of %zu, channel %zu of %zu", name<In>(), name<Out>(), i, n, c, ch);
        for (size_t c = 0; c < ch; ++c)
            for (size_t i = n; i < back[c].size(); ++i)
                if (back[c][i] != Out(3))
                    return fail("deinterleave wrote past the last whole frame");
        for (size_t i = n * ch; i < conv.size(); ++i)
            if (n && conv[i] != Out(5))
                return fail("interleave wrote past the last whole frame");
    }
}

template <typename In, typename... Outs>
static void all_out(Rng& r)
{
    (single<Outs, In>(r), ...);
    (block<Outs, In>(r), ...);
    (leaves<Outs, In>(r), ...);
    (vectors<Outs, In>(r), ...);
}
template <typename In>
static void all(Rng& r)
{
    all_out<In, i8, i16, i24, i32, i64, f32, f64>(r);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    int reps = thorough() ? 6000 : 300;
    for (int k = 0; k < reps; ++k)
    {
        if (!begin("samples #%d", k))
            continue;
        Rng r = case_rng();
#if PART == 0
        all<i8>(r), all<i16>(r), all<f32>(r);
#elif PART == 1
        all<i24>(r), all<i32>(r);
#else
        all<i64>(r), all<f64>(r);
#endif
    }
#if PART == 0
    for (i64 x = -128; x < 128; ++x)
        if (begin("every i8 #%lld", (long long)x))
        {
            evals(6), seen(x + 5000000);
            there_and_back<i8, i16>(x), there_and_back<i8, i24>(x), there_and_back<i8, i32>(x), there_and_back<i8, i64>(x), there_and_back<i8, f32>(x),
                there_and_back<i8, f64>(x);
        }
    for (i64 b = -32768; b < 32768; b += 256)
        if (begin("every i16 #%lld", (long long)b))
            for (i64 x = b; x < b + 256; ++x)
            {
                evals(6), seen(x + 6000000);
                there_and_back<i16, i24>(x), there_and_back<i16, i32>(x), there_and_back<i16, i64>(x), there_and_back<i16, f32>(x), there_and_back<i16, f64>(x);
                judge((i16)x, convert_sample<i8>((i16)x), "convert_sample");
            }
#elif PART == 1
    for (i64 b = -8388608; b < 8388608; b += 16384)
        if (begin("every i24 #%lld", (long long)b))
            for (i64 x = b; x < b + 16384; ++x)
            {
                evals(4);
                there_and_back<i24, f32>(i24((i32)x)), there_and_back<i24, f64>(i24((i32)x)), there_and_back<i24, i32>(i24((i32)x));
                if (x % 8 == 0)
                    there_and_back<i24, i64>(i24((i32)x));
            }
    for (int k = 0; k < (thorough() ? 20000 : 200); ++k)
        if (begin("i32 #%d", k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 2000; ++i)
            {
                evals(2);
                i32 x = value<i32>(r);
                there_and_back<i32, f64>(x), there_and_back<i32, i64>(x);
            }
        }
#endif
    return done();
}
