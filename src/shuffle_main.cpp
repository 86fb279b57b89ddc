// C18: shuffles against the index maps their names define, byte by byte on random bit patterns.
#include "simd.hpp"
using namespace kfr;
using namespace vk;

static int ITER = 24;
constexpr size_t ANY = size_t(-1); // lane without a defined value
constexpr size_t NEW = size_t(-2); // lane takes the extra value

static size_t ilog(size_t n) { size_t k = 0; while ((size_t(1) << (k + 1)) <= n) ++k; return k; }
static size_t rev(size_t x, size_t digits, size_t radix)
{
    size_t r = 0;
    for (size_t i = 0; i < digits; ++i, x /= radix)
        r = r * radix + x % radix;
    return r;
}
// group-wise index map: f maps group numbers
template <typename F> size_t grouped(size_t i, size_t g, F f) { return f(i / g) * g + i % g; }

template <typename T>
void go_any(const char* name, size_t N, size_t NO, void (*op)(const T*, const T*, const T*, T*), size_t (*ix)(size_t))
    {
        if (!vk::begin("%s/%zu>%zu/%zu", name, N, NO, sizeof(T)))
            return;
        Rng r = vk::case_rng(1);
        for (int it = 0; it < ITER; ++it)
        {
            Buf<T> a(N), b(N), c(1), o(NO);
            auto fill = [&](T* p, size_t n)
            {
                unsigned char* q = (unsigned char*)p;
                for (size_t i = 0; i < n * sizeof(T); ++i) q[i] = (unsigned char)r.next();
            };
            fill(a.data(), N); fill(b.data(), N); fill(c.data(), 1);
            op(a.data(), b.data(), c.data(), o.data());
            if (!a.intact() || !b.intact() || !c.intact() || !o.intact())
                vk::fail("memory beyond the vector written");
            for (size_t i = 0; i < NO; ++i)
            {
                size_t k = ix(i);
                if (k == ANY) { vk::stat("unspecified_lanes", 1); continue; }
                const T* e = k == NEW ? c.data() : k < N ? a.data() + k : b.data() + (k - N);
                if (memcmp(e, o.data() + i, sizeof(T)) != 0)
                {
                    vk::fail("lane %zu is not element %zd of the operands", i, (ssize_t)k);
                    return;
                }
            }
            vk::evals(NO);
            vk::seen(hash_bytes(a.data(), N * sizeof(T), hash_bytes(name, strlen(name))) + N + NO * 131);
        }
    }
template <typename T, size_t N>
struct Run
{
    template <size_t NO>
    static void go(const char* name, void (*op)(const T*, const T*, const T*, T*), size_t (*ix)(size_t)) { go_any<T>(name, N, NO, op, ix); }
};

#define S(name, NO, expr, ...)                                                                                                \
    Run<T, N>::template go<(NO)>(name, [](const T* pa, const T* pb, const T* pc, T* po) {                                     \
        vec<T, N> a = read<N>(pa), b = read<N>(pb); T c = *pc; (void)a; (void)b; (void)c;                                     \
        vec<T, (NO)> o_ = (expr); write(po, o_); }, [](size_t i) -> size_t { (void)i; return __VA_ARGS__; });
// operation given as statements on a, b, c writing po
#define SS(name, NO, stmts, ...)                                                                                              \
    Run<T, N>::template go<(NO)>(name, [](const T* pa, const T* pb, const T* pc, T* po) {                                     \
        vec<T, N> a = read<N>(pa), b = read<N>(pb); T c = *pc; (void)a; (void)b; (void)c; stmts; },                           \
        [](size_t i) -> size_t { (void)i; return __VA_ARGS__; });

// basic reorderings: any width, any element
template <typename T, size_t N> void basic()
{
    if constexpr (N >= 2)
    {
        constexpr size_t H = prev_poweroftwo(N - 1);
        S("low", H, low(a), i);
        S("high", N - H, high(a), H + i);
        S("lowhalf", N / 2, lowhalf(a), i);
        S("highhalf", N - N / 2, highhalf(a), N / 2 + i);
        S("slice-1", N - 1, (slice<1, N - 1>(a)), i + 1);
        S("slice-mid", 1, (slice<N / 2, 1>(a)), N / 2);
        S("slice2", N, (slice<N / 2, N>(a, b)), N / 2 + i);
        S("narrow", N - 1, narrow<N - 1>(a), i);
        S("rotateright1", N, rotateright<1>(a), (i + N - 1) % N);
        S("rotateleft1", N, rotateleft<1>(a), (i + 1) % N);
        S("rotaterightx", N, rotateright<N - 1>(a), (i + 1) % N);
        S("rotateleftx", N, rotateleft<N / 2>(a), (i + N / 2) % N);
        S("rotatetwo1", N, rotatetwo<1>(a, b), i < 1 ? 2 * N - 1 : i - 1);
        S("rotatetwoh", N, rotatetwo<N / 2>(a, b), i < N / 2 ? 2 * N - N / 2 + i : i - N / 2);
        S("replace-low", N, (replace<0, 1>(a, b)), i == 0 ? N : i);
        S("replace-rest", N, (replace<1, N - 1>(a, b)), i == 0 ? 0 : N + i);
        S("concat_and_slice", N, (concat_and_slice<1, N>(a, b)), i + 1);
        S("concat_and_slice-short-y", N - 1, (concat_and_slice<2, N - 1>(a, vec<T, 1>(c))), i + 2 < N ? i + 2 : NEW);
        S("concat_and_slice-short-x", N, (concat_and_slice<1, N>(vec<T, 1>(c), b)), N + i);
        S("combine1", N, combine(a, vec<T, 1>(c)), i == 0 ? NEW : i);
        S("combine-half", N, combine(a, slice<0, N - N / 2>(b)), i < N - N / 2 ? N + i : i);
        SS("split2", N, ({ vec<T, 1> x; vec<T, N - 1> y; split(a, x, y); write(po, x); write(po + 1, y); }), i);
        S("insertleft", N, insertleft(c, a), i == 0 ? NEW : i - 1);
        S("insertright", N, insertright(c, a), i == N - 1 ? NEW : i + 1);
        S("combine-full", N, combine(a, b), N + i);
        S("widen", N + 1, widen<N + 1>(a, c), i < N ? i : NEW);
    }
    S("concat", N * 2, concat(a, b), i);
    S("concat2", N * 2, concat2(a, b), i);
    if constexpr (N <= 16)
    {
        S("concat4", N * 4, concat4(a, b, b, a), i < 2 * N ? i : i < 3 * N ? i - N : i - 3 * N);
        S("concat3", N * 2 + 1, concat(a, vec<T, 1>(c), b), i < N ? i : i == N ? NEW : i - 1);
        S("repeat3", N * 3, repeat<3>(a), i % N);
        S("repeat4", N * 4, repeat<4>(a), i % N);
        S("resize-up", N * 2 + 1, resize<N * 2 + 1>(a), i % N);
        S("padhigh", N + 3, padhigh<3>(a), i < N ? i : ANY);
        S("padhigh-val", N + 3, padhigh<3>(a, c), i < N ? i : NEW);
        S("padlow", N + 3, padlow<3>(a), i < 3 ? ANY : i - 3);
        S("padlow-val", N + 3, padlow<3>(a, c), i < 3 ? NEW : i - 3);
        S("widen-double", N * 2, widen<N * 2>(a, c), i < N ? i : NEW);
        S("extend", N * 2, extend<N * 2>(a), N == 1 ? 0 : i < N ? i : ANY);
    }
    S("resize-down", (N + 1) / 2, resize<(N + 1) / 2>(a), i);
    S("resize-same", N, resize<N>(a), i);
    S("widen-same", N, widen<N>(a, c), i);
    S("broadcast", N, broadcast<N>(c), NEW);
    if constexpr (N >= 2)
        S("broadcast2", N, broadcast<N>(c, pb[0]), i % 2 ? N : NEW);
    S("dup", N * 2, dup(a), i / 2);
    S("reverse", N, reverse(a), N - 1 - i);
    S("blend01", N, (blend<0, 1>(a, b)), i % 2 ? N + i : i);
    S("blend1", N, (blend<1>(a, b)), N + i);
    S("blend110", N, (blend<1, 1, 0>(a, b)), i % 3 == 2 ? i : N + i);
    S("blend10010", N, (blend<1, 0, 0, 1, 0>(a, b)), i % 5 == 0 || i % 5 == 3 ? N + i : i);
    S("interleave", N * 2, interleave(a, b), i % 2 ? N + i / 2 : i / 2);
    SS("split-one", N, ({ vec<T, N> x; split(a, x); write(po, x); }), i);
}

template <typename T, size_t N> void even_widths()
{
    S("even", N / 2, even(a), 2 * i);
    S("odd", N / 2, odd(a), 2 * i + 1);
    S("dupeven", N, dupeven(a), i & ~size_t(1));
    S("dupodd", N, dupodd(a), i | 1);
    S("duplow", N, duplow(a), i % (N / 2));
    S("duphigh", N, duphigh(a), N / 2 + i % (N / 2));
    S("part-2-0", N / 2, (part<2, 0>(a)), i);
    S("part-2-1", N / 2, (part<2, 1>(a)), N / 2 + i);
    S("swap2", N, swap<2>(a), i ^ 1);
    SS("split-halves", N, ({ vec<T, N / 2> x, y; split(a, x, y); write(po, x); write(po + N / 2, y); }), i);
    S("permute10", N, (permute<1, 0>(a)), i ^ 1);
    S("permute00", N, (permute<0, 0>(a)), i & ~size_t(1));
    S("shuffle", N, (kfr::shuffle<1, 0 + N>(a, b)), i % 2 ? N + (i & ~size_t(1)) : i + 1);
    S("interleavehalves", N, interleavehalves(a), i % 2 ? N / 2 + i / 2 : i / 2);
    S("splitpairs", N, splitpairs(a), i < N / 2 ? 2 * i : 2 * (i - N / 2) + 1);
    S("duphalves", N * 2, duphalves(a), i % N);
    S("split-interleave", N, interleavehalves(splitpairs(a)), i);
    if constexpr (N % 4 == 0)
    {
        S("reverse-g2", N, reverse<2>(a), grouped(i, 2, [](size_t k) { return N / 2 - 1 - k; }));
        S("even-g2", N / 2, even<2>(a), grouped(i, 2, [](size_t k) { return 2 * k; }));
        S("odd-g2", N / 2, odd<2>(a), grouped(i, 2, [](size_t k) { return 2 * k + 1; }));
        S("interleave-g2", N * 2, interleave<2>(a, b), grouped(i, 2, [](size_t k) { return k % 2 ? N / 2 + k / 2 : k / 2; }));
        S("interleavehalves-g2", N, interleavehalves<2>(a), grouped(i, 2, [](size_t k) { return k % 2 ? N / 4 + k / 2 : k / 2; }));
        S("splitpairs-g2", N, splitpairs<2>(a), grouped(i, 2, [](size_t k) { return k < N / 4 ? 2 * k : 2 * (k - N / 4) + 1; }));
        S("permute3120", N, (permute<3, 1, 2, 0>(a)), i % 4 == 0 ? i + 3 : i % 4 == 3 ? i - 3 : i);
        S("permutegroups", N, (permutegroups<2, 1, 0>(a)), grouped(i, 2, [](size_t k) { return k ^ 1; }));
        S("shufflegroups", N, (shufflegroups<2, 1, 0 + N / 2>(a, b)), grouped(i, 2, [](size_t k) { return k % 2 ? N / 2 + (k & ~size_t(1)) : k + 1; }));
        SS("split4", N, ({ vec<T, N / 4> x, y, z, w; split(a, x, y, z, w); write(po, x); write(po + N / 4, y); write(po + N / 2, z); write(po + N / 4 * 3, w); }), i);
        S("part-4-2", N / 4, (part<4, 2>(a)), N / 2 + i);
        S("transpose-2", N, transpose<2>(a), i % (N / 2) * 2 + i / (N / 2));
        S("transpose-half", N, transpose<N / 2>(a), i % 2 * (N / 2) + i / 2);
        S("transposeinverse-2", N, (transposeinverse<2>(transpose<2>(a))), i);
        S("transposeinverse-half", N, (transposeinverse<N / 2>(a)), i % (N / 2) * 2 + i / (N / 2));
        S("zip2", N * 2, (zip(a, b).flatten()), i % 2 ? N + i / 2 : i / 2);
        S("swap4", N, swap<4>(a), i ^ 3);
    }
    if constexpr (N % 8 == 0)
    {
        S("ctranspose-2", N, ctranspose<2>(a), grouped(i, 2, [](size_t k) { return k % (N / 4) * 2 + k / (N / 4); }));
        S("ctransposeinverse-2", N, ctransposeinverse<2>(ctranspose<2>(a)), i);
        S("ctranspose-4", N, ctranspose<4>(a), grouped(i, 2, [](size_t k) { return k % (N / 8) * 4 + k / (N / 8); }));
        S("ctransposeinverse-4", N, ctransposeinverse<4>(a), grouped(i, 2, [](size_t k) { return k % 4 * (N / 8) + k / 4; }));
        S("reverse-g4", N, reverse<4>(a), grouped(i, 4, [](size_t k) { return N / 4 - 1 - k; }));
    }
}
template <typename T, size_t N> void pow2_widths()
{
    S("bitreverse", N, bitreverse(a), rev(i, ilog(N), 2));
    if constexpr (N >= 4)
        S("bitreverse-g2", N, bitreverse<2>(a), grouped(i, 2, [](size_t k) { return rev(k, ilog(N / 2), 2); }));
    if constexpr (N == 4 || N == 16 || N == 64)
        S("digitreverse4", N, digitreverse4(a), rev(i, ilog(N) / 2, 4));
    if constexpr (N == 8 || N == 32)
        S("digitreverse4-g2", N, digitreverse4<2>(a), grouped(i, 2, [](size_t k) { return rev(k, ilog(N / 2) / 2, 4); }));
}
// arbitrary index maps fixed at compile time: M lanes from N candidates, many of them local to a half or a quarter, some undefined
constexpr size_t mix(size_t k, size_t i) { size_t x = (k * 0x9E3779B97F4A7C15ull) ^ (i * 0xC2B2AE3D27D4EB4Full); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
template <size_t K, size_t N, size_t M> struct rmap
{
    constexpr size_t operator()(size_t i) const
    {
        size_t h = mix(K, i);
        switch (K % 6)
        {
        case 0: return h % N;
        case 1: return M >= 2 && N >= 2 ? i / ((M + 1) / 2) * (N / 2) + h % (N / 2) : h % N;            // halves stay halves
        case 2: return M >= 2 && N >= 2 ? (1 - i / ((M + 1) / 2)) * (N / 2) + h % (N / 2) : h % N;      // halves swapped
        case 3: return N >= 4 ? mix(K, 99) % 4 * (N / 4) + h % (N / 4) : h % N;                         // one quarter
        case 4: return h % 4 == 0 ? index_undefined : h % N;
        default: return (i ^ (mix(K, 7) % M)) % N;
        }
    }
};
template <size_t K, typename T, size_t N, size_t M> void random_map()
{
    char nm[40];
    snprintf(nm, sizeof nm, "map%zu", K);
    S(nm, M, (a.shuffle(csizeseq<M>.map(rmap<K, N, M>{}))), rmap<K, N, M>{}(i) == index_undefined ? ANY : rmap<K, N, M>{}(i));
    snprintf(nm, sizeof nm, "map2-%zu", K);
    S(nm, M, (a.shuffle(b, csizeseq<M>.map(rmap<K, 2 * N, M>{}))), rmap<K, 2 * N, M>{}(i) == index_undefined ? ANY : rmap<K, 2 * N, M>{}(i));
}
template <typename T, size_t N, size_t M, size_t... Ks> void random_maps(std::index_sequence<Ks...>) { (random_map<Ks, T, N, M>(), ...); }
template <typename T, size_t N> void maps()
{
    random_maps<T, N, N>(std::make_index_sequence<18>{});
    random_maps<T, N, 2 * N>(std::make_index_sequence<6>{});
    if constexpr (N >= 2) random_maps<T, N, N / 2>(std::make_index_sequence<6>{});
    if constexpr (N >= 4) random_maps<T, N, N - 1>(std::make_index_sequence<6>{});
}
// vectors of vectors
template <typename T, size_t N> void nested()
{
    if constexpr (N % 4 == 0)
    {
        using V2 = vec<vec<T, 2>, N / 2>;
        using V4 = vec<vec<T, 4>, N / 4>;
        S("column0", N / 2, column<0>(V2::from_flatten(a)), 2 * i);
        S("column1", N / 2, column<1>(V2::from_flatten(a)), 2 * i + 1);
        S("column3", N / 4, column<3>(V4::from_flatten(a)), 4 * i + 3);
        S("vec-reverse", N, (reverse(V2::from_flatten(a)).flatten()), i ^ 1); // the elements of every inner vector
        S("vec-reverse4", N, (reverse(V4::from_flatten(a)).flatten()), i ^ 3);
        S("vec-even", N / 2, (even(V2::from_flatten(a)).flatten()), grouped(i, 2, [](size_t k) { return 2 * k; }));
        S("vec-rotate", N, (rotateleft<1>(V2::from_flatten(a)).flatten()), (i + 2) % N);
        S("vec-low", prev_poweroftwo(N / 2 - 1) * 2, (low(V2::from_flatten(a)).flatten()), i);
    }
    if constexpr (N == 4 || N == 16)
    {
        constexpr size_t Q = N == 4 ? 2 : 4;
        using VQ = vec<vec<T, Q>, Q>;
        S("vec-transpose", N, (transpose(VQ::from_flatten(a)).flatten()), i % Q * Q + i / Q);
    }
    if constexpr (N % 3 == 0)
    {
        using V3 = vec<vec<T, 3>, N / 3>;
        S("vec-reverse3", N, (reverse(V3::from_flatten(a)).flatten()), i / 3 * 3 + 2 - i % 3);
        S("column3-1", N / 3, column<1>(V3::from_flatten(a)), 3 * i + 1);
    }
}
template <typename T, size_t N> void compound()
{
    basic<T, N>();
    maps<T, N>();
    if constexpr (N % 2 == 0)
    {
        S("even", N / 2, even(a), 2 * i);
        S("odd", N / 2, odd(a), 2 * i + 1);
        S("dupodd", N, dupodd(a), i | 1);
        S("permute10", N, (permute<1, 0>(a)), i ^ 1);
        S("interleave", N * 2, interleave(a, b), i % 2 ? N + i / 2 : i / 2);
        S("interleavehalves", N, interleavehalves(a), i % 2 ? N / 2 + i / 2 : i / 2);
        S("splitpairs", N, splitpairs(a), i < N / 2 ? 2 * i : 2 * (i - N / 2) + 1);
    }
}
template <typename T, size_t N> void all()
{
    basic<T, N>();
    if constexpr (N % 2 == 0) even_widths<T, N>();
    if constexpr (N > 1 && (N & (N - 1)) == 0) pow2_widths<T, N>();
    nested<T, N>();
    maps<T, N>();
}

// index generators and scalar digit reversal
template <typename T, size_t N> void generators()
{
    if (vk::begin("enumerate/%s/%zu", tname<T>(), N))
    {
        Rng r = vk::case_rng(2);
        vec<T, N> e = enumerate<T, N>(), s = enumerate<T, N, 3, 2>(), t = enumerate(vec_shape<T, N>{}), st = enumerate<5, 3>(vec_shape<T, N>{});
        for (size_t i = 0; i < N; ++i)
            if (e[i] != T(i) || s[i] != T(3 + 2 * i) || t[i] != T(i) || st[i] != T(5 + 3 * i))
                return vk::fail("enumerate wrong at %zu", i);
        for (int it = 0; it < 10; ++it)
        {
            T step = T(r.range(0, 7));
            vec<T, N> d = enumerate(vec_shape<T, N>{}, step);
            for (size_t i = 0; i < N; ++i)
                if (d[i] != T(T(i) * step))
                    return vk::fail("enumerate(step %s) is %s at %zu", show(step).c_str(), show(T(d[i])).c_str(), i);
            vk::evals(N);
        }
        vec<T, N> w = onoff<T, N, N / 3, N / 2, 7, 2>();
        vec<T, N> w2 = onoff<1, 2, 3, 4>(vec_shape<T, N>{});
        for (size_t i = 0; i < N; ++i)
            if (w[i] != T(i >= N / 3 && i < N / 3 + N / 2 ? 7 : 2) || w2[i] != T(i >= 1 && i < 3 ? 3 : 4))
                return vk::fail("onoff wrong at %zu", i);
        vk::seen(N * 64 + sizeof(T));
    }
}
template <size_t bits> void scalar_rev()
{
    if (!vk::begin("bitreverse<%zu>", bits))
        return;
    Rng r = vk::case_rng(3);
    size_t top = size_t(1) << bits;
    for (size_t k = 0; k < 4096; ++k)
    {
        u32 x = u32(bits <= 12 ? k % top : r.next() & (top - 1));
        if (kfr::bitreverse<bits>(x) != rev(x, bits, 2))
            return vk::fail("bitreverse(%u) = %u", x, kfr::bitreverse<bits>(x));
        if (bits % 2 == 0 && kfr::digitreverse4<bits>(x) != rev(x, bits / 2, 4))
            return vk::fail("digitreverse4(%u) = %u", x, kfr::digitreverse4<bits>(x));
        vk::evals(1);
        vk::seen(x * 64 + bits);
    }
}
#if PART == 0
using ET = vk::u8_t;
using GT = vk::u16_t;
#elif PART == 1
using ET = vk::i32_t;
using GT = vk::i16_t;
#elif PART == 2
using ET = vk::u64_t;
using GT = vk::u32_t;
#elif PART == 3
using ET = float;
using GT = float;
#elif PART == 4
using ET = double;
using GT = double;
#elif PART == 5
using ET = kfr::complex<float>;
using GT = vk::i64_t;
#elif PART == 6
using ET = kfr::complex<double>;
using GT = vk::i8_t;
#else
using ET = vk::u16_t;
using GT = vk::u64_t;
#endif

int main(int argc, char** argv)
{
    vk::init(argc, argv);
    if (!cpu_ok())
    {
        vk::stat("skipped_unsupported_cpu", 1);
        return vk::done();
    }
    ITER = vk::thorough() ? 400 : 24;
#if PART == 5 || PART == 6
    compound<ET, 1>();
    compound<ET, 2>();
    compound<ET, 4>();
#if defined __clang__
    compound<ET, 3>();
    compound<ET, 8>();
#endif
#else
    all<ET, 1>();
    all<ET, 2>();
    all<ET, 4>();
    all<ET, 8>();
    all<ET, 16>();
#if defined __clang__
    all<ET, 3>();
    all<ET, 6>();
#if defined VK_ALLW
    all<ET, 5>();
    all<ET, 7>();
    all<ET, 12>();
    all<ET, 32>();
#else
    if (sizeof(ET) <= 2) all<ET, 32>();
#endif
#endif
#endif
    generators<GT, 1>(); generators<GT, 2>(); generators<GT, 4>(); generators<GT, 8>(); generators<GT, 16>();
#if defined __clang__
    generators<GT, 3>(); generators<GT, 7>(); generators<GT, 12>();
#endif
#if PART == 0
    scalar_rev<1>(); scalar_rev<2>(); scalar_rev<4>(); scalar_rev<6>(); scalar_rev<7>(); scalar_rev<8>(); scalar_rev<9>(); scalar_rev<10>();
    scalar_rev<12>(); scalar_rev<15>(); scalar_rev<16>(); scalar_rev<17>(); scalar_rev<18>(); scalar_rev<24>(); scalar_rev<31>(); scalar_rev<32>();
#endif
    return vk::done();
}
