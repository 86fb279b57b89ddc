// C21: expressions give the same values however they are evaluated.
#include "expr_common.hpp"
#include <kfr/math.hpp>
using namespace kfr;

#ifndef PART
#define PART 0
#endif

template <typename T>
static ld num(const T& v)
{
    if constexpr (is_bit<T>)
        return v ? 1 : 0;
    else
        return (ld)v;
}
static bool near(ld a, ld b, ld tol) { return a == b || std::fabs(a - b) <= tol; }

template <typename E, index_t Axis, size_t N, index_t D>
static void read_n(const char* what, const E& e, const shape<D>& idx, const std::function<ld(const shape<D>&)>& ref, ld tol)
{
    using T = expression_value_type<E>;
    begin_pass(e, idx, idx.add_at(N, cindex<Axis>));
    const vec<T, N> v = get_elements(e, idx, axis_params_v<Axis, N>);
    end_pass(e, idx, idx.add_at(N, cindex<Axis>));
    shape<D> p        = idx;
    for (size_t i = 0; i < N; ++i, ++p[Axis])
    {
        const T x = v[i];
        ld w      = ref(p);
        if (!near(num(x), w, tol))
            return fail("%s: %zu elements read at %s along axis %d: element %s is %.10Lg, by definition %.10Lg", what, N, str(idx).c_str(),
                        (int)Axis, str(p).c_str(), num(x), w);
    }
}

template <index_t Axis, typename E, index_t D>
static void reads_axis(Rng& r, const char* what, const E& e, const shape<D>& s, const std::function<ld(const shape<D>&)>& ref, ld tol)
{
    for (int k = 0; k < 14; ++k)
    {
        int lg = (int)r.below(6);
        while (lg && (index_t)(1 << lg) > s[Axis])
            --lg;
        size_t n = 1u << lg;
        shape<D> idx;
        for (index_t d = 0; d < D; ++d)
            idx[d] = r.below(d == Axis ? s[d] - n + 1 : s[d]);
        switch (n)
        {
        case 1: read_n<E, Axis, 1>(what, e, idx, ref, tol); break;
        case 2: read_n<E, Axis, 2>(what, e, idx, ref, tol); break;
        case 4: read_n<E, Axis, 4>(what, e, idx, ref, tol); break;
        case 8: read_n<E, Axis, 8>(what, e, idx, ref, tol); break;
        case 16: read_n<E, Axis, 16>(what, e, idx, ref, tol); break;
        case 32: read_n<E, Axis, 32>(what, e, idx, ref, tol); break;
        }
        stat("reads");
        if (failed())
            return;
    }
}

template <typename E, index_t D, typename Rec>
static void check_written(const char* what, Rec& out, const shape<D>& start, const shape<D>& stop,
                          const std::function<ld(const shape<D>&)>& ref, ld tol)
{
    if (out.outside)
        return fail("%s: range %s..%s of an output of shape %s: %d writes outside the output, first at %s", what, str(start).c_str(),
                    str(stop).c_str(), str(out.sh).c_str(), out.outside, str(out.where).c_str());
    if (!count(out.sh))
        return;
    shape<D> p(0);
    do
    {
        bool in = true;
        for (index_t d = 0; d < D; ++d)
            in = in && p[d] >= start[d] && p[d] < stop[d];
        int n = out.writes[flat(out.sh, p)];
        if (n != (in ? 1 : 0))
            return fail("%s: range %s..%s of an output of shape %s: element %s was written %d times", what, str(start).c_str(),
                        str(stop).c_str(), str(out.sh).c_str(), str(p).c_str(), n);
        if (in)
        {
            ld got = num(out.value[flat(out.sh, p)]), w = ref(p);
            if (!near(got, w, tol))
                return fail("%s: range %s..%s: element %s is %.10Lg, by definition %.10Lg", what, str(start).c_str(), str(stop).c_str(),
                            str(p).c_str(), got, w);
        }
    } while (next_index(p, out.sh));
}

template <size_t W, index_t Axis, typename E, index_t D>
static void process_n(Rng& r, const char* what, E& e, const shape<D>& s, bool infinite, const std::function<ld(const shape<D>&)>& ref, ld tol)
{
    using T = expression_value_type<E>;
    recorder<T, D> out(s);
    shape<D> start(0), size(infinite_size), stop = s;
    if (r.chance(0.7))
        for (index_t d = 0; d < D; ++d)
        {
            start[d] = r.below(s[d] + 1);
            size[d]  = r.chance(0.3) ? (index_t)infinite_size : (index_t)r.below(s[d] + 2);
            stop[d]  = size[d] == infinite_size ? s[d] : std::min(s[d], start[d] + size[d]);
        }
    (void)infinite;
    auto ret = process<W, Axis>(out, e, start, size);
    stat("assignments");
    check_written<E, D>(what, out, start, stop, ref, tol);
    for (index_t d = 0; d < D && !failed(); ++d)
        if (ret[d] != stop[d])
            fail("%s: range %s + %s: returned %s instead of %s", what, str(start).c_str(), str(size).c_str(), str(ret).c_str(), str(stop).c_str());
}

enum : unsigned
{
    all_axes  = 0,
    last_axis = 1, // other axes are not supported
    no_assign = 2,
};

/// Judge one expression: shape, reads at all widths and axes, assignments of ranges.
template <unsigned Flags = 0, typename E, index_t D>
static void judge(Rng& r, const char* what, E&& e, const shape<D>& want, const std::function<ld(const shape<D>&)>& ref, ld tol = 0)
{
    if (failed())
        return;
    using EE = std::decay_t<E>;
    static_assert(expression_dims<EE> == D);
    probe_bad      = 0;
    probe_what     = what;
    shape<D> have  = get_shape(e);
    bool infinite  = false;
    shape<D> s     = want;
    seen(hash_bytes(what, strlen(what), hash_bytes(want.data(), D * sizeof(index_t))));
    for (index_t d = 0; d < D; ++d)
    {
        if (have[d] != want[d])
            return fail("%s: shape %s instead of %s", what, str(have).c_str(), str(want).c_str());
        if (s[d] == infinite_size)
            infinite = true, s[d] = (D == 1 ? 70 : 19);
    }
    if (count(s) != 0)
    {
        reads_axis<D - 1>(r, what, e, s, ref, tol);
        if constexpr (D > 1 && !(Flags & last_axis))
            reads_axis<0>(r, what, e, s, ref, tol);
        if constexpr (D > 2 && !(Flags & last_axis))
            reads_axis<1>(r, what, e, s, ref, tol);
    }
    if constexpr (!(Flags & no_assign))
    {
        for (int k = 0; k < 3 && !failed(); ++k)
        {
            process_n<0, infinite_size>(r, what, e, s, infinite, ref, tol);
            if (!failed())
                process_n<1, infinite_size>(r, what, e, s, infinite, ref, tol);
            if (!failed())
                process_n<4, infinite_size>(r, what, e, s, infinite, ref, tol);
            if (!failed())
                process_n<16, infinite_size>(r, what, e, s, infinite, ref, tol);
            if constexpr (D > 1 && !(Flags & last_axis))
                if (!failed())
                    process_n<8, 0>(r, what, e, s, infinite, ref, tol);
        }
    }
}

template <index_t D>
using Ref = std::function<ld(const shape<D>&)>;
using R1  = Ref<1>;
using R2  = Ref<2>;
using R3  = Ref<3>;
using S1  = shape<1>;
using S2  = shape<2>;
using S3  = shape<3>;

template <typename T>
static const char* tn()
{
    return std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : std::is_same_v<T, i32> ? "i32" : "u8";
}

static index_t pick_size(Rng& r)
{
    static const index_t sp[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 };
    return r.chance(0.6) ? sp[r.below(17)] : 1 + r.below(100);
}

#if PART == 0 || PART == 1
template <typename T>
static void one_dim(Rng& r)
{
    index_t n = pick_size(r), m = pick_size(r);
    using P = probe<T, 1>;
    P a(S1{ n }, r.next()), b(S1{ n }, r.next()), c(S1{ n }, r.next()), d(S1{ m }, r.next()), one(S1{ 1 }, r.next()), one2(S1{ 1 }, r.next());
    S1 sn{ n };
    auto A = [&](const S1& i) { return num(a.at(i)); };
    auto B = [&](const S1& i) { return num(b.at(i)); };
    auto C = [&](const S1& i) { return num(c.at(i)); };
    T k    = (T)(r.below(7) + 1);
    judge(r, "operand", a, sn, R1(A));
    judge(r, "a+b", a + b, sn, R1([&](S1 i) { return A(i) + B(i); }));
    judge(r, "(a-b)*c", (a - b) * c, sn, R1([&](S1 i) { return (A(i) - B(i)) * C(i); }));
    judge(r, "temporaries", P(a) + P(b) * P(c), sn, R1([&](S1 i) { return A(i) + B(i) * C(i); }));
    judge(r, "scalar*a+scalar", k * a + (T)3, sn, R1([&](S1 i) { return (ld)k * A(i) + 3; }));
    judge(r, "-a", -a, sn, R1([&](S1 i) { return -A(i); }));
    judge(r, "sqr", sqr(a), sn, R1([&](S1 i) { return A(i) * A(i); }));
    judge(r, "abs", kfr::abs(a), sn, R1([&](S1 i) { return std::fabs(A(i)); }));
    judge(r, "min", kfr::min(a, b), sn, R1([&](S1 i) { return std::min(A(i), B(i)); }));
    judge(r, "max of three", kfr::max(kfr::max(a, b), c), sn, R1([&](S1 i) { return std::max(std::max(A(i), B(i)), C(i)); }));
    judge(r, "clamp", kfr::clamp(a, (T)-20, (T)30), sn, R1([&](S1 i) { return std::min(std::max(A(i), -20.L), 30.L); }));
    judge(r, "select", kfr::select(a < b, a, c), sn, R1([&](S1 i) { return A(i) < B(i) ? A(i) : C(i); }));
    judge<no_assign>(r, "a>=b", a >= b, sn, R1([&](S1 i) { return A(i) >= B(i) ? 1 : 0; }));
    judge(r, "mix", kfr::mix(a, b, c), sn, R1([&](S1 i) { return B(i) + (C(i) - B(i)) * A(i); }));
    judge(r, "a broadcast", a + one, sn, R1([&](S1 i) { return A(i) + num(one.at(S1{ 0 })); }));
    judge(r, "broadcast both sides", one * a + b * one2, sn,
          R1([&](S1 i) { return num(one.at(S1{ 0 })) * A(i) + B(i) * num(one2.at(S1{ 0 })); }));
    judge(r, "broadcast of an expression", a + (one + one2), sn, R1([&](S1 i) { return A(i) + num(one.at(S1{ 0 })) + num(one2.at(S1{ 0 })); }));
    judge(r, "bound function", bind_expression([](auto x, auto y, auto z) { return x * y - z; }, a, b, one), sn,
          R1([&](S1 i) { return A(i) * B(i) - num(one.at(S1{ 0 })); }));
    judge(r, "rebound function", rebind(a * b + c, c, a + b), sn, R1([&](S1 i) { return C(i) + (A(i) + B(i)); }));
    {
        probe<T, 1, true> inf(S1{ (index_t)infinite_size }, r.next());
        judge(r, "with an infinite operand", inf + a, n == 1 ? S1{ (index_t)infinite_size } : sn, R1([&](S1 i) { return num(inf.at(i)) + A(S1{ n == 1 ? 0 : i[0] }); }));
        judge(r, "infinite and one", inf * one, S1{ (index_t)infinite_size }, R1([&](S1 i) { return num(inf.at(i)) * num(one.at(S1{ 0 })); }));
        judge(r, "infinite", inf, S1{ (index_t)infinite_size }, R1([&](S1 i) { return num(inf.at(i)); }));
    }
    {
        probe<T, 1, false, 8> f8(S1{ 8 }, r.next());
        probe<T, 1, false, 1> f1(S1{ 1 }, r.next());
        probe<T, 1, false, 5> f5(S1{ 5 }, r.next());
        P e8(S1{ 8 }, r.next()), e5(S1{ 5 }, r.next());
        judge(r, "fixed 8", f8 + e8, S1{ 8 }, R1([&](S1 i) { return num(f8.at(i)) + num(e8.at(i)); }));
        judge(r, "fixed 5", e5 - f5, S1{ 5 }, R1([&](S1 i) { return num(e5.at(i)) - num(f5.at(i)); }));
        judge(r, "fixed 5 and fixed 1", f5 * f1, S1{ 5 }, R1([&](S1 i) { return num(f5.at(i)) * num(f1.at(S1{ 0 })); }));
        judge(r, "fixed 1", a + f1, sn, R1([&](S1 i) { return A(i) + num(f1.at(S1{ 0 })); }));
        judge(r, "fixed 1 alone", (-f1) + a, sn, R1([&](S1 i) { return A(i) - num(f1.at(S1{ 0 })); }));
    }
    index_t s = r.below(n + 1), l = r.below(n + 4), rest = n - s;
    judge(r, "slice", slice(a, S1{ s }), S1{ rest }, R1([&](S1 i) { return A(S1{ i[0] + s }); }));
    judge(r, "slice with size", slice(a + b, S1{ s }, S1{ l }), S1{ std::min(rest, l) },
          R1([&](S1 i) { return A(S1{ i[0] + s }) + B(S1{ i[0] + s }); }));
    judge(r, "truncate", truncate(a, S1{ l }), S1{ std::min(n, l) }, R1(A));
    judge(r, "truncate infinite", truncate(counter((T)3, (T)2), S1{ l }), S1{ l }, R1([&](S1 i) { return 3 + 2 * (ld)i[0]; }));
    judge(r, "slice past the end", slice(a, S1{ n + 1 + r.below(5) }, S1{ l }), S1{ 0 }, R1(A));
    judge(r, "slice of slice", slice(slice(a, S1{ s / 2 }), S1{ s - s / 2 }, S1{ l }), S1{ std::min(rest, l) },
          R1([&](S1 i) { return A(S1{ i[0] + s }); }));
    judge(r, "padded", padded(a, (T)7), S1{ (index_t)infinite_size }, R1([&](S1 i) { return i[0] < n ? A(i) : 7; }));
    judge(r, "padded temporary", padded(P(a) + P(b), (T)7), S1{ (index_t)infinite_size }, R1([&](S1 i) { return i[0] < n ? A(i) + B(i) : 7; }));
    judge(r, "truncate(padded)", truncate(padded(a), S1{ n + l }), S1{ n + l }, R1([&](S1 i) { return i[0] < n ? A(i) : 0; }));
    judge(r, "reverse", reverse(a), sn, R1([&](S1 i) { return A(S1{ n - 1 - i[0] }); }));
    judge(r, "reverse(slice)", reverse(slice(a * (T)2, S1{ s })), S1{ rest }, R1([&](S1 i) { return 2 * A(S1{ n - 1 - i[0] }); }));
    judge(r, "reverse(reverse)+b", reverse(reverse(P(a))) + b, sn, R1([&](S1 i) { return A(i) + B(i); }));
    auto D = [&](index_t i) { return num(d.at(S1{ i })); };
    judge(r, "concatenate", concatenate(a, d), S1{ n + m }, R1([&](S1 i) { return i[0] < n ? A(i) : D(i[0] - n); }));
    judge(r, "concatenate temporaries", concatenate(P(a), P(d)), S1{ n + m }, R1([&](S1 i) { return i[0] < n ? A(i) : D(i[0] - n); }));
    judge(r, "concatenate three", concatenate(a, d, b), S1{ n + m + n },
          R1([&](S1 i) { return i[0] < n ? A(i) : i[0] < n + m ? D(i[0] - n) : B(S1{ i[0] - n - m }); }));
    judge(r, "concatenate with infinite", concatenate(a, counter((T)0, (T)1)), S1{ (index_t)infinite_size },
          R1([&](S1 i) { return i[0] < n ? A(i) : (ld)(i[0] - n); }));
    judge(r, "counter", counter((T)5, k), S1{ (index_t)infinite_size }, R1([&](S1 i) { return 5 + (ld)k * i[0]; }));
    judge(r, "counter from", counter((T)9), S1{ (index_t)infinite_size }, R1([&](S1 i) { return 9 + (ld)i[0]; }));
    judge(r, "sequence", sequence((T)4, (T)9, (T)-1, (T)0, (T)2), S1{ (index_t)infinite_size },
          R1([](S1 i) { return (ld[]){ 4, 9, -1, 0, 2 }[i[0] % 5]; }));
    judge(r, "lambda", lambda<T>([](index_t i) { return (T)(i * 3 % 11); }), S1{ (index_t)infinite_size }, R1([](S1 i) { return (ld)(i[0] * 3 % 11); }));
    judge(r, "reshape(1D)", reshape(a, sn), sn, R1(A));
    judge(r, "reshape temporary", reshape(P(a), sn), sn, R1(A));
    judge(r, "cast to f64", cast<double>(a + b) * 0.5, sn, R1([&](S1 i) { return (A(i) + B(i)) * 0.5; }));
    judge(r, "cast to i32", cast<i32>(a) + 1, sn, R1([&](S1 i) { return A(i) + 1; }));
    judge(r, "cast to i8", cast<i8>(a), sn, R1(A));
    judge(r, "handle", to_handle(a + b), sn, R1([&](S1 i) { return A(i) + B(i); }));
    judge(r, "handle with a broadcast", to_handle(a) * one + to_handle(P(b)), sn, R1([&](S1 i) { return A(i) * num(one.at(S1{ 0 })) + B(i); }));
    {
        index_t q = 1 + r.below(6);
        judge(r, "dimensions", dimensions<2>(a), S2{ (index_t)infinite_size, n }, R2([&](S2 i) { return A(S1{ i[1] }); }));
        judge(r, "reshape to 2D", reshape(a, S2{ n, 1 }), S2{ n, 1 }, R2([&](S2 i) { return A(S1{ i[0] }); }));
        P e(S1{ n * q }, r.next());
        judge(r, "reshape to rows", reshape(e, S2{ q, n }), S2{ q, n }, R2([&](S2 i) { return num(e.at(S1{ i[0] * n + i[1] })); }));
        judge(r, "reshape to rows of a temporary", reshape(e + (T)1, S3{ n, 1, q }), S3{ n, 1, q },
              R3([&](S3 i) { return num(e.at(S1{ i[0] * q + i[2] })) + 1; }));
    }
}
#endif

#if PART == 2 || PART == 3
template <typename T>
static void multi_dim(Rng& r)
{
    index_t n = 1 + r.below(7), m = pick_size(r) % 40 + 1, p = 1 + r.below(20);
    using P1 = probe<T, 1>;
    using P2 = probe<T, 2>;
    using P3 = probe<T, 3>;
    S2 s2{ n, m };
    S3 s3{ n, p, m };
    P2 a(s2, r.next()), b(s2, r.next()), row(S2{ 1, m }, r.next()), col(S2{ n, 1 }, r.next()), dot(S2{ 1, 1 }, r.next());
    P1 line(S1{ m }, r.next()), one(S1{ 1 }, r.next());
    P3 t(s3, r.next()), u(S3{ n, 1, m }, r.next()), w(S3{ 1, p, 1 }, r.next());
    auto A = [&](const S2& i) { return num(a.at(i)); };
    auto B = [&](const S2& i) { return num(b.at(i)); };
    auto t3 = [&](const S3& i) { return num(t.at(i)); };
    const ld DOT = num(dot.at(S2{ 0, 0 })), ONE = num(one.at(S1{ 0 }));
#if PART == 2
    judge(r, "2D operand", a, s2, R2(A));
    judge(r, "2D a*b+scalar", a * b + (T)2, s2, R2([&](S2 i) { return A(i) * B(i) + 2; }));
    judge(r, "2D with a row", a + row, s2, R2([&](S2 i) { return A(i) + num(row.at(S2{ 0, i[1] })); }));
    judge(r, "2D with a column", col - b, s2, R2([&](S2 i) { return num(col.at(S2{ i[0], 0 })) - B(i); }));
    judge(r, "row and column", row * col, s2, R2([&](S2 i) { return num(row.at(S2{ 0, i[1] })) * num(col.at(S2{ i[0], 0 })); }));
    judge(r, "2D with one element", a * dot, s2, R2([&](S2 i) { return A(i) * DOT; }));
    judge(r, "2D with a 1D operand", a + line, s2, R2([&](S2 i) { return A(i) + num(line.at(S1{ i[1] })); }));
    judge(r, "2D with a 1D element", one + a, s2, R2([&](S2 i) { return A(i) + ONE; }));
    judge(r, "column and 1D", col + line, s2, R2([&](S2 i) { return num(col.at(S2{ i[0], 0 })) + num(line.at(S1{ i[1] })); }));
    judge(r, "1D expression in 2D", (line * (T)2 + one) - b, s2, R2([&](S2 i) { return num(line.at(S1{ i[1] })) * 2 + ONE - B(i); }));
    judge(r, "2D min of row+col and b", kfr::min(row + col, b), s2,
          R2([&](S2 i) { return std::min(num(row.at(S2{ 0, i[1] })) + num(col.at(S2{ i[0], 0 })), B(i)); }));
    if (m > 1) judge(r, "2D with a counter", a + counter((T)1, (T)2), s2, R2([&](S2 i) { return A(i) + 1 + 2 * (ld)i[1]; }));
    judge(r, "2D counter", counter((T)1, (T)20, (T)2), S2{ (index_t)infinite_size, (index_t)infinite_size },
          R2([&](S2 i) { return 1 + 20 * (ld)i[0] + 2 * (ld)i[1]; }));
    judge(r, "2D cast", cast<double>(a) * 0.25, s2, R2([&](S2 i) { return A(i) * 0.25L; }));
    judge(r, "2D lambda", lambda<T, 2>([](S2 i) { return (T)((i[0] * 7 + i[1]) % 51); }), S2{ (index_t)infinite_size, (index_t)infinite_size },
          R2([](S2 i) { return (ld)((i[0] * 7 + i[1]) % 51); }));
    judge(r, "dimensions of 1D", dimensions<2>(line) + col, S2{ n == 1 ? (index_t)infinite_size : n, m }, R2([&](S2 i) { return num(line.at(S1{ i[1] })) + num(col.at(S2{ n == 1 ? 0 : i[0], 0 })); }));
    probe<T, 2, false, 4, 6> f(S2{ 4, 6 }, r.next());
    P2 g(S2{ 4, 6 }, r.next());
    probe<T, 2, false, 1, 6> frow(S2{ 1, 6 }, r.next());
    probe<T, 2, false, 4, 1> fcol(S2{ 4, 1 }, r.next());
    judge(r, "2D fixed", f + g, S2{ 4, 6 }, R2([&](S2 i) { return num(f.at(i)) + num(g.at(i)); }));
    judge(r, "2D fixed row", g * frow, S2{ 4, 6 }, R2([&](S2 i) { return num(g.at(i)) * num(frow.at(S2{ 0, i[1] })); }));
    judge(r, "2D fixed column", fcol - g, S2{ 4, 6 }, R2([&](S2 i) { return num(fcol.at(S2{ i[0], 0 })) - num(g.at(i)); }));
    judge(r, "2D fixed row and column", frow + fcol, S2{ 4, 6 },
          R2([&](S2 i) { return num(frow.at(S2{ 0, i[1] })) + num(fcol.at(S2{ i[0], 0 })); }));
    judge(r, "2D fixshape", fixshape(g, fixed_shape<4, 6>) + f, S2{ 4, 6 }, R2([&](S2 i) { return num(f.at(i)) + num(g.at(i)); }));
#else
    S2 from{ r.below(n + 1), r.below(m + 1) }, size{ r.below(n + 2), r.below(m + 2) };
    S2 rest{ n - from[0], m - from[1] };
    judge(r, "2D slice", slice(a, from), rest, R2([&](S2 i) { return A(S2{ i[0] + from[0], i[1] + from[1] }); }));
    judge(r, "2D slice with size", slice(a * b, from, size), S2{ std::min(rest[0], size[0]), std::min(rest[1], size[1]) },
          R2([&](S2 i) { return A(S2{ i[0] + from[0], i[1] + from[1] }) * B(S2{ i[0] + from[0], i[1] + from[1] }); }));
    judge(r, "2D truncate", truncate(a + (T)1, size), S2{ std::min(n, size[0]), std::min(m, size[1]) }, R2([&](S2 i) { return A(i) + 1; }));
    judge(r, "2D reverse", reverse(a), s2, R2([&](S2 i) { return A(S2{ n - 1 - i[0], m - 1 - i[1] }); }));
    judge(r, "2D reverse of a temporary", reverse(a + (T)1) - row, s2,
          R2([&](S2 i) { return A(S2{ n - 1 - i[0], m - 1 - i[1] }) + 1 - num(row.at(S2{ 0, i[1] })); }));
    P2 below(S2{ p, m }, r.next()), beside(S2{ n, p }, r.next());
    judge(r, "2D concatenate along 0", concatenate<0>(a, below), S2{ n + p, m },
          R2([&](S2 i) { return i[0] < n ? A(i) : num(below.at(S2{ i[0] - n, i[1] })); }));
    judge(r, "2D concatenate along 1", concatenate<1>(a, beside), S2{ n, m + p },
          R2([&](S2 i) { return i[1] < m ? A(i) : num(beside.at(S2{ i[0], i[1] - m })); }));
    judge(r, "2D concatenate temporaries", concatenate<1>(P2(a), beside * (T)2), S2{ n, m + p },
          R2([&](S2 i) { return (i[1] < m ? A(i) : 2 * num(beside.at(S2{ i[0], i[1] - m }))); }));
    judge(r, "2D reshape", reshape(a, S2{ m, n }), S2{ m, n }, R2([&](S2 i) { index_t k = i[0] * n + i[1]; return A(S2{ k / m, k % m }); }));
    judge(r, "2D flattened", reshape(a, S1{ n * m }), S1{ n * m }, R1([&](S1 i) { return A(S2{ i[0] / m, i[0] % m }); }));
    judge(r, "3D to 2D", reshape(t, S2{ n * p, m }), S2{ n * p, m }, R2([&](S2 i) { return t3(S3{ i[0] / p, i[0] % p, i[1] }); }));
    judge(r, "3D transposed extents", reshape(t, S3{ m, n, p }), S3{ m, n, p }, R3([&](S3 i) {
              index_t k = (i[0] * n + i[1]) * p + i[2];
              return t3(S3{ k / m / p, k / m % p, k % m });
          }));
    judge(r, "3D operand", t, s3, R3(t3));
    judge(r, "3D broadcasts", t * (T)2 + u - w, s3, R3([&](S3 i) { return 2 * t3(i) + num(u.at(S3{ i[0], 0, i[2] })) - num(w.at(S3{ 0, i[1], 0 })); }));
    judge(r, "3D and 1D", t + line, s3, R3([&](S3 i) { return t3(i) + num(line.at(S1{ i[2] })); }));
    P2 plane(S2{ p, m }, r.next());
    judge(r, "3D and 2D", plane - t, s3, R3([&](S3 i) { return num(plane.at(S2{ i[1], i[2] })) - t3(i); }));
    judge(r, "3D reverse", reverse(t), s3, R3([&](S3 i) { return t3(S3{ n - 1 - i[0], p - 1 - i[1], m - 1 - i[2] }); }));
    judge(r, "3D slice", slice(t, S3{ from[0], 0, from[1] }), S3{ rest[0], p, rest[1] }, R3([&](S3 i) { return t3(S3{ i[0] + from[0], i[1], i[2] + from[1] }); }));
    judge(r, "3D concatenate along 1", concatenate<1>(t, t), S3{ n, 2 * p, m }, R3([&](S3 i) { return t3(S3{ i[0], i[1] % p, i[2] }); }));
    judge(r, "3D counter", counter((T)1, (T)2, (T)3, (T)4), S3(infinite_size), R3([](S3 i) { return 1 + 2 * (ld)i[0] + 3 * (ld)i[1] + 4 * (ld)i[2]; }));
#endif
}
#endif


#if PART == 4 || PART == 5
template <typename T, typename V>
static void same_values(const char* what, const V& v, size_t from, size_t to, const std::vector<T>& before, const std::function<T(size_t)>& ref)
{
    stat("assignments");
    seen(hash_bytes(what, strlen(what), before.size() * 1000003 + to * 1009 + from));
    if (v.size() != before.size())
        return fail("%s: size %zu instead of %zu", what, (size_t)v.size(), before.size());
    for (size_t i = 0; i < before.size() && !failed(); ++i)
    {
        T w = i >= from && i < to ? ref(i) : before[i];
        if (!(v[i] == w))
            fail("%s: element %zu (range %zu..%zu of %zu) is %s instead of %s", what, i, from, to, before.size(), as_string(v[i]).c_str(),
                 as_string(w).c_str());
    }
}
template <typename T>
static T val(Rng& r)
{
    if constexpr (is_complex<T>)
        return T((subtype<T>)r.range(-50, 50), (subtype<T>)r.range(-50, 50));
    else
        return (T)r.range(-50, 50);
}
template <typename T>
static std::vector<T> vals(Rng& r, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v)
        x = val<T>(r);
    return v;
}

template <typename T>
static void containers(Rng& r)
{
    size_t n = pick_size(r), m = pick_size(r);
    std::vector<T> a0 = vals<T>(r, n), b0 = vals<T>(r, n), o0 = vals<T>(r, n), z(n);
    univector<T> a(n), b(n);
    std::copy(a0.begin(), a0.end(), a.begin());
    std::copy(b0.begin(), b0.end(), b.begin());
    auto sum = [&](size_t i) { return (T)(a0[i] + b0[i]); };
    {
        univector<T> v(a + b);
        same_values<T>("univector(a+b)", v, 0, n, z, sum);
        univector<T> w(m);
        w = a + b;
        same_values<T>("univector = a+b", w, 0, n, z, sum);
        w = a;
        w += b;
        same_values<T>("+=", w, 0, n, z, sum);
        w -= b;
        same_values<T>("-=", w, 0, n, z, [&](size_t i) { return a0[i]; });
        w *= b;
        same_values<T>("*=", w, 0, n, z, [&](size_t i) { return (T)(a0[i] * b0[i]); });
        univector<T> x = render(a + b);
        same_values<T>("render", x, 0, n, z, sum);
        size_t off = r.below(n + 1), len = r.below(n - off + 1);
        univector<T> y = render(a + b, len, off);
        same_values<T>("render(size, offset)", y, 0, len, std::vector<T>(len), [&](size_t i) { return sum(i + off); });
        univector<T, 13> f = render(padded(a + b), csize<13>);
        same_values<T>("render(fixed)", f, 0, 13, std::vector<T>(13), [&](size_t i) { return i < n ? sum(i) : T(0); });
        x = scalar(T(3));
        same_values<T>("univector = scalar", x, 0, n, z, [&](size_t) { return T(3); });
        x = zeros<T>();
        same_values<T>("univector = zeros", x, 0, n, z, [&](size_t) { return T(0); });
    }
    for (int k = 0; k < 6; ++k)
    {
        // a piece of an existing buffer, with red zones
        size_t from = r.below(n + 1), len = r.below(n - from + 1);
        Buf<T> o(n);
        std::copy(o0.begin(), o0.end(), o.data());
        univector<T, 0> u = make_univector(o.data(), n);
        u.slice(from, len) = slice(a + b, from, len);
        same_values<T>("univector slice = expression", u, from, from + len, o0, sum);
        u.slice(from, len) = ones<T>();
        same_values<T>("univector slice = scalar", u, from, from + len, o0, [](size_t) { return T(1); });
        process(u, padded(a) + b, shape<1>(from), shape<1>(len));
        same_values<T>("process a range", u, from, from + len, o0, sum);
        process(u, scalar(T(2)), shape<1>(from), shape<1>(len));
        same_values<T>("process a range of a scalar", u, from, from + len, o0, [](size_t) { return T(2); });
        if (len)
        {
            size_t rows = 1;
            for (size_t q : { 2, 3, 4, 5, 7 })
                if (len % q == 0 && r.chance(0.6))
                    rows = q;
            auto rs = reshape(u.slice(from, len), shape<2>(rows, len / rows));
            process(rs, reshape(slice(a + b, shape<1>(from), shape<1>(len)), shape<2>(rows, len / rows)));
            same_values<T>("process into reshape()", u, from, from + len, o0, sum);
            auto rs3 = reshape(u.slice(from, len), shape<3>(len / rows, 1, rows));
            process<8, 0>(rs3, reshape(slice(b * a, shape<1>(from), shape<1>(len)), shape<3>(len / rows, 1, rows)));
            same_values<T>("process into reshape() along the first axis", u, from, from + len, o0, [&](size_t i) { return (T)(a0[i] * b0[i]); });
        }
        if (!o.intact())
            fail("wrote outside the buffer");
    }
    {
        Buf<T> p(n), q(n);
        std::copy(o0.begin(), o0.end(), p.data());
        std::copy(o0.begin(), o0.end(), q.data());
        univector<T, 0> u = make_univector(p.data(), n), v = make_univector(q.data(), n);
        unpack(u, v) = pack(a + b, b);
        same_values<T>("unpack first", u, 0, n, o0, sum);
        same_values<T>("unpack second", v, 0, n, o0, [&](size_t i) { return b0[i]; });
        pack(v, u) = pack(a, a * b);
        same_values<T>("assigned pack first", v, 0, n, o0, [&](size_t i) { return a0[i]; });
        same_values<T>("assigned pack second", u, 0, n, o0, [&](size_t i) { return (T)(a0[i] * b0[i]); });
        if (!p.intact() || !q.intact())
            fail("unpack wrote outside the buffer");
        univector<vec<T, 3>> three = render(pack(a, b, a + b));
        for (size_t i = 0; i < n && !failed(); ++i)
            if (!(T(three[i][0]) == a0[i] && T(three[i][1]) == b0[i] && T(three[i][2]) == sum(i)))
                fail("pack of three: element %zu is %s", i, as_string(three[i]).c_str());
        univector<vec<T, 2>> rev = render(reverse(pack(a, b)));
        for (size_t i = 0; i < n && !failed(); ++i)
            if (!(T(rev[i][0]) == a0[n - 1 - i] && T(rev[i][1]) == b0[n - 1 - i]))
                fail("reverse of pack: element %zu of %zu is %s", i, n, as_string(rev[i]).c_str());
    }
    {
        // adjacent differences, in any pieces
        univector<T> o(n);
        auto e   = adjacent(fn::sub(), a);
        size_t i = 0;
        while (i < n)
        {
            size_t len = r.chance(0.3) ? n - i : 1 + r.below(n - i);
            process(o, e, shape<1>(i), shape<1>(len));
            i += len;
        }
        same_values<T>("adjacent", o, 0, n, z, [&](size_t i) { return (T)(a0[i] - (i ? a0[i - 1] : T(0))); });
    }
    {
        // sink reads every element once, in order
        size_t calls = 0, bad = 0;
        sink(truncate(lambda<T>([&](size_t i) { bad += i != calls; ++calls; return T(0); }), n));
        stat("assignments");
        if (calls != n || bad)
            fail("sink read %zu elements of %zu, %zu out of order", calls, n, bad);
    }
}
#endif
#if PART == 5
template <typename T>
static void linspaces(Rng& r)
{
    size_t n = pick_size(r);
    T s      = (T)r.range(-1000, 1000) / 8, e = (T)r.range(-1000, 1000) / 8;
    ld tol   = 8 * (ld)eps<T>() * (fabsl(s) + fabsl(e) + 1);
    auto f   = [&](ld den) { return R1([=](S1 i) { return s + ((ld)e - s) * i[0] / den; }); };
    judge(r, "linspace", linspace(s, e, n, false, ctrue), S1{ n }, f(n), tol);
    if (n > 1)
        judge(r, "linspace with end point", linspace(s, e, n, true, ctrue), S1{ n }, f(n - 1), tol);
    judge(r, "infinite linspace", linspace(s, e, n), S1{ (index_t)infinite_size }, f(n), tol * 80);
    if (n > 1)
        judge(r, "symmlinspace", symmlinspace(s, n, ctrue), S1{ n }, R1([=](S1 i) { return -s + 2 * (ld)s * i[0] / (n - 1); }), tol);
    judge(r, "one-point linspace", linspace(s, e, 1, true, ctrue), S1{ 1 }, R1([=](S1) { return (ld)s; }), tol);
}
template <index_t D, index_t Axis>
static void deep(Rng& r)
{
    // assignments in four and more dimensions
    shape<D> s, b(1);
    for (index_t d = 0; d < D; ++d)
        s[d] = 1 + r.below(5);
    s[Axis] = 1 + r.below(40);
    for (index_t d = 0; d < D; ++d)
        b[d] = r.chance(0.5) ? s[d] : 1;
    probe<float, D> a(s, r.next()), c(b, r.next());
    auto ref = Ref<D>([&](shape<D> i) {
        shape<D> j = i;
        for (index_t d = 0; d < D; ++d)
            if (b[d] == 1)
                j[d] = 0;
        return num(a.at(i)) * 2 + num(c.at(j));
    });
    char what[64];
    snprintf(what, sizeof what, "%d dimensions along %d", (int)D, (int)Axis);
    probe_what = what;
    probe_bad  = 0;
    seen(r.next());
    auto e = a * 2.f + c;
    for (int k = 0; k < 4 && !failed(); ++k)
    {
        process_n<0, Axis>(r, what, e, s, false, ref, 0);
        if (!failed())
            process_n<8, Axis>(r, what, e, s, false, ref, 0);
        if (!failed())
            reads_axis<Axis>(r, what, e, s, ref, 0);
    }
}
#endif

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    int reps = thorough() ? 30000 : 1500;
    for (int k = 0; k < reps; ++k)
    {
#if PART == 0
        if (begin("one dimension f32 #%d", k)) { Rng r = case_rng(); one_dim<float>(r); }
        if (begin("one dimension f64 #%d", k)) { Rng r = case_rng(); one_dim<double>(r); }
#elif PART == 1
        if (begin("one dimension i32 #%d", k)) { Rng r = case_rng(); one_dim<i32>(r); }
#elif PART == 2
        if (begin("broadcasting f32 #%d", k)) { Rng r = case_rng(); multi_dim<float>(r); }
        if (begin("broadcasting i32 #%d", k)) { Rng r = case_rng(); multi_dim<i32>(r); }
#elif PART == 3
        if (begin("several dimensions f64 #%d", k)) { Rng r = case_rng(); multi_dim<double>(r); }
#elif PART == 4
        if (begin("containers f32 #%d", k)) { Rng r = case_rng(); containers<float>(r); }
        if (begin("containers i16 #%d", k)) { Rng r = case_rng(); containers<i16>(r); }
#elif PART == 5
        if (begin("containers f64 #%d", k)) { Rng r = case_rng(); containers<double>(r); }
        if (begin("containers complex f32 #%d", k)) { Rng r = case_rng(); containers<complex<float>>(r); }
        if (begin("linspace f32 #%d", k)) { Rng r = case_rng(); linspaces<float>(r); }
        if (begin("linspace f64 #%d", k)) { Rng r = case_rng(); linspaces<double>(r); }
        if (begin("four and more dimensions #%d", k)) { Rng r = case_rng(); deep<4, 3>(r); deep<4, 1>(r); deep<5, 4>(r); deep<5, 0>(r); deep<5, 2>(r); deep<6, 5>(r); }
#endif
    }
    stat("operand_elements", (i64)probe_reads);
    return done();
}
