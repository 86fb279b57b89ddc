// C23: shapes. Exhaustive over small extents (0 to 5 and infinite), random for larger ones.
#include "expr_common.hpp"
#include <kfr/base.hpp>
#include <set>
using namespace vk;
using namespace kfr;
namespace ig = kfr::internal_generic;

#ifndef PART
#define PART 0
#endif
constexpr index_t inf = infinite_size;

template <index_t D>
static shape<D> gen_shape(Rng& r, bool zero, bool infi)
{
    shape<D> s;
    for (index_t i = 0; i < D; ++i)
        s[i] = zero && r.chance(0.05) ? 0 : infi && r.chance(0.15) ? inf : r.chance(0.3) ? 1 : (index_t)r.range(1, 5);
    return s;
}
/// the k-th shape with extents from {0, 1, 2, 3, 4, 5, infinite}
template <index_t D>
static shape<D> nth_shape(u64 k)
{
    shape<D> s;
    for (index_t i = 0; i < D; ++i, k /= 7)
        s[i] = k % 7 == 6 ? inf : k % 7;
    return s;
}
static u64 pow7(index_t n) { return n == 0 ? 1 : 7 * pow7(n - 1); }

// ---- indices ------------------------------------------------------------------------------------------------
template <index_t D>
static void indices(const shape<D>& s)
{
    evals();
    index_t n = 1, sum = 0;
    bool infi = false;
    for (index_t i = 0; i < D; ++i)
        n *= s[i], sum += s[i], infi |= s[i] == inf;
    if (s.has_infinity() != infi)
        return fail("has_infinity of %s", str(s).c_str());
    if (size_of_shape(s) != n || s.product() != n || s.sum() != sum)
        return fail("size, product or sum of %s", str(s).c_str());
    index_t tz = 0;
    while (tz < D && s[D - 1 - tz] == 0)
        ++tz;
    if (s.trailing_zeros() != tz)
        return fail("trailing zeros of %s", str(s).c_str());
    for (index_t i = 0; i < D + 2; ++i)
        if (s.revindex(i) != (i < D ? s[D - 1 - i] : 1))
            return fail("revindex %u of %s", (unsigned)i, str(s).c_str());
    shape<D> rl, rr, tr;
    for (index_t i = 0; i < D; ++i)
        rl[i] = s[(i + 1) % D], rr[i] = s[(i + D - 1) % D], tr[i] = s[D - 1 - i];
    if (!(s.rotate_left() == rl) || !(s.rotate_right() == rr) || !(s.transpose() == tr))
        return fail("rotation or transposition of %s", str(s).c_str());
    if constexpr (D > 1)
    {
        for (index_t i = 0; i + 1 < D; ++i)
            if (s.remove_back()[i] != s[i] || s.trunc()[i] != s[i] || s.remove_front()[i] != s[i + 1])
                return fail("removing an extent of %s", str(s).c_str());
        auto t1 = s.template trim<1>();
        if (t1[0] != s[D - 1])
            return fail("trim of %s", str(s).c_str());
    }
    auto ex = s.template extend<D + 2>();
    auto e1 = s.template extend<D + 1>(1);
    if (ex[0] != inf || ex[1] != inf || e1[0] != 1)
        return fail("extend of %s", str(s).c_str());
    for (index_t i = 0; i < D; ++i)
        if (ex[i + 2] != s[i] || e1[i + 1] != s[i])
            return fail("extend of %s", str(s).c_str());
    dimset mask = s.tomask();
    for (index_t i = 0; i < maximum_dims; ++i)
        if (mask[i] != (i < maximum_dims - D ? 0 : s[i - (maximum_dims - D)] == 1 ? 0 : -1))
            return fail("tomask of %s", str(s).c_str());
    auto arr = s.template to_std_array<size_t>();
    if (!(shape<D>::from_std_array(arr) == s))
        return fail("array conversion of %s", str(s).c_str());
    shape<dynamic_shape> dyn(s);
    if (dyn.size() != D || dyn.product() != n)
        return fail("dynamic shape of %s", str(s).c_str());
    auto dl = dyn.rotate_left(), dr = dyn.rotate_right(), db = dyn.remove_back(), df = dyn.remove_front();
    if (db.size() != D - 1 || df.size() != D - 1)
        return fail("dynamic shape of %s", str(s).c_str());
    for (index_t i = 0; i < D; ++i)
        if (dl[i] != rl[i] || dr[i] != rr[i] || (i + 1 < D && (db[i] != s[i] || df[i] != s[i + 1])))
            return fail("dynamic shape of %s", str(s).c_str());
    for (int fortran = 0; fortran < 2; ++fortran)
    {
        shape<D> st = fortran ? ig::strides_for_shape<D, true>(s) : ig::strides_for_shape<D>(s);
        index_t k   = 1;
        for (index_t i = 0; i < D; ++i)
        {
            index_t d = fortran ? i : D - 1 - i;
            if (st[d] != k)
                return fail("strides of %s", str(s).c_str());
            k *= s[d];
        }
    }
    if (infi)
        return;
    // row-major order: flattening numbers the indices 0, 1, 2... and unflattening gives them back
    if (n > 0)
    {
        shape<D> idx(0), inc(0), st = ig::strides_for_shape<D>(s);
        for (index_t k = 0; k < n; ++k)
        {
            evals();
            if (s.to_flat(idx) != k || !(s.from_flat(k) == idx) || idx.dot(st) != k)
                return fail("index %s of %s: flat %llu, expected %llu, back %s", str(idx).c_str(), str(s).c_str(), (unsigned long long)s.to_flat(idx),
                            (unsigned long long)k, str(s.from_flat(k)).c_str());
            if (!(inc == idx))
                return fail("step %llu of the increments over %s is %s", (unsigned long long)k, str(s).c_str(), str(inc).c_str());
            if (!ig::compare_indices(idx, s))
                return fail("index %s called outside %s", str(idx).c_str(), str(s).c_str());
            shape<D> nx = ig::increment_indices_return(inc, shape<D>(0), s);
            bool more   = ig::increment_indices(inc, shape<D>(0), s);
            if (more != (k + 1 < n) || !(nx == (more ? inc : shape<D>(ig::null_index))) || (!more && !(inc == shape<D>(0))))
                return fail("increment after step %llu over %s", (unsigned long long)k, str(s).c_str());
            next_index(idx, s);
        }
        shape<D> out = s;
        for (index_t d = 0; d < D; ++d)
        {
            shape<D> z(0);
            z[d] = s[d];
            if (ig::compare_indices(z, s))
                return fail("index %s called inside %s", str(z).c_str(), str(s).c_str());
        }
    }
}
/// increments over a window of the indices
template <index_t D>
static void window(Rng& r)
{
    shape<D> a = gen_shape<D>(r, true, false), b = a;
    for (index_t d = 0; d < D; ++d)
        a[d] -= a[d] > 0 && r.chance(0.5), b[d] = a[d] + (index_t)r.range(1, 4);
    seen(hash_bytes(a.data(), sizeof(index_t) * D) * 31 + hash_bytes(b.data(), sizeof(index_t) * D));
    shape<D> cur = a, ref = a;
    for (;;)
    {
        evals();
        bool more = false;
        for (int d = (int)D - 1; d >= 0; --d)
        {
            if (++ref[d] < b[d])
            {
                more = true;
                break;
            }
            ref[d] = a[d];
        }
        bool m = ig::increment_indices(cur, a, b);
        if (m != more || !(cur == ref))
            return fail("increment from %s to %s gives %s, expected %s", str(a).c_str(), str(b).c_str(), str(cur).c_str(), str(ref).c_str());
        if (!more)
            return;
    }
}

// ---- arithmetic ---------------------------------------------------------------------------------------------
template <index_t D>
static void arithmetic(const shape<D>& a, const shape<D>& b)
{
    evals();
    auto add = add_shape(a, b), sub = sub_shape(a, b), au = add_shape_undef(a, b), su = sub_shape_undef(a, b), mi = min(a, b);
    for (index_t i = 0; i < D; ++i)
    {
        index_t x = a[i], y = b[i];
        bool in   = x == inf || y == inf;
        if (add[i] != (in ? inf : x + y) || sub[i] != (in ? inf : x > y ? x - y : 0) || mi[i] != std::min(x, y) ||
            au[i] != (in ? inf : !x || !y ? 0 : x + y) || (in || !x || !y || x >= y ? su[i] != (in ? inf : !x || !y ? 0 : x - y) : false))
            return fail("sum, difference or minimum of %s and %s in dimension %u", str(a).c_str(), str(b).c_str(), (unsigned)i);
        if (size_add(x, y) != (in ? inf : x + y) || size_sub(x, y) != (in ? inf : x > y ? x - y : 0) || size_min(x, y, x) != std::min(x, y))
            return fail("size_add, size_sub or size_min of %llu and %llu", (unsigned long long)x, (unsigned long long)y);
    }
    index_t dot = 0;
    for (index_t i = 0; i < D; ++i)
        dot += a[i] * b[i];
    if (a.dot(b) != dot)
        return fail("dot of %s and %s", str(a).c_str(), str(b).c_str());
    if constexpr (D == 1)
        if (a.ge(b) != (a[0] >= b[0]) || a.le(b) != (a[0] <= b[0]))
            return fail("comparison of %s and %s", str(a).c_str(), str(b).c_str());
    bool same = true;
    for (index_t i = 0; i < D; ++i)
        same &= a[i] == b[i];
    if ((a == b) != same || (a != b) == same)
        fail("equality of %s and %s", str(a).c_str(), str(b).c_str());
}

// ---- broadcasting -------------------------------------------------------------------------------------------
/// 0 incompatible; an extent of 0 gives 0 with anything
static bool combine(index_t x, index_t y, index_t& z)
{
    if (x == 0 || y == 0)
        return z = 0, true;
    if (x == y)
        return z = x, true;
    if (x == 1)
        return z = y, true;
    if (y == 1)
        return z = x, true;
    if (x == inf)
        return z = y, true;
    if (y == inf)
        return z = x, true;
    return false;
}
template <index_t D1, index_t D2, index_t R = const_max(D1, D2)>
static bool combine(const shape<D1>& a, const shape<D2>& b, shape<R>& r)
{
    bool ok = true;
    for (index_t i = 0; i < R; ++i)
    {
        index_t z = 0;
        ok &= combine(a.revindex(i), b.revindex(i), z);
        r[R - 1 - i] = z;
    }
    return ok;
}
template <typename Fn>
static bool throws(Fn&& f)
{
    try
    {
        f();
    }
    catch (const kfr::logic_error&)
    {
        return true;
    }
    return false;
}
template <index_t D1, index_t D2>
static void pair(const shape<D1>& a, const shape<D2>& b)
{
    evals();
    constexpr index_t R = const_max(D1, D2);
    shape<R> expect, got, got2;
    bool ok  = combine(a, b, expect);
    bool thr = throws([&] { got = ig::common_shape<true>(a, b); });
    got2     = ig::common_shape(a, b);
    if (thr == ok)
        return fail("%s and %s: %s", str(a).c_str(), str(b).c_str(), ok ? "refused" : "accepted");
    if (ok && (!(got == expect) || !(got2 == expect)))
        return fail("%s and %s combine to %s, expected %s", str(a).c_str(), str(b).c_str(), str(got).c_str(), str(expect).c_str());
    if (!ok && !(got2 == shape<R>(0)))
        return fail("%s and %s combine to %s", str(a).c_str(), str(b).c_str(), str(got2).c_str());
    if (!(ig::common_shape(b, a) == got2))
        return fail("%s and %s combine differently the other way", str(a).c_str(), str(b).c_str());
    bool can = true;
    for (index_t i = 0; i < R; ++i)
    {
        index_t d = a.revindex(i), s = b.revindex(i);
        can &= s == 1 || s == inf || s == d || d == inf;
    }
    if (ig::can_assign_from(a, b) != can)
        return fail("%s from %s: assignment %s", str(a).c_str(), str(b).c_str(), can ? "refused" : "accepted");
    // the same order in memory when the extents other than one are equal
    std::vector<index_t> x, y;
    for (index_t i = 0; i < D1; ++i)
        if (a[i] != 1)
            x.push_back(a[i]);
    for (index_t i = 0; i < D2; ++i)
        if (b[i] != 1)
            y.push_back(b[i]);
    if (ig::same_layout(a, b) != (x == y))
        return fail("same_layout of %s and %s", str(a).c_str(), str(b).c_str());
    // index of an operand: the only element or the corresponding one
    if constexpr (D1 >= D2)
        if (ok)
        {
            shape<D1> idx;
            for (index_t i = 0; i < D1; ++i)
                idx[i] = expect[i] == inf ? 7 : expect[i] ? expect[i] - 1 : 0;
            auto ad = b.adapt(idx);
            auto am = ig::adapt<D2>(idx, b.tomask());
            for (index_t i = 0; i < D2; ++i)
                if (b[i] && expect[i + D1 - D2])
                {
                    index_t e = b[i] == 1 ? 0 : idx[i + D1 - D2];
                    if (ad[i] != e || am[i] != e)
                        return fail("operand of %s at index %s is read at %s", str(b).c_str(), str(idx).c_str(), str(ad).c_str());
                }
        }
}
template <index_t D1, index_t D2, index_t D3>
static void triple(const shape<D1>& a, const shape<D2>& b, const shape<D3>& c)
{
    evals();
    constexpr index_t R = const_max(D1, D2, D3);
    shape<const_max(D2, D3)> bc;
    shape<R> expect, got, got2;
    bool ok = true;
    // every pair of extents combines (in any order)
    for (index_t i = 0; i < R; ++i)
    {
        index_t z = 0, e = 0;
        index_t x[3] = { a.revindex(i), b.revindex(i), c.revindex(i) };
        index_t fin = 0;
        bool zero = false, infi = false, bad = false;
        for (index_t v : x)
        {
            zero |= v == 0;
            infi |= v == inf;
            if (v > 1 && v != inf)
                bad |= fin > 1 && fin != v, fin = v;
        }
        ok &= !bad || zero;
        z = zero ? 0 : fin > 1 ? fin : infi ? inf : 1;
        (void)e;
        expect[R - 1 - i] = z;
        if (zero && bad)
            return; // an empty and two incompatible extents: either answer
    }
    bool thr = throws([&] { got = ig::common_shape<true>(a, b, c); });
    got2     = ig::common_shape(a, b, c);
    if (thr == ok)
        return fail("%s, %s and %s: %s", str(a).c_str(), str(b).c_str(), str(c).c_str(), ok ? "refused" : "accepted");
    if (ok && (!(got == expect) || !(got2 == expect)))
        return fail("%s, %s and %s combine to %s, expected %s", str(a).c_str(), str(b).c_str(), str(c).c_str(), str(got).c_str(), str(expect).c_str());
}

// ---- expressions --------------------------------------------------------------------------------------------
template <typename T>
struct madd
{
    template <size_t N>
    vec<T, N> operator()(const vec<T, N>& a, const vec<T, N>& b, const vec<T, N>& c) const
    {
        return a * T(10007) + b * T(101) + c;
    }
};
template <typename T, index_t D, index_t R>
static T operand(const probe<T, D>& p, const shape<R>& idx)
{
    shape<D> i;
    for (index_t d = 0; d < D; ++d)
        i[d] = p.sh[d] == 1 ? 0 : idx[d + R - D];
    return p.at(i);
}
template <typename T, index_t D1, index_t D2, index_t D3>
static void expressions(Rng& r)
{
    constexpr index_t R = const_max(D1, D2, D3);
    shape<R> full;
    for (index_t d = 0; d < R; ++d)
        full[d] = (index_t)r.range(1, d + 1 == R ? 24 : 4);
    auto part = [&](auto& s)
    {
        constexpr index_t D = std::decay_t<decltype(s)>::dims();
        for (index_t d = 0; d < D; ++d)
            s[d] = r.chance(0.35) ? 1 : r.chance(0.03) ? full[d + R - D] + 1 : full[d + R - D];
    };
    shape<D1> s1;
    shape<D2> s2;
    shape<D3> s3;
    part(s1), part(s2), part(s3);
    probe<T, D1> a(s1, r.next());
    probe<T, D2> b(s2, r.next());
    probe<T, D3> c(s3, r.next());
    seen(hash_bytes(s1.data(), sizeof s1) * 31 + hash_bytes(s2.data(), sizeof s2) * 17 + hash_bytes(s3.data(), sizeof s3));
    probe_what = "function of three operands";
    probe_bad  = 0;
    auto e = bind_expression(madd<T>(), a, b, c);
    bool bad = false;
    for (index_t i = 0; i < R; ++i)
    {
        index_t x[3] = { s1.revindex(i), s2.revindex(i), s3.revindex(i) }, fin = 1;
        for (index_t v : x)
            if (v > 1)
                bad |= fin > 1 && fin != v, fin = v;
        full[R - 1 - i] = fin;
    }
    evals();
    std::string what = str(s1) + " " + str(s2) + " " + str(s3);
    if (bad)
    {
        shape<R> sh;
        if (!throws([&] { sh = get_shape(e); }))
            fail("operands %s were accepted, as %s", what.c_str(), str(sh).c_str());
        return;
    }
    if (!(get_shape(e) == full))
        return fail("the shape of a function of %s is %s", what.c_str(), str(get_shape(e)).c_str());
    recorder<T, R> out(full);
    switch (r.range(0, 2))
    {
    case 0: process<0>(out, e); break;
    case 1: process<0, 0>(out, e); break;
    default: process<1>(out, e); break;
    }
    if (probe_bad)
        return;
    shape<R> idx(0);
    index_t k = 0;
    do
    {
        T x = operand(a, idx) * T(10007) + operand(b, idx) * T(101) + operand(c, idx);
        if (out.writes[k] != 1 || out.value[k] != x)
            return fail("function of %s at %s: written %d times, %g expected %g", what.c_str(), str(idx).c_str(), out.writes[k], (double)out.value[k], (double)x);
        ++k;
    } while (next_index(idx, full));
    if (out.outside)
        return fail("function of %s: written at %s", what.c_str(), str(out.where).c_str());
    // assigned to an output of a larger, equal or unsuitable shape
    shape<R> os;
    bool can = true;
    for (index_t d = 0; d < R; ++d)
    {
        os[d] = r.chance(0.1) ? full[d] + 1 : full[d];
        can &= full[d] == 1 || os[d] == full[d];
    }
    if (!can)
    {
        recorder<T, R> out2(os);
        process<0>(out2, e);
        int n = out2.outside;
        for (int w : out2.writes)
            n += w;
        if (n)
            fail("function of %s was written to an output of %s", what.c_str(), str(os).c_str());
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
#if PART == 0
    for (u64 k = 0; k < pow7(4); k += 49)
    {
        if (!begin("indices #%llu", (unsigned long long)k))
            continue;
        seen(k);
        for (u64 j = k; j < k + 49; ++j)
        {
            if (j < 7)
                indices(nth_shape<1>(j));
            if (j < 49)
                indices(nth_shape<2>(j));
            if (j < 343)
                indices(nth_shape<3>(j));
            indices(nth_shape<4>(j));
        }
    }
    for (u64 k = 0; k < pow7(6); k += 343)
    {
        if (!begin("pairs #%llu", (unsigned long long)k))
            continue;
        for (u64 j = k; j < k + 343; ++j)
        {
            seen(1000003 * j + 1);
            if (j < pow7(4))
            {
                arithmetic(nth_shape<2>(j), nth_shape<2>(j / 49));
                pair(nth_shape<2>(j), nth_shape<2>(j / 49));
            }
            if (j < pow7(5))
                pair(nth_shape<2>(j), nth_shape<3>(j / 49)), pair(nth_shape<3>(j), nth_shape<2>(j / 343)), pair(nth_shape<4>(j), nth_shape<1>(j / 2401)),
                    pair(nth_shape<1>(j), nth_shape<4>(j / 7));
            if (j < pow7(3))
                pair(nth_shape<1>(j), nth_shape<2>(j / 7)), pair(nth_shape<2>(j), nth_shape<1>(j / 49)), triple(nth_shape<1>(j), nth_shape<1>(j / 7), nth_shape<1>(j / 49));
            if (j < pow7(2))
                arithmetic(nth_shape<1>(j), nth_shape<1>(j / 7)), pair(nth_shape<1>(j), nth_shape<1>(j / 7));
            pair(nth_shape<3>(j), nth_shape<3>(j / 343));
            arithmetic(nth_shape<3>(j), nth_shape<3>(j / 343));
            triple(nth_shape<2>(j), nth_shape<2>(j / 49), nth_shape<2>(j / 2401));
            if (j < pow7(5))
                triple(nth_shape<2>(j), nth_shape<1>(j / 49), nth_shape<2>(j / 343)), triple(nth_shape<1>(j), nth_shape<2>(j / 7), nth_shape<2>(j / 343)),
                    triple(nth_shape<2>(j), nth_shape<2>(j / 49), nth_shape<1>(j / 2401));
        }
    }
    int reps = thorough() ? 20000 : 2000;
    for (int k = 0; k < reps; ++k)
    {
        if (!begin("random #%d", k))
            continue;
        Rng r = case_rng();
        for (int i = 0; i < 20; ++i)
        {
            auto a = gen_shape<4>(r, true, true);
            auto b = gen_shape<4>(r, true, true);
            auto c = gen_shape<3>(r, true, true);
            auto d = gen_shape<5>(r, true, true);
            auto f = gen_shape<6>(r, true, true);
            seen(hash_bytes(a.data(), sizeof a) ^ hash_bytes(b.data(), sizeof b) * 3);
            pair(a, b), pair(a, c), pair(c, a), pair(d, a), pair(c, d), pair(f, d), arithmetic(a, b);
            triple(a, b, c), triple(c, d, f), triple(c, b, a);
            indices(gen_shape<5>(r, true, false)), indices(gen_shape<6>(r, true, false));
            window<1>(r), window<2>(r), window<3>(r), window<4>(r), window<5>(r);
        }
    }
#else
    int reps = thorough() ? 400000 : 30000;
    for (int k = 0; k < reps; ++k)
    {
        if (!begin("expressions #%d", k))
            continue;
        Rng r = case_rng();
        expressions<i32, 1, 1, 1>(r);
        expressions<i32, 2, 1, 2>(r);
        expressions<i32, 1, 2, 2>(r);
        expressions<i32, 2, 2, 2>(r);
        expressions<i32, 3, 2, 1>(r);
        expressions<i32, 1, 2, 3>(r);
        expressions<i32, 3, 3, 3>(r);
        expressions<i32, 1, 4, 2>(r);
        expressions<i32, 4, 4, 4>(r);
        expressions<i32, 3, 5, 4>(r);
        expressions<i32, 1, 1, 6>(r);
    }
    stat("operand_elements", (i64)probe_reads);
#endif
    return done();
}
