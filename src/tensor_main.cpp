// C22: tensor views. Random histories of views over shared storage; a model of plain index arithmetic says which
// element each view element is, what the storage holds and which storage must still be alive.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <memory>
#include <variant>
using namespace vk;
using namespace kfr;

#ifndef PART
#define PART 0
#endif
static i64 g_released;
#ifdef VK_SANITIZED
constexpr i64 huge_step = 1000; // the stride of the only element overflows otherwise, which is harmless
#else
constexpr i64 huge_step = INT64_MAX;
#endif

template <typename T>
struct Store
{
    std::vector<T> model;
    T* base = nullptr;
    bool internal = false;
    std::unique_ptr<Buf<T>> buf; // external storage
    int released = 0;
};
template <typename T>
struct Model
{
    std::shared_ptr<Store<T>> st;
    std::vector<i64> shape, offs;
    bool alias = false;
    bool canonical() const
    {
        for (size_t i = 1; i < offs.size(); ++i)
            if (offs[i] != offs[i - 1] + 1)
                return false;
        return true;
    }
    i64 size() const { return (i64)offs.size(); }
};
template <typename T, index_t D>
using tp = std::unique_ptr<tensor<T, D>>;
template <typename T>
struct View
{
    std::variant<tp<T, 1>, tp<T, 2>, tp<T, 3>, tp<T, 4>> t;
    Model<T> m;
};

template <typename T>
static T val(i64 x)
{
    return T(x % 1000);
}
static std::string vstr(const std::vector<i64>& v)
{
    std::string s = "{";
    for (auto x : v)
        s += std::to_string(x) + ",";
    return s + "}";
}
template <index_t D>
static shape<D> mk(const std::vector<i64>& v)
{
    shape<D> s;
    for (index_t i = 0; i < D; ++i)
        s[i] = (index_t)v[i];
    return s;
}
template <index_t D>
static std::vector<i64> unmk(const shape<D>& v)
{
    std::vector<i64> s;
    for (index_t i = 0; i < D; ++i)
        s.push_back((i64)v[i]);
    return s;
}
static i64 prod(const std::vector<i64>& v)
{
    i64 n = 1;
    for (auto x : v)
        n *= x;
    return n;
}
template <index_t D>
static shape<D> unflat(const std::vector<i64>& sh, i64 k)
{
    shape<D> s;
    for (index_t i = D; i-- > 0;)
        s[i] = (index_t)(k % sh[i]), k /= sh[i];
    return s;
}
template <typename T, index_t D, size_t... I>
static T& call_index(const tensor<T, D>& t, const shape<D>& s, std::index_sequence<I...>)
{
    return t(s[I]...);
}

static i64 one_of(Rng& r, std::initializer_list<i64> l) { return l.begin()[r.range(0, (i64)l.size() - 1)]; }
template <typename T, index_t D>
static tensor<T, D> view_of(const tensor<T, D>& t)
{
    return t;
}
static const char* g_op = "";
static std::string g_ctx;

template <typename T>
static bool store_ok(const Store<T>& s)
{
    for (size_t i = 0; i < s.model.size(); ++i)
        if (!(s.base[i] == s.model[i]))
        {
            fail("%s: element %zu of the storage is not the one written (%s)", g_op, i, g_ctx.c_str());
            return false;
        }
    if (s.buf && !s.buf->intact())
    {
        fail("%s: outside the storage was written (%s)", g_op, g_ctx.c_str());
        return false;
    }
    return true;
}

template <typename T, index_t D, index_t Axis, size_t N>
static void check_elements(const tensor<T, D>& t, const Model<T>& m, Rng& r)
{
    if (m.size() == 0 || m.shape[Axis] < (i64)N)
        return;
    shape<D> at = unflat<D>(m.shape, r.range(0, m.size() - 1));
    at[Axis]    = (index_t)r.range(0, m.shape[Axis] - (i64)N);
    vec<T, N> v = get_elements(t, at, axis_params<Axis, N>());
    evals();
    for (size_t i = 0; i < N; ++i)
    {
        i64 k = 0;
        for (index_t d = 0; d < D; ++d)
            k = k * m.shape[d] + (i64)at[d] + (d == Axis ? (i64)i : 0);
        if (!(T(v[i]) == m.st->model[m.offs[k]]))
            return fail("get_elements: %zu elements along axis %u read a wrong element (%s)", N, (unsigned)Axis, g_ctx.c_str());
    }
}
template <typename T, index_t D, index_t Axis, size_t N>
static void write_elements(const tensor<T, D>& t, Model<T>& m, Rng& r)
{
    if (m.size() == 0 || m.shape[Axis] < (i64)N)
        return;
    shape<D> at = unflat<D>(m.shape, r.range(0, m.size() - 1));
    at[Axis]    = (index_t)r.range(0, m.shape[Axis] - (i64)N);
    vec<T, N> v;
    for (size_t i = 0; i < N; ++i)
        v[i] = val<T>(r.range(0, 999));
    set_elements(t, at, axis_params<Axis, N>(), v);
    for (size_t i = 0; i < N; ++i)
    {
        i64 k = 0;
        for (index_t d = 0; d < D; ++d)
            k = k * m.shape[d] + (i64)at[d] + (d == Axis ? (i64)i : 0);
        m.st->model[m.offs[k]] = T(v[i]);
    }
}

template <typename T, index_t D>
static void check_view(const tensor<T, D>& t, const Model<T>& m, Rng& r)
{
    evals();
    if (m.st->released)
        return fail("%s: the storage was released while a view of it was alive", g_op);
    if (unmk<D>(t.shape()) != m.shape)
        return fail("%s: shape %s expected %s (%s)", g_op, vstr(unmk<D>(t.shape())).c_str(), vstr(m.shape).c_str(), g_ctx.c_str());
    if ((i64)t.size() != m.size() || t.empty() != (m.size() == 0))
        return fail("%s: size %lld expected %lld (%s)", g_op, (long long)t.size(), (long long)m.size(), g_ctx.c_str());
    if (t.is_contiguous() && !m.canonical())
        return fail("%s: called contiguous (%s)", g_op, g_ctx.c_str());
    const T* base = m.st->base;
    i64 k = 0;
    for (i64 o : m.offs)
    {
        shape<D> s = unflat<D>(m.shape, k);
        if (&t.access(s) != base + o || &call_index(t, s, std::make_index_sequence<D>()) != base + o)
            return fail("%s: element %s of the view is storage element %lld, expected %lld (%s)", g_op, vstr(unmk<D>(s)).c_str(),
                        (long long)(&t.access(s) - base), (long long)o, g_ctx.c_str());
        ++k;
    }
    k = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++k)
        if (k >= m.size() || &*it != base + m.offs[k])
            return fail("%s: iterator step %lld is at a wrong element (%s)", g_op, (long long)k, g_ctx.c_str());
    if (k != m.size())
        return fail("%s: iterator made %lld steps of %lld (%s)", g_op, (long long)k, (long long)m.size(), g_ctx.c_str());
    if (t.is_contiguous() && m.size())
    {
        if (&*t.contiguous_begin() != base + m.offs[0] || t.contiguous_end() - t.contiguous_begin() != m.size() ||
            &t[m.size() / 2] != base + m.offs[m.size() / 2])
            return fail("%s: contiguous range is elsewhere (%s)", g_op, g_ctx.c_str());
    }
    switch (r.range(0, 5))
    {
    case 0: check_elements<T, D, 0, 1>(t, m, r); break;
    case 1: check_elements<T, D, D - 1, 2>(t, m, r); break;
    case 2: check_elements<T, D, 0, 2>(t, m, r); break;
    case 3: check_elements<T, D, D / 2, 4>(t, m, r); break;
    case 4: check_elements<T, D, 0, 4>(t, m, r); break;
    default: check_elements<T, D, D - 1, 8>(t, m, r); break;
    }
}

// ---- slices -------------------------------------------------------------------------------------------------
struct Sel
{
    bool isrange;
    i64 index;
    tensor_range range;
};
static std::optional<i64> opt(Rng& r, i64 n)
{
    switch (r.range(0, 7))
    {
    case 0:
    case 1: return {};
    case 2: return one_of(r, { (i64)-1, (i64)0, (i64)1, n, n - 1, -n, -n - 1 });
    case 3: return r.chance(0.2) ? one_of(r, { INT64_MAX, INT64_MIN / 2, (i64)1 << 40, -((i64)1 << 40) }) : r.range(-2 * n - 2, 2 * n + 2);
    default: return r.range(-n - 1, n + 1);
    }
}
/// the elements python's a[start:stop:step] selects
static std::vector<i64> python(i64 n, std::optional<i64> a, std::optional<i64> b, i64 step)
{
    std::vector<i64> out;
    i64 lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
    auto norm = [&](i64 x) { x = x < 0 ? std::max(x, -2 * n - 5) + n : x; return std::min(std::max(x, lo), hi); };
    i64 s = a ? norm(*a) : step > 0 ? lo : hi, e = b ? norm(*b) : step > 0 ? hi : lo;
    if (step > 0)
        for (i64 i = s; i < e; i += step)
        {
            out.push_back(i);
            if (step > n)
                break;
        }
    else
        for (i64 i = s; i > e; i += step)
        {
            out.push_back(i);
            if (step < -n)
                break;
        }
    return out;
}
template <typename T, index_t D, size_t K, unsigned Mask, size_t... I>
static auto do_slice(const tensor<T, D>& t, const Sel* s, std::index_sequence<I...>)
{
    auto get = [&](auto c)
    {
        if constexpr ((Mask >> decltype(c)::value) & 1)
            return s[decltype(c)::value].range;
        else
            return (index_t)s[decltype(c)::value].index;
    };
    return t(get(std::integral_constant<size_t, I>())...);
}
template <typename T, index_t D>
static void put(std::vector<View<T>>& out, tensor<T, D>&& t, Model<T>&& m, Rng& r)
{
    if (r.chance(0.5))
        out.push_back(View<T>{ std::make_unique<tensor<T, D>>(std::move(t)), std::move(m) });
    else
        out.push_back(View<T>{ std::make_unique<tensor<T, D>>(t), std::move(m) });
}
template <typename T, index_t D, size_t K, unsigned Mask>
static void slice_one(std::vector<View<T>>& out, const tensor<T, D>& t, const Sel* s, Model<T>&& m, Rng& r)
{
    put(out, do_slice<T, D, K, Mask>(t, s, std::make_index_sequence<K>()), std::move(m), r);
}
template <typename T, index_t D>
using slice_fn = void (*)(std::vector<View<T>>&, const tensor<T, D>&, const Sel*, Model<T>&&, Rng&);

template <typename T, index_t D, size_t K, size_t... M>
static slice_fn<T, D> slice_pick(unsigned mask, std::index_sequence<M...>)
{
    slice_fn<T, D> f = nullptr;
    auto one = [&](auto c)
    {
        constexpr unsigned mm = decltype(c)::value;
        if constexpr (mm < (1u << K) && (K < D || mm != 0))
            if (mm == mask)
                f = &slice_one<T, D, K, mm>;
    };
    (one(std::integral_constant<unsigned, M>()), ...);
    return f;
}
template <typename T, index_t D>
static void op_slice(std::vector<View<T>>& out, const tensor<T, D>& t, const Model<T>& m, Rng& r)
{
    size_t K = (size_t)r.range(1, D);
    unsigned mask = (unsigned)r.range(0, (1 << K) - 1);
    Sel sel[4];
    Model<T> nm;
    nm.st = m.st, nm.alias = m.alias;
    std::vector<std::vector<i64>> pick(D);
    g_ctx = "of " + vstr(m.shape) + " ";
    for (size_t d = 0; d < D; ++d)
    {
        i64 n = m.shape[d];
        if (d >= K)
        {
            for (i64 i = 0; i < n; ++i)
                pick[d].push_back(i);
            nm.shape.push_back(n);
            continue;
        }
        if (!((mask >> d) & 1) && n == 0)
            mask |= 1u << d;
        sel[d].isrange = (mask >> d) & 1;
        if (!sel[d].isrange)
        {
            i64 i        = r.range(0, n - 1);
            pick[d]      = { i };
            sel[d].index = r.chance(0.4) ? i - n : i;
            g_ctx += std::to_string(sel[d].index) + " ";
            continue;
        }
        if (n > 0 && r.chance(0.06))
        {
            i64 a = r.range(0, n - 1), len = r.range(0, 9);
            pick[d].assign(len, a);
            sel[d].range = trange(r.chance(0.3) ? a - n : a, a + len, 0);
            nm.alias     = true;
            g_ctx += "repeat ";
        }
        else
        {
            i64 st = r.chance(0.6) ? one_of(r, { (i64)1, (i64)1, (i64)2, (i64)-1, (i64)-1, (i64)-2, (i64)3, (i64)-3 })
                                   : r.chance(0.05) ? one_of(r, { huge_step, -huge_step, 100 }) : r.range(1, n + 2) * (r.chance(0.5) ? 1 : -1);
            auto a = opt(r, n), b = opt(r, n);
            std::optional<i64> so = st;
            if (st == 1 && r.chance(0.5))
                so = {};
            sel[d].range = !a && !b && !so && r.chance(0.5)   ? tall()
                           : !b && r.chance(0.5) && a           ? tstart(*a, st)
                           : !a && r.chance(0.5) && b           ? tstop(*b, st)
                           : !a && !b && r.chance(0.5)          ? tstep(st)
                                                                : trange(a, b, so);
            pick[d] = python(n, a, b, st);
            g_ctx += (a ? std::to_string(*a) : "") + ":" + (b ? std::to_string(*b) : "") + ":" + std::to_string(st) + " ";
        }
        nm.shape.push_back((i64)pick[d].size());
    }
    std::vector<i64> cnt;
    for (auto& p : pick)
        cnt.push_back((i64)p.size());
    for (i64 k = 0, n = prod(cnt); k < n; ++k)
    {
        shape<D> s = unflat<D>(cnt, k);
        i64 o = 0;
        for (index_t d = 0; d < D; ++d)
            o = o * m.shape[d] + pick[d][s[d]];
        nm.offs.push_back(m.offs[o]);
    }
    if (mask == 0 && K == D)
        return;
    slice_fn<T, D> f = K == 1   ? slice_pick<T, D, 1>(mask, std::make_index_sequence<2>())
                       : K == 2 ? slice_pick<T, D, const_min(size_t(2), size_t(D))>(mask, std::make_index_sequence<4>())
                       : K == 3 ? slice_pick<T, D, const_min(size_t(3), size_t(D))>(mask, std::make_index_sequence<8>())
                                : slice_pick<T, D, const_min(size_t(4), size_t(D))>(mask, std::make_index_sequence<16>());
    if (!f)
        return;
    f(out, t, sel, std::move(nm), r);
}

// ---- shapes -------------------------------------------------------------------------------------------------
static std::vector<i64> factor(Rng& r, i64 n, size_t D)
{
    std::vector<i64> s(D, 1);
    if (n == 0)
    {
        for (auto& x : s)
            x = r.range(0, 3);
        s[r.range(0, (i64)D - 1)] = 0;
        return s;
    }
    for (i64 p = 2; n > 1; ++p)
        while (n % p == 0)
            s[r.range(0, (i64)D - 1)] *= p, n /= p;
    return s;
}
template <typename T>
static std::shared_ptr<Store<T>> internal_store(T* base, const std::vector<T>& values)
{
    auto st      = std::make_shared<Store<T>>();
    st->base     = base;
    st->internal = true;
    st->model    = values;
    return st;
}
template <typename T>
static std::vector<T> values_of(const Model<T>& m)
{
    std::vector<T> v;
    for (i64 o : m.offs)
        v.push_back(m.st->model[o]);
    return v;
}
template <typename T>
static Model<T> fresh(T* base, const std::vector<T>& values, std::vector<i64> sh)
{
    Model<T> nm;
    nm.st    = internal_store<T>(base, values);
    nm.shape = std::move(sh);
    for (i64 i = 0; i < (i64)values.size(); ++i)
        nm.offs.push_back(i);
    return nm;
}
template <typename T, index_t D, index_t D2>
static void op_reshape(std::vector<View<T>>& out, const tensor<T, D>& t, const Model<T>& m, Rng& r)
{
    Model<T> nm;
    nm.st = m.st, nm.alias = m.alias, nm.offs = m.offs;
    nm.shape    = factor(r, m.size(), D2);
    bool flat   = D2 == 1 && r.chance(0.5);
    bool copy   = r.chance(0.5);
    g_ctx       = vstr(m.shape) + " to " + vstr(nm.shape);
    if (r.chance(0.15))
    {
        std::vector<i64> bad = nm.shape;
        bad[r.range(0, (i64)D2 - 1)] += r.range(1, 3);
        if (prod(bad) != m.size())
        {
            bool thrown = false;
            try
            {
                tensor<T, D2> x = copy ? t.template reshape_may_copy<D2>(mk<D2>(bad)) : t.template reshape<D2>(mk<D2>(bad));
            }
            catch (const std::exception&)
            {
                thrown = true;
            }
            evals();
            if (!thrown)
                fail("reshape %s to %s of another size was accepted", vstr(m.shape).c_str(), vstr(bad).c_str());
            return;
        }
    }
    try
    {
        if (flat)
        {
            if constexpr (D2 == 1)
            {
                tensor<T, 1> x = copy ? t.flatten_may_copy() : t.flatten();
                if (!t.is_contiguous())
                    nm = fresh<T>(x.data(), values_of(m), nm.shape);
                put(out, std::move(x), std::move(nm), r);
            }
        }
        else
        {
            tensor<T, D2> x = copy ? t.template reshape_may_copy<D2>(mk<D2>(nm.shape)) : t.template reshape<D2>(mk<D2>(nm.shape));
            if (!t.is_contiguous())
                nm = fresh<T>(x.data(), values_of(m), nm.shape);
            put(out, std::move(x), std::move(nm), r);
        }
        if (!copy && !t.is_contiguous())
            fail("reshape without a copy of a view which is not contiguous was accepted (%s)", g_ctx.c_str());
    }
    catch (const std::exception& e)
    {
        if (copy || t.is_contiguous())
            fail("reshape failed: %s (%s)", e.what(), g_ctx.c_str());
    }
}

template <typename T, index_t D>
static void op(std::vector<View<T>>& views, size_t which, tensor<T, D>& t, Model<T>& m, Rng& r)
{
    g_ctx = "of " + vstr(m.shape);
    bool big = m.size() > 600;
    switch (r.range(0, 25))
    {
    default:
        g_op = "slice";
        op_slice<T, D>(views, t, m, r);
        break;
    case 1:
    {
        g_op = "transpose";
        Model<T> nm;
        nm.st = m.st, nm.alias = m.alias;
        nm.shape.assign(m.shape.rbegin(), m.shape.rend());
        for (i64 k = 0; k < m.size(); ++k)
        {
            shape<D> s = unflat<D>(nm.shape, k);
            i64 o = 0;
            for (index_t d = 0; d < D; ++d)
                o = o * m.shape[d] + s[D - 1 - d];
            nm.offs.push_back(m.offs[o]);
        }
        put(views, t.transpose(), std::move(nm), r);
        break;
    }
    case 2: g_op = "reshape"; op_reshape<T, D, 1>(views, t, m, r); break;
    case 3: g_op = "reshape"; op_reshape<T, D, 2>(views, t, m, r); break;
    case 4: g_op = "reshape"; op_reshape<T, D, 3>(views, t, m, r); break;
    case 5: g_op = "reshape"; op_reshape<T, D, 4>(views, t, m, r); break;
    case 6:
    {
        g_op = "copy";
        tensor<T, D> x = t.copy();
        auto nm = fresh<T>(x.data(), values_of(m), m.shape);
        put(views, std::move(x), std::move(nm), r);
        break;
    }
    case 7:
    {
        g_op = "copy of the view";
        tensor<T, D> x(t);
        put(views, std::move(x), Model<T>(m), r);
        break;
    }
    case 8:
    {
        // assignment of one view to another of the same number of dimensions
        g_op = "assignment";
        size_t other = (size_t)r.range(0, (i64)views.size() - 1);
        if (r.chance(0.3))
            other = which;
        if (auto* p = std::get_if<tp<T, D>>(&views[other].t))
        {
            tensor<T, D>& o = **p;
            Model<T> om = views[other].m;
            if (r.chance(0.5))
                o = t;
            else if (r.chance(0.5))
                o = static_cast<const tensor<T, D>&>(t);
            else
            {
                tensor<T, D> tmp(t);
                o = std::move(tmp);
            }
            Model<T> mm = m;
            views[other].m = std::move(mm);
        }
        break;
    }
    case 9:
    {
        g_op = "fill";
        if (m.st->model.empty())
            break;
        T v = val<T>(r.range(0, 999));
        const tensor<T, D>& c = t;
        if (r.chance(0.5))
            c = v;
        else
            view_of(t) = v;
        for (i64 o : m.offs)
            m.st->model[o] = v;
        break;
    }
    case 10:
    {
        g_op = "write one";
        if (m.size() == 0)
            break;
        i64 k = r.range(0, m.size() - 1);
        T v   = val<T>(r.range(0, 999));
        t.access(unflat<D>(m.shape, k)) = v;
        m.st->model[m.offs[k]] = v;
        break;
    }
    case 11:
    {
        if (m.alias || big)
            break;
        g_op = "assign the elements of another tensor";
        std::vector<T> v;
        for (i64 i = 0; i < m.size(); ++i)
            v.push_back(val<T>(r.range(0, 999)));
        tensor<T, D> src(mk<D>(m.shape));
        std::copy(v.begin(), v.end(), src.data());
        bool strided = r.chance(0.5) && D > 1;
        if (strided)
        {
            // the same elements through a transposed copy
            tensor<T, D> tr = src.transpose().copy().transpose();
            const tensor<T, D>& c = t;
            c = tr;
        }
        else if (r.chance(0.3))
            t.copy_from(src);
        else if (r.chance(0.3))
            t.assign(src);
        else
        {
            view_of(t) = src;
        }
        for (i64 i = 0; i < m.size(); ++i)
            m.st->model[m.offs[i]] = v[i];
        break;
    }
    case 12:
    {
        if (m.alias)
            break;
        g_op = "assign an expression";
        tensor<T, D> src(mk<D>(m.shape));
        for (i64 i = 0; i < m.size(); ++i)
            src.data()[i] = val<T>(r.range(0, 400));
        std::vector<T> v(src.data(), src.data() + m.size());
        if (r.chance(0.4))
            t = src + src;
        else if (r.chance(0.5))
        {
            const tensor<T, D>& c = t;
            c = src + src;
        }
        else
            view_of(t) = src + src;
        for (i64 i = 0; i < m.size(); ++i)
            m.st->model[m.offs[i]] = v[i] + v[i];
        break;
    }
    case 13:
    {
        if (m.alias)
            break;
        g_op = "unary_inplace";
        t.unary_inplace(+[](T x) { return x + T(1); });
        for (i64 o : m.offs)
            m.st->model[o] = m.st->model[o] + T(1);
        break;
    }
    case 14:
    {
        if (m.alias || big)
            break;
        g_op = "binary_inplace";
        tensor<T, D> src(mk<D>(m.shape));
        for (i64 i = 0; i < m.size(); ++i)
            src.data()[i] = val<T>(r.range(0, 400));
        if (r.chance(0.5) && D > 1)
            t.binary_inplace(src.transpose().copy().transpose(), +[](T x, T y) { return y - x; });
        else
            t.binary_inplace(src, +[](T x, T y) { return y - x; });
        for (i64 i = 0; i < m.size(); ++i)
            m.st->model[m.offs[i]] = src.data()[i] - m.st->model[m.offs[i]];
        break;
    }
    case 15:
    {
        g_op = "map";
        tensor<T, D> x = t.map(+[](T v) { return v + v; });
        std::vector<T> v = values_of(m);
        for (auto& e : v)
            e = e + e;
        auto nm = fresh<T>(x.data(), v, m.shape);
        put(views, std::move(x), std::move(nm), r);
        break;
    }
    case 16:
    {
        g_op = "reduce";
        T s = t.reduce(+[](T a, T b) { return a + b; }, T(5));
        T e = T(5);
        for (auto& x : values_of(m))
            e = x + e;
        evals();
        if (!(s == e))
            fail("reduce of a view gives another sum (%s)", g_ctx.c_str());
        i64 k = 0;
        t.iterate(
            [&](T& x, const shape<D>& idx)
            {
                if (k >= m.size() || &x != m.st->base + m.offs[k] || !(idx == unflat<D>(m.shape, k)))
                    fail("iterate visits a wrong element (%s)", g_ctx.c_str());
                ++k;
            });
        if (k != m.size())
            fail("iterate visited %lld elements of %lld", (long long)k, (long long)m.size());
        tensor<f64, D> c = t.map(+[](T x) { return (f64)std::abs(x); });
        k = 0;
        for (auto& x : values_of(m))
            if (k++, c.data()[k - 1] != (f64)std::abs(x))
                return fail("map to another type gives a wrong element (%s)", g_ctx.c_str());
        break;
    }
    case 17:
    {
        g_op = "binary";
        tensor<T, D> x = t.binary(t.copy(), +[](T a, T b) { return a + b; });
        std::vector<T> v = values_of(m);
        for (auto& e : v)
            e = e + e;
        auto nm = fresh<T>(x.data(), v, m.shape);
        put(views, std::move(x), std::move(nm), r);
        break;
    }
    case 18:
    {
        g_op = "trender";
        tensor<T, D> x = r.chance(0.5) ? trender(t + t) : tensor<T, D>(t + t);
        std::vector<T> v = values_of(m);
        for (auto& e : v)
            e = e + e;
        auto nm = fresh<T>(x.data(), v, m.shape);
        put(views, std::move(x), std::move(nm), r);
        break;
    }
    case 19:
    {
        g_op = "comparison";
        const tensor<T, D> c = t.copy(), &ct = t;
        evals();
        if (!c.operator==(ct) || c.operator!=(ct))
            fail("a copy differs from the view (%s)", g_ctx.c_str());
        if (m.size())
        {
            i64 k = r.range(0, m.size() - 1);
            c.data()[k] = c.data()[k] + T(1);
            if (c.operator==(ct) || !ct.operator!=(c))
                fail("a changed copy equals the view (%s)", g_ctx.c_str());
        }
        if (m.size() == 6)
        {
            auto a = t.template to_array<6>();
            auto v = values_of(m);
            for (int i = 0; i < 6; ++i)
                if (!(a[i] == v[i]))
                    return fail("to_array gives wrong elements (%s)", g_ctx.c_str());
        }
        break;
    }
    case 20:
    {
        g_op = "window";
        Model<T> nm;
        nm.st = m.st, nm.alias = m.alias;
        shape<D> a, b;
        for (index_t d = 0; d < D; ++d)
        {
            i64 x = r.range(0, m.shape[d]), y = r.range(x, m.shape[d]);
            a[d] = x, b[d] = y;
            nm.shape.push_back(y - x);
        }
        for (i64 k = 0, n = prod(nm.shape); k < n; ++k)
        {
            shape<D> s = unflat<D>(nm.shape, k);
            i64 o = 0;
            for (index_t d = 0; d < D; ++d)
                o = o * m.shape[d] + (i64)(a[d] + s[d]);
            nm.offs.push_back(m.offs[o]);
        }
        put(views, t(a, b), std::move(nm), r);
        break;
    }
    case 21:
    {
        g_op = "nested iteration";
        if constexpr (D > 1)
        {
            i64 row = 0, n = m.shape[0] ? m.size() / m.shape[0] : 0;
            for (auto it = t.nested_begin(); it != t.nested_end(); ++it, ++row)
            {
                Model<T> nm;
                nm.st = m.st, nm.alias = m.alias;
                nm.shape.assign(m.shape.begin() + 1, m.shape.end());
                nm.offs.assign(m.offs.begin() + row * n, m.offs.begin() + (row + 1) * n);
                tensor<T, D - 1> x = *it;
                check_view<T, D - 1>(x, nm, r);
                if (failed())
                    return;
            }
            if (row != m.shape[0])
                fail("nested iteration made %lld steps of %lld", (long long)row, (long long)m.shape[0]);
        }
        break;
    }
    case 22:
        g_op = "set_elements";
        if (m.alias)
            break;
        switch (r.range(0, 3))
        {
        case 0: write_elements<T, D, 0, 2>(t, m, r); break;
        case 1: write_elements<T, D, D - 1, 4>(t, m, r); break;
        case 2: write_elements<T, D, D / 2, 1>(t, m, r); break;
        default: write_elements<T, D, 0, 4>(t, m, r); break;
        }
        break;
    case 23:
    {
        g_op = "moved";
        tensor<T, D> x(std::move(t));
        Model<T> mm = m;
        views[which].t = std::make_unique<tensor<T, D>>(std::move(x));
        views[which].m = std::move(mm);
        break;
    }
    }
}

template <typename T>
struct Container
{
    using value_type = T;
    T* p;
    size_t n;
    std::shared_ptr<int> count;
    Container(T* p, size_t n, std::shared_ptr<int> c) : p(p), n(n), count(std::move(c)) {}
    Container(Container&& o) : p(o.p), n(o.n), count(std::move(o.count)) {}
    ~Container()
    {
        if (count)
            ++*count;
    }
    T* data() const { return p; }
    size_t size() const { return n; }
};

template <typename T, index_t D>
static void create(std::vector<View<T>>& views, std::vector<std::weak_ptr<Store<T>>>&, Rng& r)
{
    std::vector<i64> sh;
    for (index_t d = 0; d < D; ++d)
        sh.push_back(r.chance(0.03) ? 0 : r.range(1, D == 1 ? 40 : D == 2 ? 11 : 6));
    i64 n = prod(sh);
    std::vector<T> v;
    for (i64 i = 0; i < n; ++i)
        v.push_back(val<T>(i + 1));
    Model<T> m;
    m.shape = sh;
    for (i64 i = 0; i < n; ++i)
        m.offs.push_back(i);
    g_ctx = vstr(sh);
    switch (r.range(0, 4))
    {
    case 0:
    {
        g_op = "constructed with a value";
        tensor<T, D> t(mk<D>(sh), T(7));
        m.st = internal_store<T>(t.data(), std::vector<T>(n, T(7)));
        put(views, std::move(t), std::move(m), r);
        break;
    }
    case 1:
    {
        g_op = "allocated";
        tensor<T, D> t(mk<D>(sh));
        std::copy(v.begin(), v.end(), t.data());
        m.st = internal_store<T>(t.data(), v);
        put(views, std::move(t), std::move(m), r);
        break;
    }
    case 2:
    {
        g_op = "allocated with strides";
        // first axis fastest
        shape<D> st;
        i64 k = 1;
        for (index_t d = 0; d < D; ++d)
            st[d] = k, k *= sh[d];
        tensor<T, D> t(mk<D>(sh), st, T(3));
        m.st = internal_store<T>(t.data(), std::vector<T>(n, T(3)));
        for (i64 i = 0; i < n; ++i)
        {
            shape<D> s = unflat<D>(sh, i);
            m.offs[i]  = (i64)s.dot(st);
        }
        put(views, std::move(t), std::move(m), r);
        break;
    }
    default:
    {
        g_op = "external data";
        auto st  = std::make_shared<Store<T>>();
        st->buf  = std::make_unique<Buf<T>>(n);
        st->base = st->buf->data();
        std::copy(v.begin(), v.end(), st->base);
        st->model = v;
        m.st      = st;
        std::weak_ptr<Store<T>> w = st;
        if (D == 1 && r.chance(0.4))
        {
            if constexpr (D == 1)
            {
                struct note : Container<T>
                {
                    std::shared_ptr<Store<T>> st;
                    using Container<T>::Container;
                    note(note&& o) : Container<T>(std::move(o)), st(std::move(o.st)) {}
                    ~note()
                    {
                        if (st)
                            ++st->released, ++g_released;
                    }
                };
                note c(st->base, (size_t)n, nullptr);
                c.st = st;
                put(views, tensor_from_container(std::move(c)), std::move(m), r);
            }
            break;
        }
        memory_finalizer f = make_memory_finalizer([st]() { ++st->released; ++g_released; });
        if (r.chance(0.5))
            put(views, tensor<T, D>(st->base, mk<D>(sh), std::move(f)), std::move(m), r);
        else
            put(views, tensor<T, D>(st->base, mk<D>(sh), internal_generic::strides_for_shape(mk<D>(sh)), std::move(f)), std::move(m), r);
    }
    }
}

static i64 live() { return (i64)cometa::details::get_memory_statistics().allocation_count - (i64)cometa::details::get_memory_statistics().deallocation_count; }

template <typename T>
static void history(Rng& r)
{
    std::vector<View<T>> views;
    std::vector<std::weak_ptr<Store<T>>> weak;
    std::vector<std::shared_ptr<Store<T>>> ext;
    i64 base = live();
    int steps = (int)r.range(5, 40);
    u64 h = 0;
    for (int s = 0; s < steps && !failed(); ++s)
    {
        g_ctx = "";
        if (views.empty() || r.chance(0.05))
        {
            switch (r.range(0, 3))
            {
            case 0: create<T, 1>(views, weak, r); break;
            case 1: create<T, 2>(views, weak, r); break;
            case 2: create<T, 3>(views, weak, r); break;
            default: create<T, 4>(views, weak, r); break;
            }
        }
        else if (views.size() > 14 || r.chance(0.15))
        {
            g_op = "destroyed";
            size_t k = (size_t)r.range(0, (i64)views.size() - 1);
            std::shared_ptr<Store<T>> st = views[k].m.st;
            views.erase(views.begin() + k);
            bool used = false;
            for (auto& v : views)
                used |= v.m.st == st;
            evals();
            if (!st->internal && (st->released != (used ? 0 : 1)))
                fail("the finalizer of external storage ran %d times, views left: %d", st->released, (int)used);
            if (used)
                store_ok(*st);
        }
        else
        {
            size_t k = (size_t)r.range(0, (i64)views.size() - 1);
            views.reserve(views.size() + 8);
            std::shared_ptr<Store<T>> keep = views[k].m.st;
            switch (views[k].t.index())
            {
            case 0: op<T, 1>(views, k, *std::get<0>(views[k].t), views[k].m, r); break;
            case 1: op<T, 2>(views, k, *std::get<1>(views[k].t), views[k].m, r); break;
            case 2: op<T, 3>(views, k, *std::get<2>(views[k].t), views[k].m, r); break;
            default: op<T, 4>(views, k, *std::get<3>(views[k].t), views[k].m, r); break;
            }
        }
        h = h * 1099511628211ull + hash_bytes(g_op, strlen(g_op)) + hash_bytes(g_ctx.data(), g_ctx.size());
        // everything alive is checked after every step
        std::vector<Store<T>*> internals;
        for (auto& v : views)
        {
            if (failed())
                break;
            if (v.m.st->internal && std::find(internals.begin(), internals.end(), v.m.st.get()) == internals.end())
                internals.push_back(v.m.st.get());
        }
        evals();
        if (!failed() && live() - base != (i64)internals.size())
            fail("%s: %lld storages are allocated, views refer to %zu", g_op, (long long)(live() - base), internals.size());
        for (auto& v : views)
        {
            if (failed())
                break;
            if (!store_ok(*v.m.st))
                break;
            switch (v.t.index())
            {
            case 0: check_view<T, 1>(*std::get<0>(v.t), v.m, r); break;
            case 1: check_view<T, 2>(*std::get<1>(v.t), v.m, r); break;
            case 2: check_view<T, 3>(*std::get<2>(v.t), v.m, r); break;
            default: check_view<T, 4>(*std::get<3>(v.t), v.m, r); break;
            }
        }
    }
    seen(h);
    stat("steps", steps);
    while (!views.empty())
    {
        size_t k = (size_t)r.range(0, (i64)views.size() - 1);
        std::shared_ptr<Store<T>> st = views[k].m.st;
        views.erase(views.begin() + k);
        bool used = false;
        for (auto& v : views)
            used |= v.m.st == st;
        if (!failed() && !st->internal && st->released != (used ? 0 : 1))
            fail("the finalizer of external storage ran %d times, views left: %d", st->released, (int)used);
    }
    if (!failed() && live() != base)
        fail("%lld storages are still allocated without a view", (long long)(live() - base));
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(60);
    int reps = thorough() ? 100000 : 7500;
    for (int k = 0; k < reps; ++k)
    {
#if PART == 0
        if (begin("history i32 #%d", k)) { Rng r = case_rng(); history<i32>(r); }
#elif PART == 1
        if (begin("history f64 #%d", k)) { Rng r = case_rng(); history<f64>(r); }
#else
        if (begin("history complex f32 #%d", k)) { Rng r = case_rng(); history<complex<f32>>(r); }
#endif
    }
    stat("external_storages_released", g_released);
    return done();
}
