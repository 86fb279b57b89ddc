// C35: small containers and fractions follow the model of std::vector and of exact rational numbers
// PART 0: small_buffer and inline_vector, 1: univector in every storage, 2: fraction
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/base/small_buffer.hpp>
#include <kfr/base/inline_vector.hpp>
#include <numeric>
using namespace kfr;
using namespace vk;

template <typename T>
static T value(Rng& r)
{
    if constexpr (is_complex<T>)
        return T((float)r.sym(), (float)r.sym());
    else if constexpr (std::is_floating_point_v<T>)
        return (T)r.sym();
    else if constexpr (std::is_same_v<T, bool>)
        return r.chance(0.5);
    else if constexpr (std::is_arithmetic_v<T>)
        return (T)r.next();
    else
        return T{ (int)r.next(), r.sym() };
}
struct Pod
{
    int a;
    double b;
    bool operator==(const Pod& o) const { return a == o.a && b == o.b; }
};
template <typename V, typename T>
static bool same(const V& v, const std::vector<T>& m)
{
    return v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin());
}
template <typename T>
static u64 hashed(const std::vector<T>& v, u64 op)
{
    u64 h = op + 977 * v.size();
    for (size_t i = 0; i < v.size(); ++i)
    {
        T x = v[i];
        if constexpr (!std::is_same_v<T, Pod>)
            h = h * 31 + hash_bytes(&x, sizeof(T));
    }
    return h;
}

#if PART == 0
template <typename T, size_t C>
static void small_buffers(Rng& r)
{
    long allocated = (long)cometa::details::get_memory_statistics().allocation_count.load() - (long)cometa::details::get_memory_statistics().deallocation_count.load();
    {
        using B = small_buffer<T, C>;
        // default members of a buffer on the heap are not kept apart from those on the stack
        std::vector<std::unique_ptr<B>> b;
        std::vector<std::vector<T>> m;
        for (int i = 0; i < 3; ++i)
        {
            size_t n = r.chance(0.5) ? 0 : r.below(3 * C + 2);
            b.push_back(n ? std::make_unique<B>(n) : std::make_unique<B>());
            m.emplace_back();
            for (size_t k = 0; k < n; ++k)
                m.back().push_back((*b.back())[k] = value<T>(r));
        }
        for (int step = 0; step < 60; ++step)
        {
            size_t i = r.below(3), j = r.below(3), op = r.below(13);
            B& x = *b[i];
            std::vector<T>& y = m[i];
            switch (op)
            {
            case 0:
            {
                size_t n = r.below(2 * C + 4), old = y.size();
                x.resize(n), y.resize(n);
                for (size_t k = old; k < n; ++k)
                    x[k] = value<T>(r), y[k] = x[k];
                break;
            }
            case 1:
            case 2:
            case 3:
            {
                T v = value<T>(r);
                x.push_back(v), y.push_back(v);
                break;
            }
            case 4:
                if (!y.empty())
                {
                    // a reference into the buffer itself
                    size_t k = r.below(y.size());
                    T v      = y[k];
                    x.push_back(x[k]), y.push_back(v);
                }
                break;
            case 5:
                if (!y.empty())
                    x.pop_back(), y.pop_back();
                break;
            case 6:
                b[i] = std::make_unique<B>(*b[j]), m[i] = std::vector<T>(m[j]);
                break;
            case 7:
                *b[i] = *b[j], m[i] = std::vector<T>(m[j]);
                break;
            case 8:
                if (i != j)
                {
                    *b[i] = std::move(*b[j]), m[i] = m[j];
                    b[j]->clear(), m[j].clear(); // unspecified, but valid
                }
                break;
            case 9:
            {
                using std::swap;
                swap(*b[i], *b[j]);
                if (i != j)
                    m[i].swap(m[j]);
                break;
            }
            case 10:
                b[i]->assign(*b[j]);
                if (i != j)
                    m[i] = m[j];
                break;
            case 11:
                if (!y.empty())
                {
                    T v       = value<T>(r);
                    size_t k  = r.below(y.size());
                    x.data()[k] = v, y[k] = v;
                    if (r.chance(0.5))
                        x.front() = v, y.front() = v;
                    else
                        x.back() = v, y.back() = v;
                }
                break;
            default:
                if (r.chance(0.2))
                    x.clear(), y.clear();
                else
                {
                    B z(std::move(x));
                    b[i] = std::make_unique<B>(z);
                }
            }
            for (size_t k = 0; k < 3; ++k)
            {
                const B& c = *b[k];
                evals(1);
                if (!same(c, m[k]) || c.empty() != m[k].empty() || c.end() - c.begin() != (long)m[k].size() || c.cbegin() != c.data() || c.cend() != c.end())
                    return fail("small_buffer<%zu bytes, %zu>: operation %zu of buffers %zu, %zu: %zu elements differ from the model's %zu", sizeof(T), C, op, i, j, c.size(), m[k].size());
                if (!m[k].empty() && (!(c.front() == m[k].front()) || !(c.back() == m[k].back())))
                    return fail("small_buffer: front or back");
            }
            seen(hashed(m[i], op));
        }
    }
    long now = (long)cometa::details::get_memory_statistics().allocation_count.load() - (long)cometa::details::get_memory_statistics().deallocation_count.load();
    if (now != allocated)
        fail("small_buffer: %ld blocks were not released", now - allocated);
}
template <typename F>
static bool throws(F&& f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
template <typename T, size_t N>
static void inline_vectors(Rng& r)
{
    using V    = inline_vector<T, N>;
    auto list  = [&](size_t n) {
        std::vector<T> v(n);
        for (auto& x : v)
            x = value<T>(r);
        return v;
    };
    std::unique_ptr<V> a[2];
    std::vector<T> m[2];
    for (int i = 0; i < 2; ++i)
    {
        a[i] = std::make_unique<V>();
        for (size_t k = 0; k < N; ++k)
            a[i]->m_values[k] = value<T>(r); // contents that do not belong to the vector
    }
    for (int step = 0; step < 40; ++step)
    {
        size_t i = r.below(2), j = r.below(2), op = r.below(10);
        V& x = *a[i];
        std::vector<T>& y = m[i];
        size_t n = r.chance(0.3) ? N : r.chance(0.3) ? N - 1 : r.below(N + 1);
        switch (op)
        {
        case 0:
        case 1:
        case 2:
        {
            T v = value<T>(r);
            bool full = y.size() == N;
            if (throws([&] { x.push_back(v); }) != full)
                return fail("inline_vector<%zu>: push_back to %zu elements", N, y.size());
            if (!full)
                y.push_back(v);
            break;
        }
        case 3:
            y = list(n), x = V(y.begin(), y.end());
            break;
        case 4:
        {
            std::vector<T> z = list(N + 1 + r.below(3));
            if (!throws([&] { V(z.begin(), z.end()); }))
                return fail("inline_vector<%zu>: %zu elements were accepted", N, z.size());
            T v = value<T>(r);
            if (!throws([&] { V(N + 1, v); }) || !throws([&] { V(size_t(N + 256)); }))
                return fail("inline_vector<%zu>: an initial size of more was accepted", N);
            break;
        }
        case 5:
        {
            T v = value<T>(r);
            y   = std::vector<T>(n, v);
            x   = V(n, v);
            break;
        }
        case 6:
        {
            x = V(n), y.assign(n, T());
            for (size_t k = 0; k < n; ++k)
                x[k] = value<T>(r), y[k] = x[k];
            break;
        }
        case 7:
            if (r.chance(0.5))
                *a[i] = *a[j], m[i] = std::vector<T>(m[j]);
            else
                std::swap(*a[i], *a[j]), std::swap(m[i], m[j]);
            break;
        case 8:
        {
            // a prefix of the other one
            size_t k = r.below(m[j].size() + 1);
            y        = std::vector<T>(m[j].begin(), m[j].begin() + (long)k);
            V z(y.begin(), y.end());
            x = z;
            if constexpr (N >= 3)
            {
                T p = value<T>(r), q = value<T>(r), s = value<T>(r);
                V l{ p, q, s };
                if (l.size() != 3 || !(l[0] == p) || !(l[1] == q) || !(l[2] == s))
                    return fail("inline_vector: initializer list");
            }
            break;
        }
        default:
        {
            size_t k = r.chance(0.4) ? y.size() : r.below(N + 3);
            if (throws([&] { (void)x.at(k); }) != (k >= y.size()))
                return fail("inline_vector<%zu>: at(%zu) of %zu", N, k, y.size());
            if (k < y.size())
            {
                T v     = value<T>(r);
                x.at(k) = v, y[k] = v;
                if (r.chance(0.3))
                    x.front() = v, y.front() = v;
                if (r.chance(0.3))
                    x.back() = v, y.back() = v;
            }
        }
        }
        for (int k = 0; k < 2; ++k)
        {
            const V& c = *a[k];
            evals(1);
            if (!same(c, m[k]) || c.empty() != m[k].empty() || c.end() - c.begin() != (long)m[k].size() || c.cbegin() != c.data() || c.cend() != c.end())
                return fail("inline_vector<%zu bytes, %zu>: operation %zu: %zu elements differ from the model's %zu", sizeof(T), N, op, c.size(), m[k].size());
            if (!m[k].empty() && (!(c.front() == m[k].front()) || !(c.back() == m[k].back())))
                return fail("inline_vector: front or back");
        }
        const V &c = *a[0], &d = *a[1];
        if ((c == d) != (m[0] == m[1]) || (c != d) == (m[0] == m[1]) || (d == c) != (m[0] == m[1]) || !(c == c))
            return fail("inline_vector<%zu>: comparison of %zu and %zu elements", N, m[0].size(), m[1].size());
        seen(hashed(m[i], op));
    }
}
#endif

#if PART == 1
template <typename T, univector_tag Tag>
static bool check(const char* what, const univector<T, Tag>& u, const std::vector<std::remove_const_t<T>>& m, Rng& r)
{
    evals(1);
    if (!same(u, m) || u.empty() != m.empty() || (!m.empty() && u.data() != &u[0]) || u.end() - u.begin() != (long)m.size())
        return fail("%s: %zu elements differ from the model's %zu", what, u.size(), m.size()), false;
    size_t k = r.below(m.size() + 4);
    auto f   = value<std::remove_const_t<T>>(r);
    if (!(u.get(k, f) == (k < m.size() ? m[k] : f)))
        return fail("%s: get(%zu) of %zu", what, k, m.size()), false;
    auto c = u.cref();
    if (c.data() != u.data() || c.size() != u.size())
        return fail("%s: cref()", what), false;
    size_t s = r.below(m.size() + 3), n = r.chance(0.3) ? max_size_t : r.below(m.size() + 3);
    auto q   = u.slice(s, n);
    size_t w = s >= m.size() ? 0 : std::min(n, m.size() - s);
    if (q.size() != w || (w && q.data() != u.data() + s))
        return fail("%s: slice(%zu, %zu) of %zu has %zu elements", what, s, n, m.size(), q.size()), false;
    auto t = u.truncate(n);
    if (t.size() != std::min(n, m.size()) || t.data() != u.data())
        return fail("%s: truncate(%zu)", what, n), false;
    return true;
}
/// operations that every storage has
template <typename T, univector_tag Tag>
static void common(univector<T, Tag>& u, std::vector<T>& m, Rng& r, size_t op)
{
    size_t n = m.size();
    switch (op)
    {
    case 0:
        for (size_t k = 0; k < n; ++k)
            u[k] = m[k] = value<T>(r);
        break;
    case 1:
    {
        T c = value<T>(r);
        u   = u + c; // onto itself
        for (auto& x : m)
            x = x + c;
        break;
    }
    case 2:
    {
        // a part of it
        size_t s = r.below(n + 2), k = r.below(n + 2);
        T c      = value<T>(r);
        u.slice(s, k) = scalar(c);
        for (size_t i = s; i < n && i - s < k; ++i)
            m[i] = c;
        break;
    }
    case 3:
    {
        std::vector<T> o(n);
        for (auto& x : o)
            x = value<T>(r);
        auto v = make_univector(o);
        u      = v * u;
        for (size_t k = 0; k < n; ++k)
            m[k] = o[k] * m[k];
        break;
    }
    case 4:
        if constexpr (!is_complex<T>)
            u = counter<T>();
        else
            u = scalar(T(3));
        for (size_t k = 0; k < n; ++k)
            m[k] = is_complex<T> ? T(3) : (T)k;
        break;
    case 5:
    {
        size_t k = r.below(n + 2);
        auto t   = u.truncate(k);
        t        = t + t;
        for (size_t i = 0; i < std::min(n, k); ++i)
            m[i] = m[i] + m[i];
        break;
    }
    default:
    {
        cometa::array_ref<T> a(u.data(), u.size());
        for (auto& x : a)
            x = x - T(1);
        for (auto& x : m)
            x = x - T(1);
    }
    }
}
template <typename T>
static void dynamic(Rng& r)
{
    using V = univector<T>;
    std::unique_ptr<V> a[2];
    std::vector<T> m[2];
    a[0] = std::make_unique<V>(), a[1] = std::make_unique<V>();
    for (int step = 0; step < 50; ++step)
    {
        size_t i = r.below(2), j = r.below(2), op = r.below(22);
        V& x = *a[i];
        std::vector<T>& y = m[i];
        size_t n = r.chance(0.2) ? 0 : r.below(r.chance(0.3) ? 300 : 40);
        if (op < 7)
            common(x, y, r, op);
        else if (op == 7)
        {
            T v = value<T>(r);
            x   = V(n, v), y.assign(n, v);
        }
        else if (op == 8)
        {
            T v = value<T>(r);
            x.resize(n, v), y.resize(n, v);
        }
        else if (op == 9)
            x.resize(n), y.resize(n);
        else if (op == 10)
        {
            if constexpr (is_complex<T>)
                x = univector<T>(n, T(5)) + T(0);
            else
                x = truncate(counter<T>(), n); // takes the size of the expression
            y.resize(n);
            for (size_t k = 0; k < n; ++k)
                y[k] = is_complex<T> ? T(5) : (T)k;
        }
        else if (op == 11)
        {
            T v = value<T>(r);
            x.push_back(v), y.push_back(v);
        }
        else if (op == 12 && i != j)
            x = *a[j] + T(0), y = m[j];
        else if (op == 13 && i != j)
            x = *a[j], y = m[j];
        else if (op == 14 && i != j)
        {
            x = std::move(*a[j]), y = m[j];
            *a[j] = V(), m[j].clear();
        }
        else if (op == 15 && i != j)
            std::swap(x, *a[j]), std::swap(y, m[j]);
        else if (op == 16)
        {
            V z(x * T(2));
            x = std::move(z);
            for (auto& v : y)
                v = v * T(2);
        }
        else if (op == 17 && !y.empty())
        {
            size_t k = r.below(y.size());
            T v      = value<T>(r);
            if (r.chance(0.5))
                x.insert(x.begin() + (long)k, v), y.insert(y.begin() + (long)k, v);
            else
                x.erase(x.begin() + (long)k), y.erase(y.begin() + (long)k);
        }
        else if (op == 18)
        {
            V z(std::as_const(*a[j]).cref());
            std::vector<T> w = m[j];
            x = z, y = w;
        }
        else if (op == 19)
        {
            V z = render(*a[j] - T(3));
            y   = m[j];
            for (auto& v : y)
                v = v - T(3);
            x = z;
            if constexpr (!is_complex<T>)
            {
                V w = render(counter<T>(), n, 5);
                for (size_t k = 0; k < n; ++k)
                    if (!(w[k] == (T)(k + 5)) || w.size() != n)
                        return fail("render of %zu elements from the 5th", n);
            }
        }
        else if (op == 20)
        {
            univector2d<T> z(3, *a[j]);
            z[1].push_back(T(1));
            if (!same(z[0], m[j]) || !same(z[2], m[j]) || z[1].size() != m[j].size() + 1)
                return fail("univector2d");
        }
        else
        {
            V z(*a[j]);
            a[i] = std::make_unique<V>(z);
            if (i != j)
                m[i] = m[j];
        }
        for (int k = 0; k < 2; ++k)
        {
            if (!check("univector", *a[k], m[k], r))
            {
                fail("after operation %zu of %zu elements", op, n);
                return;
            }
            if (reinterpret_cast<uintptr_t>(a[k]->data()) % 64)
                return fail("univector is not aligned");
        }
        const V &c = *a[0], &d = *a[1];
        if ((c == d) != (m[0] == m[1]) || (c != d) == (m[0] == m[1]))
            return fail("univector: comparison");
        seen(hashed(m[i], op));
    }
}
template <typename T, size_t N>
static void fixed(Rng& r)
{
    using V = univector<T, N>;
    V a[2];
    std::vector<T> m[2] = { std::vector<T>(N), std::vector<T>(N) };
    for (auto& v : a)
        for (auto& x : v)
            x = T(0);
    if (reinterpret_cast<uintptr_t>(&a[1]) % platform<>::maximum_vector_alignment)
        return fail("univector<%zu> is not aligned", N);
    for (int step = 0; step < 40; ++step)
    {
        size_t i = r.below(2), j = r.below(2), op = r.below(15);
        if (op < 7)
            common(a[i], m[i], r, op);
        else if (op == 7)
        {
            T v = value<T>(r);
            a[i] = V(N, v), m[i].assign(N, v);
        }
        else if (op == 8)
            a[i].resize(r.below(2 * N)); // nothing
        else if (op == 9)
            a[i] = a[j], m[i] = std::vector<T>(m[j]);
        else if (op == 10)
        {
            V z(a[j] + T(1));
            m[i] = std::vector<T>(m[j]);
            for (auto& v : m[i])
                v = v + T(1);
            a[i] = z;
        }
        else if (op == 11)
            std::swap(a[0], a[1]), std::swap(m[0], m[1]);
        else if (op == 12)
        {
            univector<T> z(a[j].cref());
            const univector<T>& y = z;
            const V& b            = a[j];
            if (!(y == b) || (y != b) || !(b == y))
                return fail("univector<%zu> and univector differ", N);
            z.push_back(T(0));
            if (y == b || b == y)
                return fail("univectors of %zu and %zu elements are equal", N, z.size());
            auto w = render(a[j] * T(3), csize_t<N>());
            for (size_t k = 0; k < N; ++k)
                if (!(w[k] == T(m[j][k] * T(3))))
                    return fail("render of %zu elements", N);
        }
        else
        {
            V z = a[j];
            std::vector<T> w = m[j];
            a[i] = z, m[i] = w;
        }
        for (int k = 0; k < 2; ++k)
            if (!check("univector<N>", a[k], m[k], r))
            {
                fail("N=%zu, after operation %zu", N, op);
                return;
            }
        const V &c = a[0], &d = a[1];
        if ((c == d) != (m[0] == m[1]) || (c != d) == (m[0] == m[1]))
            return fail("univector<%zu>: comparison", N);
        seen(hashed(m[i], op));
    }
}
template <typename T>
static void refs(Rng& r)
{
    size_t n = r.below(r.chance(0.2) ? 300 : 40), at = r.below(4), len = n;
    Buf<T> memory(n + 4);
    T* data = memory.data() + at;
    std::vector<T> m(n);
    for (size_t k = 0; k < n + 4; ++k)
        memory.data()[k] = T(7);
    for (size_t k = 0; k < n; ++k)
        data[k] = m[k] = value<T>(r);
    univector<T, 0> u = make_univector(data, len);
    for (int step = 0; step < 30; ++step)
    {
        size_t op = r.below(11);
        if (op < 7)
            common(u, m, r, op);
        else if (op == 7)
        {
            univector<T> z = u + T(1);
            if (z.size() != n)
                return fail("a univector of the expression has %zu elements instead of %zu", z.size(), n);
            univector<T, 0> v = z;
            u = v; // copies the elements
            for (auto& x : m)
                x = x + T(1);
            if (u.data() != data)
                return fail("assignment moved the reference");
        }
        else if (op == 8)
        {
            univector<T, 0> v = u;
            univector<const T, 0> w = u;
            univector<const T, 0> c = std::as_const(m).empty() ? make_univector((const T*)data, n) : make_univector(std::as_const(m));
            if (v.data() != data || w.data() != data || w.size() != n || v.size() != n || (n && c.data() != m.data()))
                return fail("copies of a reference refer to something else");
            if (!check("univector<const T, 0>", w, m, r) || !check("univector<const T, 0>", c, m, r))
                return;
        }
        else if (op == 9)
        {
            u.resize(r.below(100)); // nothing
            T arr[5] = { T(1), T(2), T(3), T(4), T(5) };
            auto v   = make_univector(arr);
            v        = v * T(2);
            if (v.size() != 5 || !(arr[4] == T(10)) || !(arr[0] == T(2)))
                return fail("make_univector of an array");
        }
        else
        {
            const univector<T, 0> c = u;
            univector<T> z(n, T(0));
            z = c;
            if (!same(z, m))
                return fail("univector from a reference");
        }
        if (!check("univector<T, 0>", u, m, r))
        {
            fail("after operation %zu of %zu elements", op, n);
            return;
        }
        for (size_t k = 0; k < n + 4; ++k)
            if ((k < at || k >= at + n) && !(memory.data()[k] == T(7)))
                return fail("operation %zu wrote outside", op);
        seen(hashed(m, op));
    }
    if (!memory.intact())
        fail("written outside");
}
#endif

#if PART == 2
using big = __int128;
struct Q
{
    big n, d;
};
static big gcd128(big a, big b)
{
    a = a < 0 ? -a : a, b = b < 0 ? -b : b;
    while (b)
    {
        big t = a % b;
        a = b, b = t;
    }
    return a;
}
static Q reduced(big n, big d)
{
    if (d < 0)
        n = -n, d = -d;
    big g = gcd128(n, d);
    return { n / g, d / g };
}
static bool eq(const fraction& f, Q q) { return f.numerator == (long)q.n && f.denominator == (long)q.d && q.n >= INT64_MIN && q.n <= INT64_MAX && q.d <= INT64_MAX; }
static void pair(long a, long b, long c, long d)
{
    fraction x(a, b), y(c, d);
    Q p = reduced(a, b), q = reduced(c, d);
    if (!eq(x, p) || !eq(y, q))
        return fail("fraction(%ld, %ld) is %ld/%ld", a, b, (long)x.numerator, (long)x.denominator);
    big left = p.n * q.d, right = q.n * p.d;
    if ((x == y) != (left == right) || (x != y) != (left != right) || (x < y) != (left < right) || (x <= y) != (left <= right) || (x > y) != (left > right) || (x >= y) != (left >= right))
        return fail("comparison of %ld/%ld and %ld/%ld", a, b, c, d);
    fraction s = x;
    s += y;
    if (!eq(x + y, reduced(left + right, p.d * q.d)) || !(s == x + y))
        return fail("%ld/%ld + %ld/%ld is %ld/%ld", a, b, c, d, (long)(x + y).numerator, (long)(x + y).denominator);
    s = x, s -= y;
    if (!eq(x - y, reduced(left - right, p.d * q.d)) || !(s == x - y))
        return fail("%ld/%ld - %ld/%ld is %ld/%ld", a, b, c, d, (long)(x - y).numerator, (long)(x - y).denominator);
    s = x, s *= y;
    if (!eq(x * y, reduced(p.n * q.n, p.d * q.d)) || !(s == x * y))
        return fail("%ld/%ld * %ld/%ld is %ld/%ld", a, b, c, d, (long)(x * y).numerator, (long)(x * y).denominator);
    if (c)
    {
        s = x, s /= y;
        if (!eq(x / y, reduced(left, p.d * q.n)) || !(s == x / y))
            return fail("%ld/%ld / %ld/%ld is %ld/%ld", a, b, c, d, (long)(x / y).numerator, (long)(x / y).denominator);
    }
    if (!eq(-x, { -p.n, p.d }) || !eq(+x, p) || (bool)x != (p.n != 0) || (i64)x != (long)(p.n / p.d))
        return fail("%ld/%ld: sign or conversion", a, b);
    double e = (double)((long double)p.n / (long double)p.d);
    if (std::abs((double)x - e) > 3e-16 * std::abs(e) || std::abs((double)(float)x - e) > 2e-7 * std::abs(e))
        return fail("%ld/%ld as a number is %.17g", a, b, (double)x);
    std::string t = as_string(x), w = std::to_string((long)p.n) + (p.d == 1 ? "" : "/" + std::to_string((long)p.d));
    if (t != w)
        return fail("%ld/%ld is shown as %s", a, b, t.c_str());
    evals(16);
    seen((u64)(a * 1000003 + b) * 31 + (u64)(c * 997 + d));
}
#endif

int main(int argc, char** argv)
{
    init(argc, argv);
    int scale = thorough() ? 40 : 1;
    (void)scale;
#if PART == 0
    for (int k = 0; k < 1500 * scale; ++k)
    {
        if (begin("small_buffer k=%d", k))
        {
            Rng r = case_rng(35);
            static void (*const f[])(Rng&) = { small_buffers<int, 16>, small_buffers<unsigned char, 1>, small_buffers<double, 3>, small_buffers<Pod, 4>, small_buffers<complex<float>, 2>, small_buffers<short, 64> };
            f[k % 6](r);
        }
        if (begin("inline_vector k=%d", k))
        {
            Rng r = case_rng(350);
            static void (*const f[])(Rng&) = { inline_vectors<int, 5>, inline_vectors<unsigned char, 1>, inline_vectors<double, 16>, inline_vectors<Pod, 3>, inline_vectors<short, 254>, inline_vectors<short, 255>, inline_vectors<int, 256>, inline_vectors<complex<float>, 4> };
            f[k % 8](r);
        }
        if (k % 100 == 0 && begin("large inline_vector k=%d", k))
        {
            Rng r = case_rng(351);
            static void (*const f[])(Rng&) = { inline_vectors<unsigned char, 65534>, inline_vectors<unsigned char, 65535>, inline_vectors<unsigned char, 65536> };
            f[k / 100 % 3](r);
        }
    }
#elif PART == 1
    for (int k = 0; k < 2000 * scale; ++k)
    {
        if (begin("univector k=%d", k))
        {
            Rng r = case_rng(352);
            static void (*const f[])(Rng&) = { dynamic<float>, dynamic<double>, dynamic<unsigned>, dynamic<complex<float>>, dynamic<unsigned char> };
            f[k % 5](r);
        }
        if (begin("univector<N> k=%d", k))
        {
            Rng r = case_rng(353);
            static void (*const f[])(Rng&) = { fixed<float, 1>, fixed<float, 7>, fixed<double, 16>, fixed<unsigned, 33>, fixed<complex<float>, 5>, fixed<unsigned char, 100>, fixed<double, 3> };
            f[k % 7](r);
        }
        if (begin("univector<T, 0> k=%d", k))
        {
            Rng r = case_rng(354);
            static void (*const f[])(Rng&) = { refs<float>, refs<double>, refs<unsigned>, refs<complex<float>>, refs<unsigned char> };
            f[k % 5](r);
        }
    }
#else
    const int m = thorough() ? 24 : 12;
    for (int a = -m; a <= m; ++a)
        for (int b = -m; b <= m; ++b)
            if (b != 0 && begin("fraction %d/%d", a, b))
                for (int c = -m; c <= m; ++c)
                    for (int d = -m; d <= m; ++d)
                        if (d != 0)
                            pair(a, b, c, d);
    for (int k = 0; k < 3000 * scale; ++k)
        if (begin("large fractions k=%d", k))
        {
            Rng r = case_rng(355);
            for (int i = 0; i < 50 && !failed(); ++i)
            {
                // products of numerators and denominators are representable
                auto big_one = [&](bool zero) {
                    long v = (long)(r.next() >> (33 + r.below(30))) * (r.chance(0.5) ? 1 : -1);
                    return v == 0 && !zero ? 1 : v;
                };
                long a = big_one(true), b = big_one(false), c = big_one(true), d = big_one(false);
                if (r.chance(0.3))
                    c = a;
                if (r.chance(0.3))
                    d = b;
                pair(a, b, c, d);
            }
            fraction x((long)r.next() >> 1), y;
            if (!eq(y, { 0, 1 }) || x.denominator != 1)
                fail("integers as fractions");
        }
#endif
    return done();
}
