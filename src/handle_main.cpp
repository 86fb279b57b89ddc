// C38: type-erased expressions, placeholders and substitution.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/biquad_design.hpp>
#include <kfr/dsp/fir.hpp>
#include <list>
#include <memory>
using namespace kfr;
using namespace vk;

#ifndef PART
#define PART 0
#endif
#define TYPE (PART % 4)
#define SUB (PART / 4) // 0 random trees, 1 compile-time expressions, 2 grids
#if TYPE == 0
using T = float;
#elif TYPE == 1
using T = double;
#elif TYPE == 2
using T = int;
#else
using T = kfr::complex<double>;
#endif
using H                   = expression_handle<T, 1>;
constexpr size_t INF      = infinite_size;
constexpr size_t INVALID  = (size_t)-7;

/// what a source of values was told and asked
struct Log
{
    long live     = 0;
    bool shared   = false; // used at several places of an expression: no order of accesses
    bool passes   = false; // passes are to be announced
    long open     = 0, begins = 0;
    size_t start = 0, stop = 0, next = 0, gets = 0;
    std::string error;
    void wrong(const std::string& what)
    {
        if (error.empty())
            error = what + " (announced " + std::to_string(start) + " to " + std::to_string(stop) + ", expected " + std::to_string(next) + ")";
    }
};

static T value_at(unsigned seed, size_t i) { return (T)(double)(int)((i * 7 + seed * 13) % 53) - T(20); }

struct probe : expression_traits_defaults
{
    using value_type             = T;
    constexpr static size_t dims = 1;
    size_t n;
    unsigned seed;
    std::shared_ptr<Log> log;
    probe(size_t n, unsigned seed, std::shared_ptr<Log> log) : n(n), seed(seed), log(std::move(log)) { ++this->log->live; }
    probe(const probe& o) : n(o.n), seed(o.seed), log(o.log) { ++log->live; }
    probe(probe&& o) : n(o.n), seed(o.seed), log(o.log) { ++log->live; }
    probe& operator=(const probe&) = delete;
    ~probe() { --log->live; }
    constexpr static shape<1> get_shape(const probe& self) { return shape<1>{ (index_t)self.n }; }
    constexpr static shape<1> get_shape() { return shape<1>{ undefined_size }; }
    template <size_t N>
    friend vec<T, N> get_elements(const probe& self, const shape<1>& index, const axis_params<0, N>&)
    {
        Log& l   = *self.log;
        size_t i = index.front();
        ++l.gets;
        if (self.n != INF && i + N > self.n)
            l.wrong("read of " + std::to_string(i) + "+" + std::to_string(N) + " of " + std::to_string(self.n));
        if (l.passes)
        {
            if (l.open < 1)
                l.wrong("read outside a pass");
            else if (!l.shared)
            {
                if (i < l.start || i + N > l.stop)
                    l.wrong("read of " + std::to_string(i) + "+" + std::to_string(N) + " outside the pass");
                if (l.stop - l.start > 1 && i != l.next) // single elements are read as often as needed
                    l.wrong("read of " + std::to_string(i) + " out of order");
            }
            l.next = i + N;
        }
        vec<T, N> r;
        for (size_t k = 0; k < N; ++k)
            r[k] = value_at(self.seed, i + k);
        return r;
    }
    friend void begin_pass(const probe& self, shape<1> start, shape<1> stop)
    {
        Log& l = *self.log;
        if (l.open && !l.shared)
            l.wrong("pass begun twice");
        ++l.open, ++l.begins;
        l.start = l.next = start.front(), l.stop = stop.front();
        if (l.start > l.stop || (self.n != INF && l.stop > self.n))
            l.wrong("pass out of range of " + std::to_string(self.n));
    }
    friend void end_pass(const probe& self, shape<1> start, shape<1> stop)
    {
        Log& l = *self.log;
        if (l.open-- < 1)
            l.wrong("pass ended twice");
        if (!l.shared && (start.front() != l.start || stop.front() != l.stop))
            l.wrong("pass ended at " + std::to_string(start.front()) + " to " + std::to_string(stop.front()));
        if (!l.shared && l.stop - l.start > 1 && l.next != l.stop)
            l.wrong("pass ended before its end");
    }
};

#if SUB == 0
// ---------------------------------------------------------------------------- model

struct Node;
using M = std::shared_ptr<Node>;
enum Op
{
    op_leaf,
    op_vector,
    op_hole,
    op_add,
    op_mix,  // (a * 2) + b
    op_neg,
    op_slice,
    op_truncate,
    op_pad,
    op_join,
    op_scalar,
};
struct Node
{
    Op op;
    std::vector<M> k{};
    size_t n = 0, a = 0; // size of leaves and slices; beginning of slices
    unsigned seed = 0;
    T c{};
    const univector<T>* v = nullptr;
    univector<T> own{};
    std::shared_ptr<Log> log{};
};
static size_t add_size(size_t a, size_t b)
{
    if (a == INVALID || b == INVALID)
        return INVALID;
    if (a == 0 || b == 0)
        return 0;
    if (a == 1)
        return b;
    if (b == 1)
        return a;
    if (a == INF)
        return b;
    if (b == INF || a == b)
        return a;
    return INVALID;
}
static size_t size_of(const M& m)
{
    switch (m->op)
    {
    case op_leaf:
    case op_vector:
        return m->n;
    case op_hole:
        return m->k.empty() ? INF : size_of(m->k[0]);
    case op_add:
    case op_mix:
        return add_size(size_of(m->k[0]), size_of(m->k[1]));
    case op_neg:
    case op_scalar:
        return size_of(m->k[0]);
    case op_slice:
    case op_truncate:
    {
        size_t s = size_of(m->k[0]);
        if (s == INVALID || (s != INF && s < m->a))
            return INVALID;
        return std::min(m->n, s == INF ? INF : s - m->a);
    }
    case op_pad:
        return size_of(m->k[0]) == INVALID ? INVALID : INF;
    default: // op_join
    {
        size_t a = size_of(m->k[0]), b = size_of(m->k[1]);
        return a == INVALID || b == INVALID ? INVALID : a == INF || b == INF ? INF : a + b;
    }
    }
}
static T at(const M& m, size_t i)
{
    auto arg = [&](int k) { return at(m->k[k], size_of(m->k[k]) == 1 ? 0 : i); };
    switch (m->op)
    {
    case op_leaf:
        return value_at(m->seed, i);
    case op_vector:
        return m->v ? (*m->v)[i] : m->own[i];
    case op_hole:
        return m->k.empty() ? T(0) : at(m->k[0], i);
    case op_add:
        return arg(0) + arg(1);
    case op_mix:
        return arg(0) * T(2) + arg(1);
    case op_neg:
        return -at(m->k[0], i);
    case op_scalar:
        return at(m->k[0], i) * m->c;
    case op_slice:
    case op_truncate:
        return at(m->k[0], i + m->a);
    case op_pad:
        return i < size_of(m->k[0]) ? at(m->k[0], i) : m->c;
    default:
    {
        size_t a = size_of(m->k[0]);
        return i < a ? at(m->k[0], i) : at(m->k[1], i - a);
    }
    }
}
static size_t holes(const M& m, std::vector<M>* all = nullptr)
{
    if (m->op == op_hole)
    {
        if (all)
            all->push_back(m);
        return 1;
    }
    size_t s = 0;
    for (auto& k : m->k)
        s += holes(k, all);
    return s;
}
static void logs_of(const M& m, std::vector<std::shared_ptr<Log>>& l)
{
    if (m->log)
        l.push_back(m->log);
    for (auto& k : m->k)
        logs_of(k, l);
}

static std::string text(const M& m)
{
    static const char* names[] = { "leaf", "vector", "hole", "add", "mix", "neg", "slice", "truncate", "pad", "join", "scalar" };
    std::string s = names[m->op];
    if (m->op <= op_vector || m->op == op_slice || m->op == op_truncate)
        s += ":" + (m->n == INF ? std::string("inf") : std::to_string(m->n));
    if (m->a)
        s += "@" + std::to_string(m->a);
    if (!m->k.empty())
        s += "(";
    for (size_t i = 0; i < m->k.size(); ++i)
        s += (i ? "," : "") + text(m->k[i]);
    return m->k.empty() ? s : s + ")";
}

struct Tree
{
    M m;
    H h;
};
struct World
{
    std::list<probe> probes;              // referenced by handles
    std::list<univector<T>> vectors;      // referenced by handles
    std::list<H> kept;                    // handles referenced by handles
    std::vector<std::shared_ptr<Log>> logs;
};

static M node(Op op, std::vector<M> k, size_t n = 0, size_t a = 0)
{
    M m = std::make_shared<Node>();
    m->op = op, m->k = std::move(k), m->n = n, m->a = a;
    return m;
}

static Tree leaf(Rng& r, World& w, size_t n)
{
    Tree t;
    unsigned seed = (unsigned)r.below(1000);
    if (n != INF && r.chance(0.3))
    {
        t.m = node(op_vector, {}, n);
        univector<T> v(n);
        for (size_t i = 0; i < n; ++i)
            v[i] = value_at(seed, i);
        if (r.chance(0.5))
        {
            w.vectors.push_back(v);
            t.m->v = &w.vectors.back();
            t.h    = to_handle(w.vectors.back());
        }
        else
        {
            t.m->own = v;
            t.h      = to_handle(std::move(v));
        }
        return t;
    }
    t.m         = node(op_leaf, {}, n);
    t.m->seed   = seed;
    auto log    = t.m->log = std::make_shared<Log>();
    log->passes = true;
    w.logs.push_back(log);
    if (r.chance(0.5))
    {
        w.probes.emplace_back(n, seed, log);
        t.h = to_handle(w.probes.back());
    }
    else
        t.h = to_handle(probe(n, seed, log));
    return t;
}

static Tree build(Rng& r, World& w, int depth, size_t n, bool with_holes);

static Tree hole()
{
    return { node(op_hole, {}), to_handle(placeholder<T>()) };
}

static Tree build(Rng& r, World& w, int depth, size_t n, bool with_holes)
{
    auto sub = [&](size_t n) { return build(r, w, depth - 1, n, with_holes); };
    if (n == INF && with_holes && r.chance(depth <= 0 ? 0.6 : 0.15))
        return hole();
    if (depth <= 0 || n == 0)
        return leaf(r, w, n);
    Tree t, a, b;
    switch (r.below(9))
    {
    case 0: // sum of operands of the same size, infinite or broadcast
    case 1:
    {
        size_t other = n == INF ? (r.chance(0.7) ? INF : 1) : n == 1 ? 1 : r.chance(0.5) ? n : r.chance(0.5) ? INF : 1;
        a = sub(n), b = sub(other);
        if (r.chance(0.5))
            std::swap(a, b);
        if (r.chance(0.5))
            t.m = node(op_add, { a.m, b.m }), t.h = to_handle(H(a.h) + H(b.h));
        else
            t.m = node(op_mix, { a.m, b.m }), t.h = to_handle(H(a.h) * T(2) + H(b.h));
        return t;
    }
    case 2:
        a = sub(n);
        return { node(op_neg, { a.m }), to_handle(-H(a.h)) };
    case 3:
    {
        a      = sub(n);
        t.m    = node(op_scalar, { a.m });
        t.m->c = T(3);
        t.h    = to_handle(T(3) * H(a.h));
        return t;
    }
    case 4:
    {
        size_t from = r.below(20);
        a           = sub(n == INF || r.chance(0.3) ? INF : n + from + r.below(10));
        bool all    = n == INF || (size_of(a.m) == n + from && r.chance(0.5));
        return { node(op_slice, { a.m }, all ? INF : n, from), all ? to_handle(slice(H(a.h), shape<1>{ (index_t)from })) : to_handle(slice(H(a.h), shape<1>{ (index_t)from }, shape<1>{ (index_t)n })) };
    }
    case 5:
        if (n == INF)
            break;
        a = sub(r.chance(0.5) ? INF : n + r.below(10));
        return { node(op_truncate, { a.m }, n), to_handle(truncate(H(a.h), shape<1>{ (index_t)n })) };
    case 6:
        if (n != INF)
            break;
        a      = sub(r.below(40));
        t.m    = node(op_pad, { a.m });
        t.m->c = T(5);
        t.h    = to_handle(padded(H(a.h), T(5)));
        return t;
    case 7:
    case 8:
    {
        if (n == 1)
            break;
        size_t first = n == INF ? 1 + r.below(40) : 1 + r.below(n - 1);
        a = sub(first), b = sub(n == INF ? INF : n - first);
        return { node(op_join, { a.m, b.m }), to_handle(concatenate(H(a.h), H(b.h))) };
    }
    }
    // held by a handle of a handle
    a = sub(n);
    if (r.chance(0.5))
    {
        w.kept.push_back(a.h);
        return { a.m, to_handle(w.kept.back()) };
    }
    return { a.m, to_handle(H(a.h)) };
}

template <size_t W>
static void piece(univector<T>& out, const H& h, size_t pos, size_t len)
{
    process<W>(out, h, shape<1>{ (index_t)pos }, shape<1>{ (index_t)len });
}

/// reads everything in pieces and compares
static bool evaluate(Rng& r, const char* what, World& w, const M& m, const H& h)
{
    size_t s = size_of(m);
    if (get_shape(h).front() != s)
    {
        fail("%s: shape %zu instead of %zu: %s", what, (size_t)get_shape(h).front(), s, text(m).c_str());
        return false;
    }
    size_t n = std::min(s, (size_t)(1 + r.below(260)));
    univector<T> out(s == INF ? n : s);
    std::fill(out.begin(), out.end(), T(99));
    std::vector<std::shared_ptr<Log>> logs;
    logs_of(m, logs);
    for (auto& l : logs)
        l->begins = 0;
    size_t pieces = 0;
    for (size_t pos = 0; pos < n || (r.chance(0.3) && pieces < 50); ++pieces)
    {
        size_t len = r.chance(0.1) ? 0 : r.chance(0.2) ? n - pos : std::min(n - pos, (size_t)r.below(r.chance(0.5) ? 8 : 80));
        switch (r.below(5))
        {
        case 0:
            piece<0>(out, h, pos, len);
            break;
        case 1:
            piece<1>(out, h, pos, len);
            break;
        case 2:
            piece<4>(out, h, pos, len);
            break;
        case 3:
            piece<16>(out, h, pos, len);
            break;
        default:
            piece<64>(out, h, pos, len);
        }
        pos += len;
    }
    for (auto& l : w.logs)
        if (!l->error.empty())
        {
            fail("%s of %zu: source: %s: %s", what, n, l->error.c_str(), text(m).c_str());
            return false;
        }
    for (auto& l : logs)
        if (l->open)
        {
            fail("%s of %zu: %zu pieces, %ld passes announced, %ld open", what, n, pieces, l->begins, l->open);
            return false;
        }
    for (size_t i = 0; i < n; ++i)
        if (out[i] != at(m, i))
        {
            fail("%s of %zu: element %zu is %g instead of %g: %s", what, n, i, (double)std::real(out[i]), (double)std::real(at(m, i)), text(m).c_str());
            return false;
        }
    evals(n), seen(hash_bytes(out.data(), n * sizeof(T)));
    return true;
}

static bool sizes_valid(const M& m)
{
    for (auto& k : m->k)
        if (!sizes_valid(k))
            return false;
    return size_of(m) != INVALID;
}

static void trees(Rng& r)
{
    World w;
    {
        size_t n = r.chance(0.4) ? INF : r.chance(0.1) ? 1 : r.below(120);
        Tree t   = build(r, w, 1 + (int)r.below(5), n, true);
        if (size_of(t.m) != n)
            return fail("model: %zu %zu", n, size_of(t.m));
        if (!evaluate(r, "expression", w, t.m, t.h))
            return;
        // copies keep it alive
        std::vector<H> copies;
        for (int i = 0; i < 4; ++i)
            switch (r.below(4))
            {
            case 0:
                copies.push_back(t.h);
                break;
            case 1:
                copies.insert(copies.begin() + r.below(copies.size() + 1), H(t.h));
                break;
            case 2:
                if (!copies.empty())
                    copies[r.below(copies.size())] = t.h;
                break;
            default:
                if (copies.size() > 1)
                    copies.erase(copies.begin() + r.below(copies.size()));
            }
        copies.push_back(t.h);
        t.h = H();
        if (t.h || !copies.back())
            return fail("empty and non-empty handles are confused");
        t.h = std::move(copies[r.below(copies.size())]);
        copies.clear();
        if (!t.h || !evaluate(r, "copy", w, t.m, t.h))
            return;
        // substitution
        std::vector<M> hs;
        holes(t.m, &hs);
        stat("placeholders", hs.size());
        for (int round = 0; round < 3; ++round)
        {
            Tree s;
            bool valid = false;
            for (int attempt = 0; attempt < 4 && !valid; ++attempt)
            {
                size_t want = attempt == 3 || r.chance(0.3) ? INF : r.chance(0.3) ? 1 : r.chance(0.5) && n != INF ? n : 1 + r.below(60);
                s           = build(r, w, (int)r.below(3), want, false);
                for (auto& x : hs)
                    x->k = { s.m };
                valid = sizes_valid(t.m);
            }
            if (!valid)
                return;
            if (hs.size() > 1)
            {
                std::vector<std::shared_ptr<Log>> logs;
                logs_of(s.m, logs);
                for (auto& l : logs)
                    l->shared = true;
            }
            bool replaced = substitute(t.h, r.chance(0.5) ? s.h : H(std::move(s.h)));
            s.h           = H();
            if (replaced != !hs.empty())
                return fail("substitution of %zu placeholders told %d", hs.size(), (int)replaced);
            if (!evaluate(r, "substituted", w, t.m, t.h))
                return;
            evals(1);
        }
    }
    w.kept.clear(), w.probes.clear();
    for (auto& l : w.logs)
        if (l->live)
            return fail("%ld sources are left", l->live);
}

#endif
#if SUB == 1
// ---------------------------------------------------------------------------- placeholders inside compile-time expressions

template <typename E, typename... Keys>
static void typed(Rng& r, const char* what, E e, size_t n, const std::function<T(size_t, const univector<T>&)>& ref)
{
    for (int round = 0; round < 2; ++round)
    {
        univector<T> x(n), y;
        for (size_t i = 0; i < n; ++i)
            x[i] = T(r.range(-20, 20));
        if (!substitute(e, r.chance(0.5) ? to_handle(univector<T>(x)) : to_handle(x)))
            return fail("%s: nothing replaced", what);
        size_t s = get_shape(e).front(), m = std::min(s, n + 9);
        y = render(e, m);
        for (size_t i = 0; i < m; ++i)
            if (y[i] != ref(i, x))
                return fail("%s of %zu: element %zu is %g instead of %g", what, n, i, (double)std::real(y[i]), (double)std::real(ref(i, x)));
        evals(m);
    }
}
static void typed_all(Rng& r)
{
    size_t n = 1 + r.below(90);
    univector<T> v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = T(r.range(-20, 20));
    using V = const univector<T>&;
    auto P  = [] { return placeholder<T>(); };
    typed(r, "p", P(), n, [&](size_t i, V x) { return x[i]; });
    typed(r, "p + v", P() + v, n, [&](size_t i, V x) { return x[i] + v[i]; });
    typed(r, "v * 2 + p", v * T(2) + P(), n, [&](size_t i, V x) { return v[i] * T(2) + x[i]; });
    typed(r, "(v + v) * (v - p)", (v + v) * (v - P()), n, [&](size_t i, V x) { return (v[i] + v[i]) * (v[i] - x[i]); });
    typed(r, "p * p", P() * P(), n, [&](size_t i, V x) { return x[i] * x[i]; });
    typed(r, "p - 2 * p + v", P() - T(2) * P() + v, n, [&](size_t i, V x) { return x[i] - T(2) * x[i] + v[i]; });
    typed(r, "padded", padded(P() + T(1), T(7)), n, [&](size_t i, V x) { return i < n ? x[i] + T(1) : T(7); });
    typed(r, "concatenate", concatenate(P(), v), n, [&](size_t i, V x) { return i < n ? x[i] : v[i - n]; });
    typed(r, "concatenate 3", concatenate(v, P(), P()), n, [&](size_t i, V x) { return i < n ? v[i] : i < 2 * n ? x[i - n] : x[i - 2 * n]; });
    typed(r, "reverse", reverse(P()) - v, n, [&](size_t i, V x) { return x[n - 1 - i] - v[i]; });
    typed(r, "reverse of sum", reverse(P() + v), n, [&](size_t i, V x) { return x[n - 1 - i] + v[n - 1 - i]; });
    size_t k = r.below(n);
    typed(r, "slice", slice(P() - v, shape<1>{ (index_t)k }), n, [&](size_t i, V x) { return x[i + k] - v[i + k]; });
    typed(r, "handle", to_handle(T(3) * (v + P())), n, [&](size_t i, V x) { return T(3) * (v[i] + x[i]); });
    typed(r, "handle in expression", v + to_handle(T(3) * P()), n, [&](size_t i, V x) { return T(3) * x[i] + v[i]; });
    // keys
    {
        auto e = placeholder<T, 1, 1>() * T(2) - placeholder<T, 1, 2>() + placeholder<T, 1, 1>();
        univector<T> x(n), y;
        x = v * T(5);
        if (substitute(e, to_handle(v), csize_t<3>{}))
            return fail("a placeholder of another key was replaced");
        if (!substitute(e, to_handle(v), csize_t<2>{}))
            return fail("key 2 not replaced");
        y = render(e, n);
        for (size_t i = 0; i < n; ++i)
            if (y[i] != -v[i])
                return fail("key 2 replaced: element %zu of %zu", i, n);
        if (!substitute(e, to_handle(x), csize_t<1>{}))
            return fail("key 1 not replaced");
        y = render(e, n);
        for (size_t i = 0; i < n; ++i)
            if (y[i] != x[i] * T(3) - v[i])
                return fail("keys replaced: element %zu of %zu", i, n);
        evals(3);
    }
    // writing through a handle
    {
        univector<T> x(n, T(0));
        auto h   = to_handle(x);
        size_t a = r.below(n), l = r.below(n + 3);
        process(h, v + T(1), shape<1>{ (index_t)a }, shape<1>{ (index_t)l });
        for (size_t i = 0; i < n; ++i)
            if (x[i] != (i >= a && i < a + l ? v[i] + T(1) : T(0)))
                return fail("writing %zu+%zu through a handle of %zu: element %zu", a, l, n, i);
        evals(1);
    }
    seen(n * 100 + k);
}

// ---------------------------------------------------------------------------- stateful expressions inside
#if TYPE < 2
template <typename E1, typename E2>
static void twins(const char* what, size_t n, E1&& a, E2&& b)
{
    univector<T> x(n), y(n);
    x = a, y = b;
    for (size_t i = 0; i < n; ++i)
        if (!(std::abs(x[i] - y[i]) <= 1000 * eps<T>() * (1 + std::abs(y[i]))))
            return fail("%s of %zu: element %zu is %.9g instead of %.9g", what, n, i, (double)x[i], (double)y[i]);
    evals(n);
}
static void stateful(Rng& r)
{
    size_t n = 1 + r.below(100), k = r.below(n);
    univector<T> x(n);
    for (size_t i = 0; i < n; ++i)
        x[i] = (T)r.sym();
    biquad_section<T> s[4];
    for (auto& b : s)
        b = r.chance(0.5) ? biquad_lowpass<T>(0.05 + 0.3 * r.unit(), 0.7) : biquad_peak<T>(0.05 + 0.3 * r.unit(), 1, 4);
    auto fast = [&] { return iir(x, iir_params<T, 4>(s, 4)); };
    auto slow = [&] { return iir(iir(iir(iir(x, iir_params<T, 1>(s, 1)), iir_params<T, 1>(s + 1, 1)), iir_params<T, 1>(s + 2, 1)), iir_params<T, 1>(s + 3, 1)); };
    twins("cascade", n, fast(), slow());
    twins("handle of a cascade", n, to_handle(fast()), slow());
    twins("handle of a handle of a cascade", n, to_handle(to_handle(fast())), slow());
    twins("slice of a cascade", n - k, slice(fast(), shape<1>{ (index_t)k }), slice(slow(), shape<1>{ (index_t)k }));
    twins("padded cascade", n + 40, padded(fast()), padded(slow()));
    twins("joined cascades", 2 * n, concatenate(fast(), fast()), concatenate(slow(), slow()));
    twins("slice of joined cascades", 2 * n - k, slice(concatenate(fast(), fast()), shape<1>{ (index_t)k }), slice(concatenate(slow(), slow()), shape<1>{ (index_t)k }));
    auto p = T(2) * placeholder<T>() - x;
    substitute(p, to_handle(fast()));
    twins("substituted cascade", n, p, T(2) * slow() - x);
    auto q = to_handle(T(2) * placeholder<T>());
    substitute(q, to_handle(fir(fast(), x)));
    twins("substituted filters", n, q, T(2) * fir(slow(), x));
    // in pieces, empty ones included
    auto f = to_handle(fast() + T(1));
    univector<T> y(n), z(n);
    z = slow() + T(1);
    for (size_t pos = 0; pos < n;)
    {
        size_t len = std::min(n - pos, (size_t)r.below(12));
        process(y, f, shape<1>{ (index_t)pos }, shape<1>{ (index_t)len });
        pos += len;
    }
    twins("cascade in pieces", n, y, z);
    seen(hash_bytes(x.data(), n * sizeof(T)));
}
#else
static void stateful(Rng&) {}
#endif

#endif
#if SUB == 2
// ---------------------------------------------------------------------------- several dimensions and all widths

template <index_t D>
struct grid : expression_traits_defaults
{
    using value_type             = T;
    constexpr static size_t dims = D;
    shape<D> n;
    unsigned seed;
    mutable std::string error;
    constexpr static shape<D> get_shape(const grid& self) { return self.n; }
    constexpr static shape<D> get_shape() { return shape<D>(undefined_size); }
    T at(const shape<D>& i) const
    {
        size_t s = seed;
        for (index_t d = 0; d < D; ++d)
            s = s * 31 + i[d] * (d + 3);
        return (T)(double)(int)(s % 101);
    }
    template <index_t Axis, size_t N>
    friend vec<T, N> get_elements(const grid& self, const shape<D>& index, const axis_params<Axis, N>&)
    {
        vec<T, N> r;
        shape<D> i = index;
        for (size_t k = 0; k < N; ++k, ++i[Axis])
            r[k] = self.at(i);
        for (index_t d = 0; d < D; ++d)
            if (index[d] + (d == Axis ? N : 1) > self.n[d])
                self.error = "outside";
        return r;
    }
};

template <index_t D, index_t Axis, size_t N>
static void one_read(Rng& r, const grid<D>& g, const expression_handle<T, D>& h)
{
    if (g.n[Axis] < N)
        return;
    shape<D> i;
    for (index_t d = 0; d < D; ++d)
        i[d] = (index_t)r.below(d == Axis ? g.n[d] - N + 1 : g.n[d]);
    vec<T, N> x = get_elements(h, i, axis_params_v<Axis, N>);
    for (size_t k = 0; k < N; ++k)
    {
        shape<D> j = i;
        j[Axis] += k;
        if ((T)x[k] != g.at(j))
            return fail("read of %zu along axis %zu of %zu dimensions: lane %zu", N, (size_t)Axis, (size_t)D, k);
    }
    evals(1);
}
template <index_t D, index_t Axis>
static void reads(Rng& r, const grid<D>& g, const expression_handle<T, D>& h)
{
    if constexpr (Axis < D)
        one_read<D, Axis, 1>(r, g, h), one_read<D, Axis, 2>(r, g, h), one_read<D, Axis, 4>(r, g, h), one_read<D, Axis, 8>(r, g, h), one_read<D, Axis, 16>(r, g, h), one_read<D, Axis, 32>(r, g, h),
            one_read<D, Axis, 64>(r, g, h), one_read<D, Axis, 128>(r, g, h), one_read<D, Axis, 256>(r, g, h);
}
template <index_t D, index_t Axis>
static void fill_along(Rng& r, const grid<D>& g, const expression_handle<T, D>& h)
{
    if constexpr (Axis < D)
    {
        tensor<T, D> out(g.n, T(-1));
        shape<D> start, size, i(0);
        for (index_t d = 0; d < D; ++d)
            start[d] = (index_t)r.below(g.n[d]), size[d] = (index_t)(1 + r.below(g.n[d]));
        process<0, Axis>(out, h, start, size);
        do
        {
            bool in = true;
            for (index_t d = 0; d < D; ++d)
                in = in && i[d] >= start[d] && i[d] < start[d] + size[d];
            if (out.access(i) != (in ? g.at(i) : T(-1)))
                return fail("a part along axis %zu of %zu dimensions", (size_t)Axis, (size_t)D);
        } while (internal_generic::increment_indices(i, shape<D>(0), g.n));
        evals(1);
    }
}
template <index_t D>
static void grids(Rng& r)
{
    grid<D> g;
    g.seed = (unsigned)r.below(1000);
    for (index_t d = 0; d < D; ++d)
        g.n[d] = (index_t)(1 + r.below(D == 1 ? 600 : D == 2 ? 40 : 12));
    if (r.chance(0.3))
        g.n[r.below(D)] = (index_t)(D == 3 ? 130 : 300);
    bool value = r.chance(0.5);
    grid<D> copy(g);
    expression_handle<T, D> h = value ? to_handle(std::move(copy)) : to_handle(g);
    for (index_t d = 0; d < D; ++d)
        if (get_shape(h)[d] != g.n[d])
            return fail("shape of a handle of %zu dimensions", (size_t)D);
    for (int i = 0; i < 20; ++i)
        reads<D, 0>(r, g, h), reads<D, 1>(r, g, h), reads<D, 2>(r, g, h);
    fill_along<D, 0>(r, g, h), fill_along<D, 1>(r, g, h), fill_along<D, 2>(r, g, h);
    // tensors
    tensor<T, D> t(g.n);
    t = h;
    expression_handle<T, D> th = to_handle(t);
    fill_along<D, 0>(r, g, th), fill_along<D, D - 1>(r, g, th);
    auto e = to_handle(th + placeholder<T, D>());
    if (!substitute(e, h))
        return fail("placeholder of %zu dimensions", (size_t)D);
    tensor<T, D> u(g.n);
    u = e;
    shape<D> i(0);
    do
        if (u.access(i) != g.at(i) + g.at(i))
            return fail("substitution in %zu dimensions", (size_t)D);
    while (internal_generic::increment_indices(i, shape<D>(0), g.n));
    if (!g.error.empty())
        fail("read outside in %zu dimensions", (size_t)D);
    seen(g.seed * 1000 + g.n[0]);
}

#endif
int main(int argc, char** argv)
{
    init(argc, argv);
    const char* name[] = { "f32", "f64", "i32", "c64" };
    size_t n           = thorough() ? 20000 : 1500;
    for (size_t k = 0; k < n; ++k)
    {
#if SUB == 0
        if (begin("%s trees k=%zu", name[TYPE], k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 10; ++i)
                trees(r);
        }
#elif SUB == 1
        if (begin("%s typed k=%zu", name[TYPE], k))
        {
            Rng r = case_rng();
            typed_all(r), stateful(r);
        }
#else
        if (begin("%s grids k=%zu", name[TYPE], k))
        {
            Rng r = case_rng();
            grids<1>(r), grids<2>(r), grids<3>(r);
        }
#endif
    }
    return done();
}
