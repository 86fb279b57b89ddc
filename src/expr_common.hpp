// Probes for expressions: an input whose every lane read is checked against its shape, and an output that
// records every write. Shared by the expression, shape and handle monitors.
#pragma once
#include "vk.hpp"
#include <kfr/base.hpp>
#include <optional>
using namespace vk;
using kfr::index_t;
using kfr::shape;
using kfr::vec;

inline bool probe_quiet = false;
inline int probe_bad    = 0;
inline const char* probe_what = "";
inline u64 probe_reads = 0;

static inline i64 mixidx(const index_t* idx, size_t n, u64 salt)
{
    u64 h = salt * 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ (idx[i] + 0x1234567ull * (i + 1))) * 0xff51afd7ed558ccdull, h ^= h >> 32;
    return (i64)(h % 201) - 100;
}

/// Input of the given shape. Sh = 0 in all extents: known at run time only.
template <typename T, index_t D, bool Infinite = false, index_t... Fixed>
struct probe : kfr::expression_traits_defaults
{
    using value_type             = T;
    constexpr static size_t dims = D;
    shape<D> sh;
    u64 salt;
    probe(shape<D> s, u64 salt) : sh(s), salt(salt) {}
    probe(const probe& o) : sh(o.sh), salt(o.salt) {}
    probe(probe&& o) : sh(o.sh), salt(o.salt)
    {
        // a moved-from object must not be used any more
        for (index_t i = 0; i < D; ++i)
            o.sh[i] = 999983 + i;
        o.salt = ~0ull;
    }
    constexpr static shape<D> get_shape(const probe& p) { return p.sh; }
    constexpr static shape<D> get_shape()
    {
        if constexpr (Infinite)
            return shape<D>(kfr::infinite_size);
        else if constexpr (sizeof...(Fixed) > 0)
            return shape<D>{ Fixed... };
        else
            return shape<D>(kfr::undefined_size);
    }
    T at(const shape<D>& idx) const { return (T)mixidx(idx.data(), D, salt); }

    template <index_t Axis, size_t N>
    friend vec<T, N> get_elements(const probe& self, const shape<D>& index, const kfr::axis_params<Axis, N>&)
    {
        static_assert(Axis < D, "axis outside the expression");
        vec<T, N> r;
        shape<D> idx = index;
        for (size_t i = 0; i < N; ++i)
        {
            ++probe_reads;
            for (index_t d = 0; d < D; ++d)
                if (idx[d] >= self.sh[d])
                {
                    if (probe_bad++ == 0 && !probe_quiet)
                        fail("%s: operand of shape [%s] read at [%s] (lane %zu of %zu along axis %d)", probe_what,
                             kfr::array_to_string(D, self.sh.data()).c_str(), kfr::array_to_string(D, idx.data()).c_str(), i, N,
                             (int)Axis);
                    break;
                }
            r[i] = self.at(idx);
            ++idx[Axis];
        }
        return r;
    }
};

template <index_t D>
static std::string str(const shape<D>& s)
{
    std::string r = "[";
    for (index_t i = 0; i < D; ++i)
        r += (i ? "," : "") + (s[i] == kfr::infinite_size ? std::string("inf") : std::to_string(s[i]));
    return r + "]";
}

template <index_t D>
static bool next_index(shape<D>& idx, const shape<D>& stop)
{
    for (int d = (int)D - 1; d >= 0; --d)
    {
        if (++idx[d] < stop[d])
            return true;
        idx[d] = 0;
    }
    return false;
}
template <index_t D>
static index_t flat(const shape<D>& s, const shape<D>& idx)
{
    index_t f = 0;
    for (index_t d = 0; d < D; ++d)
        f = f * s[d] + idx[d];
    return f;
}
template <index_t D>
static index_t count(const shape<D>& s)
{
    index_t f = 1;
    for (index_t d = 0; d < D; ++d)
        f *= s[d];
    return f;
}

/// Output of the given shape recording every write.
template <typename T, index_t D, index_t... Fixed>
struct recorder : kfr::expression_traits_defaults
{
    using value_type             = T;
    constexpr static size_t dims = D;
    shape<D> sh;
    std::vector<T> value;
    std::vector<int> writes;
    int outside = 0;
    shape<D> where;
    recorder(shape<D> s) : sh(s), value(count(s)), writes(count(s)) {}
    constexpr static shape<D> get_shape(const recorder& p) { return p.sh; }
    constexpr static shape<D> get_shape()
    {
        if constexpr (sizeof...(Fixed) > 0)
            return shape<D>{ Fixed... };
        else
            return shape<D>(kfr::undefined_size);
    }
    template <index_t Axis, size_t N>
    friend vec<T, N> get_elements(const recorder& self, const shape<D>& index, const kfr::axis_params<Axis, N>&)
    {
        vec<T, N> r;
        shape<D> idx = index;
        for (size_t i = 0; i < N; ++i, ++idx[Axis])
            r[i] = self.value.at(flat(self.sh, idx));
        return r;
    }
    template <index_t Axis, size_t N>
    friend void set_elements(recorder& self, const shape<D>& index, const kfr::axis_params<Axis, N>&,
                             const kfr::identity<vec<T, N>>& v)
    {
        shape<D> idx = index;
        for (size_t i = 0; i < N; ++i, ++idx[Axis])
        {
            bool in = true;
            for (index_t d = 0; d < D; ++d)
                in = in && idx[d] < self.sh[d];
            if (!in)
            {
                if (self.outside++ == 0)
                    self.where = idx;
                continue;
            }
            self.value[flat(self.sh, idx)] = v[i];
            self.writes[flat(self.sh, idx)]++;
        }
    }
};
