// C34: sort and sortdesc against the sorted multiset of the input.
#include "simd.hpp"
#include <algorithm>
using namespace kfr;
using namespace vk;

template <typename T> T gen_num(Rng& r)
{
    for (;;) { T x = gen<T>(r); if (x == x) return x; }
}

template <typename T> void go(const char* name, size_t N, bool desc, void (*op)(const T*, T*))
{
    if (!vk::begin("%s/%zu/%s/" VK_CC, name, N, tname<T>()))
        return;
    std::vector<T> ref(N);
    Buf<T> a(N), o(N);
    size_t pairs = 0;
    auto check = [&](const char* what)
    {
        std::copy(a.data(), a.data() + N, ref.begin());
        std::sort(ref.begin(), ref.end());
        if (desc) std::reverse(ref.begin(), ref.end());
        op(a.data(), o.data());
        if (!a.intact() || !o.intact()) vk::fail("memory beyond the vector written");
        for (size_t i = 0; i < N; ++i)
            if (!(o.data()[i] == ref[i]))
            {
                std::string in;
                for (size_t k = 0; k < std::min(N, size_t(16)); ++k) in += " " + show(a.data()[k]);
                vk::fail("%s: place %zu holds %s, sorted input has %s; input%s", what, i, show(o.data()[i]).c_str(),
                         show(ref[i]).c_str(), in.c_str());
                return false;
            }
        ++pairs;
        return true;
    };
    Rng r = vk::case_rng(1);
    // zero-one principle: a comparator network sorts everything iff it sorts every 0-1 input
    const size_t lim = vk::thorough() ? 20 : 16;
    if (N <= lim)
        for (size_t m = 0; m < (size_t(1) << N); ++m)
        {
            for (size_t i = 0; i < N; ++i) a.data()[i] = T((m >> i) & 1);
            if (!check("0-1 input")) return;
        }
    else
    {
        // structured 0-1 inputs: every run of ones (also cyclic) and every comb, then random masks of each weight
        for (size_t s = 0; s < N; ++s)
            for (size_t l = 1; l < N; l += N > 32 && !vk::thorough() ? 3 : 1)
            {
                for (size_t i = 0; i < N; ++i) a.data()[i] = T((i + N - s) % N < l);
                if (!check("run of ones")) return;
            }
        for (size_t it = 0; it < (vk::thorough() ? 40000u : 3000u); ++it)
        {
            double p = r.unit();
            for (size_t i = 0; i < N; ++i) a.data()[i] = T(r.chance(p));
            if (!check("random 0-1 input")) return;
        }
    }
    vk::stat("zero_one_inputs", (double)pairs);
    // permutations: ascending, descending, organ pipe, rotations, random
    for (size_t it = 0; it < N + (vk::thorough() ? 4000u : 400u); ++it)
    {
        for (size_t i = 0; i < N; ++i) a.data()[i] = T(it < N ? (i + it) % N : i);
        if (it & 1) std::reverse(a.data(), a.data() + N);
        if (it >= N)
            for (size_t i = N; i > 1; --i) std::swap(a.data()[i - 1], a.data()[r.below(i)]);
        if (!check("permutation")) return;
    }
    // extreme values, duplicates, infinities
    for (size_t it = 0; it < (vk::thorough() ? 10000u : 600u); ++it)
    {
        size_t kinds = 1 + r.below(N);
        std::vector<T> v(kinds);
        for (T& x : v) x = gen_num<T>(r);
        for (size_t i = 0; i < N; ++i) a.data()[i] = it % 3 ? v[r.below(kinds)] : gen_num<T>(r);
        if (!check("edge values")) return;
        vk::seen(hash_bytes(a.data(), N * sizeof(T)));
    }
    vk::evals(pairs * N);
    vk::seen(hash_bytes(name, strlen(name)) + N);
}

template <typename T, size_t N> void one()
{
    go<T>("sort", N, false, [](const T* p, T* o) { write(o, vec<T, N>(kfr::sort(read<N>(p)))); });
    go<T>("sortdesc", N, true, [](const T* p, T* o) { write(o, vec<T, N>(kfr::sortdesc(read<N>(p)))); });
}
template <typename T> void all()
{
#ifdef VKN2
    one<T, 2>();
#endif
    one<T, 4>(); one<T, 8>(); one<T, 16>(); one<T, 32>(); one<T, 64>();
}
int main(int argc, char** argv)
{
    if (!cpu_ok()) return 0;
    vk::init(argc, argv);
#define RUN(T) all<T>();
    VK_TYPES(RUN)
    return vk::done();
}
