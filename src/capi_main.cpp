// C32: the C API against the C++ objects it wraps: same bits for the same arguments, sizes, null arguments, errors, leaks.
#define KFR_NO_C_COMPLEX_TYPES 1
#include "isa.hpp"
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <kfr/capi.h>
#include <cstring>
#include <memory>
#include <thread>
using namespace kfr;

#ifndef PART
#define PART 0
#endif

template <typename T>
struct Api;
#define VK_API(T, SFX, BIG)                                                                                             \
    template <>                                                                                                         \
    struct Api<T>                                                                                                       \
    {                                                                                                                   \
        using Dft  = KFR_DFT_PLAN_##BIG;                                                                                \
        using Real = KFR_DFT_REAL_PLAN_##BIG;                                                                           \
        using Dct  = KFR_DCT_PLAN_##BIG;                                                                                \
        using Flt  = KFR_FILTER_##BIG;                                                                                  \
        static constexpr auto create    = kfr_dft_create_plan_##SFX;                                                    \
        static constexpr auto create2   = kfr_dft_create_2d_plan_##SFX;                                                 \
        static constexpr auto create3   = kfr_dft_create_3d_plan_##SFX;                                                 \
        static constexpr auto createmd  = kfr_dft_create_md_plan_##SFX;                                                 \
        static constexpr auto size      = kfr_dft_get_size_##SFX;                                                       \
        static constexpr auto tsize     = kfr_dft_get_temp_size_##SFX;                                                  \
        static constexpr auto exec      = kfr_dft_execute_##SFX;                                                        \
        static constexpr auto iexec     = kfr_dft_execute_inverse_##SFX;                                                \
        static constexpr auto del       = kfr_dft_delete_plan_##SFX;                                                    \
        static constexpr auto rcreate   = kfr_dft_real_create_plan_##SFX;                                               \
        static constexpr auto rcreate2  = kfr_dft_real_create_2d_plan_##SFX;                                            \
        static constexpr auto rcreate3  = kfr_dft_real_create_3d_plan_##SFX;                                            \
        static constexpr auto rcreatemd = kfr_dft_real_create_md_plan_##SFX;                                            \
        static constexpr auto rsize     = kfr_dft_real_get_size_##SFX;                                                  \
        static constexpr auto rtsize    = kfr_dft_real_get_temp_size_##SFX;                                             \
        static constexpr auto rexec     = kfr_dft_real_execute_##SFX;                                                   \
        static constexpr auto riexec    = kfr_dft_real_execute_inverse_##SFX;                                           \
        static constexpr auto rdel      = kfr_dft_real_delete_plan_##SFX;                                               \
        static constexpr auto ccreate   = kfr_dct_create_plan_##SFX;                                                    \
        static constexpr auto csize     = kfr_dct_get_size_##SFX;                                                       \
        static constexpr auto ctsize    = kfr_dct_get_temp_size_##SFX;                                                  \
        static constexpr auto cexec     = kfr_dct_execute_##SFX;                                                        \
        static constexpr auto ciexec    = kfr_dct_execute_inverse_##SFX;                                                \
        static constexpr auto cdel      = kfr_dct_delete_plan_##SFX;                                                    \
        static constexpr auto fir       = kfr_filter_create_fir_plan_##SFX;                                             \
        static constexpr auto conv      = kfr_filter_create_convolution_plan_##SFX;                                     \
        static constexpr auto iir       = kfr_filter_create_iir_plan_##SFX;                                             \
        static constexpr auto process   = kfr_filter_process_##SFX;                                                     \
        static constexpr auto reset     = kfr_filter_reset_##SFX;                                                       \
        static constexpr auto fdel      = kfr_filter_delete_plan_##SFX;                                                 \
        static constexpr auto name      = #SFX;                                                                         \
        static constexpr auto dump      = kfr_dft_dump_##SFX;                                                           \
        static constexpr auto rdump     = kfr_dft_real_dump_##SFX;                                                      \
        static constexpr auto cdump     = kfr_dct_dump_##SFX;                                                           \
    };
VK_API(float, f32, F32)
VK_API(double, f64, F64)

/// a buffer with the alignment which the library asks for and red zones
template <typename T>
static bool same_bits(const T* a, const T* b, size_t n) { return n == 0 || !std::memcmp((const void*)a, (const void*)b, n * sizeof(T)); }

static void no_error(const char* what)
{
    if (kfr_last_error()[0])
        fail("%s: kfr_last_error() is \"%.80s\" after success", what, kfr_last_error());
}
template <typename T>
static void fill(Rng& r, T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = (T)r.sym();
}

// ---- transforms ---------------------------------------------------------------------------------------------
/// the same transform through both interfaces; nin and nout in numbers T
template <typename T, typename F, typename G>
static void twice(const char* what, Rng& r, size_t nin, size_t nout, size_t ts, F c_api, G cpp, bool can_inplace)
{
    evals();
    size_t cap = std::max(nin, nout);
    for (int v = 0; v < 3; ++v)
    {
        bool inplace = v == 1 && can_inplace;
        Buf<T> in(inplace ? cap : nin), out(nout), ref(nout), in2(inplace ? cap : nin);
        Buf<u8> temp(ts);
        fill(r, in.data(), nin);
        std::memcpy(in2.data(), in.data(), nin * sizeof(T));
        std::vector<T> orig(in.data(), in.data() + nin);
        T* o  = inplace ? in.data() : out.data();
        T* o2 = inplace ? in2.data() : ref.data();
        c_api(o, in.data(), v == 2 ? nullptr : temp.data());
        cpp(o2, in2.data(), nullptr);
        if (!in.intact() || !out.intact() || !temp.intact())
            return fail("%s wrote outside a buffer", what);
        if (!inplace && !same_bits(in.data(), orig.data(), nin))
            return fail("%s changed its input", what);
        if (!same_bits(o, o2, nout))
            return fail("%s%s%s differs from the C++ API", what, inplace ? " in place" : "", v == 2 ? " without scratch" : "");
        no_error(what);
    }
}
template <typename T>
static void dft1(size_t n, Rng& r)
{
    using A  = Api<T>;
    using C  = complex<T>;
    char w[200];
    auto* p = A::create(n);
    if (!p)
        return fail("dft plan of size %zu was not created: %s", n, kfr_last_error());
    no_error("creation");
    {
        dft_plan<T> q(n);
        snprintf(w, sizeof(w), "dft %zu %s", n, A::name);
        if (A::size(p) != n || A::tsize(p) != q.temp_size)
            fail("%s: size %zu, scratch size %zu instead of %zu", w, A::size(p), A::tsize(p), q.temp_size);
        twice<T>(w, r, 2 * n, 2 * n, A::tsize(p), [&](T* o, T* i, u8* t) { A::exec(p, (T*)o, (const T*)i, t); },
                 [&](T* o, T* i, u8* t) { q.execute((C*)o, (const C*)i, t, false); }, true);
        snprintf(w, sizeof(w), "inverse dft %zu %s", n, A::name);
        twice<T>(w, r, 2 * n, 2 * n, A::tsize(p), [&](T* o, T* i, u8* t) { A::iexec(p, (T*)o, (const T*)i, t); },
                 [&](T* o, T* i, u8* t) { q.execute((C*)o, (const C*)i, t, true); }, true);
    }
    A::del(p);
    for (int pack = 0; pack < 2; ++pack)
    {
        auto* p = A::rcreate(n, pack ? CCs : Perm);
        if (n % 2)
        {
            if (p)
                fail("real dft plan of odd size %zu was created", n), A::rdel(p);
            else if (!kfr_last_error()[0])
                fail("real dft plan of odd size %zu failed without an error message", n);
            // an error does not outlive the next success
            A::rdel(A::rcreate(2, CCs));
            no_error("success after an error");
            continue;
        }
        if (!p)
        {
            fail("real dft plan of size %zu was not created: %s", n, kfr_last_error());
            continue;
        }
        dft_plan_real<T> q(n, pack ? dft_pack_format::CCs : dft_pack_format::Perm);
        snprintf(w, sizeof(w), "real dft %zu %s format %d", n, A::name, pack);
        if (A::rsize(p) != n || A::rtsize(p) != q.temp_size)
            fail("%s: size %zu, scratch size %zu instead of %zu", w, A::rsize(p), A::rtsize(p), q.temp_size);
        size_t cn = pack ? n + 2 : n;
        twice<T>(w, r, n, cn, A::rtsize(p), [&](T* o, T* i, u8* t) { A::rexec(p, (T*)o, (const T*)i, t); },
                 [&](T* o, T* i, u8* t) { q.execute((C*)o, (const T*)i, t); }, true);
        snprintf(w, sizeof(w), "inverse real dft %zu %s format %d", n, A::name, pack);
        twice<T>(w, r, cn, n, A::rtsize(p), [&](T* o, T* i, u8* t) { A::riexec(p, (T*)o, (const T*)i, t); },
                 [&](T* o, T* i, u8* t) { q.execute((T*)o, (const C*)i, t); }, true);
        A::rdel(p);
    }
    auto* d = A::ccreate(n);
    if (!d)
        return fail("dct plan of size %zu was not created: %s", n, kfr_last_error());
    dct_plan<T> q(n);
    snprintf(w, sizeof(w), "dct %zu %s", n, A::name);
    if (A::csize(d) != n || A::ctsize(d) != q.temp_size)
        fail("%s: size %zu, scratch size %zu instead of %zu", w, A::csize(d), A::ctsize(d), q.temp_size);
    twice<T>(w, r, n, n, A::ctsize(d), [&](T* o, T* i, u8* t) { A::cexec(d, o, i, t); },
             [&](T* o, T* i, u8* t) { q.execute(o, i, t, false); }, true);
    snprintf(w, sizeof(w), "inverse dct %zu %s", n, A::name);
    twice<T>(w, r, n, n, A::ctsize(d), [&](T* o, T* i, u8* t) { A::ciexec(d, o, i, t); },
             [&](T* o, T* i, u8* t) { q.execute(o, i, t, true); }, true);
    A::cdel(d);
}
template <typename T>
static void dftmd(const std::vector<unsigned>& s, Rng& r)
{
    using A = Api<T>;
    using C = complex<T>;
    char w[200];
    size_t n = 1;
    shape<dynamic_shape> sh(s.size());
    std::string d;
    for (size_t i = 0; i < s.size(); ++i)
        n *= s[i], sh[i] = s[i], d += (i ? "x" : "") + std::to_string(s[i]);
    for (int kind = 0; kind < 2; ++kind)
    {
        if (kind == 1 && s.size() != 2 && s.size() != 3)
            continue;
        auto* p = kind == 0 ? A::createmd(s.size(), s.data()) : s.size() == 2 ? A::create2(s[0], s[1]) : A::create3(s[0], s[1], s[2]);
        if (!p)
        {
            fail("dft plan %s was not created: %s", d.c_str(), kfr_last_error());
            continue;
        }
        {
            dft_plan_md<T, dynamic_shape> q(sh);
            snprintf(w, sizeof(w), "dft %s %s by %d", d.c_str(), A::name, kind);
            if (A::size(p) != n || A::tsize(p) != q.temp_size)
                fail("%s: size %zu instead of %zu, scratch size %zu instead of %zu", w, A::size(p), n, A::tsize(p), q.temp_size);
            twice<T>(w, r, 2 * n, 2 * n, A::tsize(p), [&](T* o, T* i, u8* t) { A::exec(p, (T*)o, (const T*)i, t); },
                     [&](T* o, T* i, u8* t) { q.execute((C*)o, (const C*)i, t, false); }, true);
            snprintf(w, sizeof(w), "inverse dft %s %s by %d", d.c_str(), A::name, kind);
            twice<T>(w, r, 2 * n, 2 * n, A::tsize(p), [&](T* o, T* i, u8* t) { A::iexec(p, (T*)o, (const T*)i, t); },
                     [&](T* o, T* i, u8* t) { q.execute((C*)o, (const C*)i, t, true); }, true);
        }
        A::del(p);
        if (s.back() % 2)
            continue;
        for (int en = 0; en < 2; ++en)
        {
            auto* p = kind == 0 ? A::rcreatemd(s.size(), s.data(), en)
                                : s.size() == 2 ? A::rcreate2(s[0], s[1], en) : A::rcreate3(s[0], s[1], s[2], en);
            if (!p)
            {
                fail("real dft plan %s was not created: %s", d.c_str(), kfr_last_error());
                continue;
            }
            dft_plan_md_real<T, dynamic_shape> q(sh, en);
            size_t cn = 2 * (size_t)q.complex_size().product();
            snprintf(w, sizeof(w), "real dft %s %s by %d", d.c_str(), A::name, kind);
            if (A::rsize(p) != n || A::rtsize(p) != q.temp_size)
                fail("%s: size %zu instead of %zu, scratch size %zu instead of %zu", w, A::rsize(p), n, A::rtsize(p), q.temp_size);
            twice<T>(w, r, n, cn, A::rtsize(p), [&](T* o, T* i, u8* t) { A::rexec(p, (T*)o, (const T*)i, t); },
                     [&](T* o, T* i, u8* t) { q.execute((C*)o, (const T*)i, t); }, true);
            snprintf(w, sizeof(w), "inverse real dft %s %s by %d, real_out_is_enough %d", d.c_str(), A::name, kind, en);
            const size_t ro = q.real_out_size();
            // only the first n of the output have a meaning
            auto cut = [&](T* o) { std::memset(o + n, 0, (ro - n) * sizeof(T)); };
            twice<T>(w, r, cn, ro, A::rtsize(p), [&](T* o, T* i, u8* t) { A::riexec(p, (T*)o, (const T*)i, t), cut(o); },
                     [&](T* o, T* i, u8* t) { q.execute((T*)o, (const C*)i, t), cut(o); }, false);
            A::rdel(p);
        }
    }
}

// ---- filters ------------------------------------------------------------------------------------------------
template <typename T>
static void filters(int k, Rng& r)
{
    using A     = Api<T>;
    size_t taps = (size_t)r.range(1, k % 3 ? 60 : 700), n = (size_t)r.range(0, 3000);
    univector<T> h(taps);
    fill(r, h.data(), taps);
    size_t block    = r.chance(0.3) ? 0 : (size_t)1 << r.range(3, 9);
    const int kinds = 3;
    for (int kind = 0; kind < kinds; ++kind)
    {
        typename A::Flt* p = nullptr;
        std::unique_ptr<filter<T>> q;
        std::vector<T> src(h.begin(), h.end()); // plans keep their own copy
        std::vector<biquad_section<T>> sec;
        if (kind == 0)
            p = A::fir(src.data(), taps), q.reset(new fir_filter<T>(make_univector(h.data(), taps)));
        else if (kind == 1)
            p = A::conv(src.data(), taps, block), q.reset(new convolve_filter<T>(make_univector(h.data(), taps), block ? block : 1024));
        else
        {
            size_t cnt = (size_t)r.range(1, 16);
            std::vector<T> sos;
            for (size_t i = 0; i < cnt; ++i)
            {
                biquad_section<T> s = biquad_lowpass<T>((T)(0.02 + 0.4 * r.unit()), (T)(0.3 + r.unit()));
                sec.push_back(s);
                T c[6] = { s.a0, s.a1, s.a2, s.b0, s.b1, s.b2 };
                sos.insert(sos.end(), c, c + 6);
            }
            p = A::iir(sos.data(), cnt), q.reset(new iir_filter<T>(iir_params<T>(sec.data(), cnt)));
            std::fill(sos.begin(), sos.end(), T(77));
        }
        std::fill(src.begin(), src.end(), T(99));
        if (!p)
        {
            fail("filter of kind %d with %zu taps was not created: %s", kind, taps, kfr_last_error());
            continue;
        }
        no_error("creation of a filter");
        for (int round = 0; round < 2; ++round)
        {
            evals();
            Buf<T> in(n), out(n), ref(n);
            fill(r, in.data(), n);
            std::vector<T> orig(in.data(), in.data() + n);
            bool inplace = r.chance(0.4);
            size_t i     = 0;
            while (i < n)
            {
                size_t c = std::min(n - i, (size_t)r.range(0, r.chance(0.5) ? 20 : 900));
                A::process(p, (inplace ? in.data() : out.data()) + i, in.data() + i, c);
                q->apply(ref.data() + i, orig.data() + i, c);
                i += c;
            }
            no_error("processing");
            if (!in.intact() || !out.intact())
                fail("filter of kind %d, %zu taps wrote outside of its buffers", kind, taps);
            if (!same_bits(inplace ? in.data() : out.data(), ref.data(), n))
                fail("filter of kind %d, %zu taps, block %zu%s%s differs from the C++ filter", kind, taps, block, inplace ? ", in place" : "",
                     round ? ", after a reset" : "");
            A::reset(p);
            if (kind == 2) // a C++ filter made anew: what a reset filter behaves like
                q.reset(new iir_filter<T>(iir_params<T>(sec.data(), sec.size())));
            else if (kind == 0)
                q.reset(new fir_filter<T>(make_univector(h.data(), taps)));
            else
                q->reset();
        }
        A::fdel(p);
    }
    // as many sections as one likes fail with an error or work, but do not escape
    size_t cnt = (size_t)r.range(17, 200);
    std::vector<T> sos(cnt * 6, T(0));
    for (size_t i = 0; i < cnt; ++i)
        sos[i * 6] = sos[i * 6 + 3] = T(1);
    auto* p = A::iir(sos.data(), cnt);
    if (!p && !kfr_last_error()[0])
        fail("iir filter of %zu sections failed without an error message", cnt);
    if (p)
    {
        T x[5] = { 1, 2, 3, 4, 5 }, y[5];
        A::process(p, y, x, 5);
        if (std::memcmp(x, y, sizeof(x)))
            fail("iir filter of %zu identity sections changes its input", cnt);
    }
    A::fdel(p);
}
template <typename T>
static void nulls()
{
    using A = Api<T>;
    A::del(nullptr), A::rdel(nullptr), A::cdel(nullptr), A::fdel(nullptr);
    no_error("deleting nothing");
}

// ---- memory -------------------------------------------------------------------------------------------------
static void memory(Rng& r)
{
    struct Block
    {
        unsigned char* p;
        size_t size, align;
        unsigned char tag;
        int refs;
    };
    std::vector<Block> live;
    auto check = [&](const Block& b, const char* when)
    {
        if ((uintptr_t)b.p % b.align)
            fail("%s: block of %zu is not aligned to %zu", when, b.size, b.align);
        if (kfr_allocated_size(b.p) != b.size)
            fail("%s: allocated size %zu instead of %zu", when, kfr_allocated_size(b.p), b.size);
        for (size_t i = 0; i < b.size; ++i)
            if (b.p[i] != (unsigned char)(b.tag + i))
                return fail("%s: byte %zu of a block of %zu changed", when, i, b.size);
    };
    auto put = [&](Block& b)
    {
        b.tag = (unsigned char)r.next();
        for (size_t i = 0; i < b.size; ++i)
            b.p[i] = (unsigned char)(b.tag + i);
    };
    for (int step = 0; step < 200; ++step)
    {
        evals();
        int what = (int)r.below(10);
        if (live.size() < 2 || (what < 4 && live.size() < 40))
        {
            Block b;
            b.size  = (size_t)r.range(1, r.chance(0.2) ? 20000 : 200);
            b.align = r.chance(0.5) ? 64 : (size_t)1 << r.range(0, 15);
            b.refs  = 1;
            b.p     = (unsigned char*)(b.align == 64 ? kfr_allocate(b.size) : kfr_allocate_aligned(b.size, b.align));
            if (!b.p)
            {
                fail("allocation of %zu aligned to %zu failed", b.size, b.align);
                return;
            }
            put(b);
            check(b, "allocated");
            live.push_back(b);
            continue;
        }
        size_t i = r.below(live.size());
        Block& b = live[i];
        check(b, "later");
        if (what < 6 && b.refs == 1)
        {
            size_t ns = (size_t)r.range(0, r.chance(0.3) ? 20000 : 300);
            size_t al = r.chance(0.5) ? 64 : (size_t)1 << r.range(0, 12);
            auto* np  = (unsigned char*)(al == 64 ? kfr_reallocate(b.p, ns) : kfr_reallocate_aligned(b.p, ns, al));
            if (ns == 0)
            {
                if (np)
                    fail("reallocation to 0 returned a block");
                live.erase(live.begin() + i);
                continue;
            }
            if (!np)
                return fail("reallocation to %zu failed", ns);
            for (size_t j = 0; j < std::min(ns, b.size); ++j)
                if (np[j] != (unsigned char)(b.tag + j))
                {
                    fail("reallocation from %zu to %zu lost byte %zu", b.size, ns, j);
                    break;
                }
            b.p = np, b.size = ns, b.align = al;
            put(b);
            check(b, "reallocated");
        }
        else if (what < 8)
        {
            if (kfr_add_ref(b.p) != b.p)
                fail("kfr_add_ref does not return its argument");
            ++b.refs;
        }
        else
        {
            r.chance(0.5) ? kfr_release(b.p) : kfr_deallocate(b.p);
            if (--b.refs == 0)
                live.erase(live.begin() + i);
            else
                check(b, "released by one of its owners");
        }
    }
    for (auto& b : live)
        while (b.refs-- > 0)
            kfr_release(b.p);
    if (void* p = kfr_reallocate(nullptr, 100))
        kfr_release(p);
    else
        fail("reallocation of no block did not allocate");
    // more than there is
    for (size_t huge : { SIZE_MAX, SIZE_MAX - 63, SIZE_MAX - 100, SIZE_MAX / 2, (size_t)1 << 62 })
        if (void* p = kfr_allocate(huge))
            fail("%zu bytes were allocated", huge), kfr_release(p);
    void* p = kfr_allocate(64);
    std::memset(p, 5, 64);
    if (void* q = kfr_reallocate(p, SIZE_MAX - 40))
        fail("reallocated to %zu bytes", SIZE_MAX - 40), kfr_release(q);
    else
    {
        for (int i = 0; i < 64; ++i)
            if (((char*)p)[i] != 5)
                fail("a block was lost when its reallocation failed");
        kfr_release(p);
    }
    if (void* q = kfr_allocate_aligned(100, 65536))
        kfr_release(q);
}

static size_t live_blocks()
{
    auto& m = cometa::details::get_memory_statistics();
    return m.allocation_count - m.deallocation_count;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    auto is = isas();
    std::vector<size_t> sizes;
    for (size_t n = 1; n <= (thorough() ? 300 : 70); ++n)
        sizes.push_back(n);
    for (size_t n : { 96, 97, 120, 128, 169, 210, 243, 256, 257, 360, 500, 512, 625, 1000, 1024, 1155, 2048, 2187, 4096, 5000, 8192, 10007 })
        sizes.push_back(n);
    for (auto& i : is)
    {
        select_isa(i);
        for (size_t n : sizes)
        {
            if (!begin("%s dft n=%zu", i.name, n))
                continue;
            watchdog(60);
            Rng r       = case_rng();
            size_t live = live_blocks();
            dft1<float>(n, r), dft1<double>(n, r);
            if (live_blocks() != live)
                fail("%zu blocks were not released", live_blocks() - live);
            seen(n);
        }
        for (int k = 0; k < (thorough() ? 300 : 60); ++k)
        {
            if (!begin("%s multidimensional k=%d", i.name, k))
                continue;
            watchdog(60);
            Rng r = case_rng();
            std::vector<unsigned> s((size_t)r.range(1, 4));
            for (auto& x : s)
                x = (unsigned)r.range(1, s.size() < 3 ? 20 : 8);
            if (r.chance(0.6) && s.back() % 2)
                s.back() += 1;
            size_t live = live_blocks();
            dftmd<float>(s, r), dftmd<double>(s, r);
            if (live_blocks() != live)
                fail("%zu blocks were not released", live_blocks() - live);
            seen(hash_bytes(s.data(), s.size() * sizeof(unsigned)));
        }
        for (int k = 0; k < (thorough() ? 200 : 40); ++k)
        {
            if (!begin("%s filters k=%d", i.name, k))
                continue;
            watchdog(60);
            Rng r       = case_rng();
            size_t live = live_blocks();
            filters<float>(k, r), filters<double>(k, r);
            if (live_blocks() != live)
                fail("%zu blocks were not released", live_blocks() - live);
            seen(k + 1000);
        }
    }
    if (begin("identity"))
    {
        nulls<float>(), nulls<double>();
        if (kfr_version() != KFR_VERSION || !strstr(kfr_version_string(), KFR_VERSION_STRING) || !kfr_enabled_archs())
            fail("version or architectures");
        for (auto& i : is)
        {
            select_isa(i);
            if (kfr_current_arch() != (int)i.cpu)
                fail("kfr_current_arch is %d instead of %d", kfr_current_arch(), (int)i.cpu);
        }
        // errors belong to the thread which made them
        Api<float>::rcreate(3, CCs);
        std::string mine = kfr_last_error();
        std::string other = "?";
        std::thread([&] { other = kfr_last_error(); }).join();
        if (mine.empty() || !other.empty())
            fail("kfr_last_error of a thread: \"%s\", of another one: \"%s\"", mine.c_str(), other.c_str());
        seen(1), evals(10);
    }
    for (int k = 0; k < (thorough() ? 300 : 60); ++k)
    {
        if (!begin("memory k=%d", k))
            continue;
        watchdog(60);
        Rng r       = case_rng();
        size_t live = live_blocks();
        memory(r);
        if (live_blocks() != live)
            fail("the library counts %zd blocks more after everything was released", (ssize_t)(live_blocks() - live));
        seen(k + 5000);
    }
    return done();
}
