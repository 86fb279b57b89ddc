// C05: shared plans and the plan cache under concurrent use. TSan judges the accesses, the monitor the values.
#include "isa.hpp"
#include <kfr/dft.hpp>
#include <memory>

static std::atomic<u64> overlaps{ 0 }, inside{ 0 }, bad{ 0 };
struct Inside // counts executions which really overlapped another one
{
    Inside()
    {
        if (inside.fetch_add(1, std::memory_order_relaxed) > 0)
            overlaps.fetch_add(1, std::memory_order_relaxed);
    }
    ~Inside() { inside.fetch_sub(1, std::memory_order_relaxed); }
};
static void run_threads(int n, const std::function<void(int)>& fn)
{
    std::atomic<int> ready{ 0 };
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t)
        th.emplace_back(
            [&, t]
            {
                // a barrier made of relaxed operations: it orders nothing that could hide a race
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n)
                    std::this_thread::yield();
                fn(t);
            });
    for (auto& t : th)
        t.join();
}
template <typename T>
std::vector<T> rnd(size_t n, u64 seed)
{
    Rng r(seed * 77 + 1);
    std::vector<T> v(n);
    for (auto& x : v)
        x = (T)r.sym();
    return v;
}
template <typename T>
kfr::complex<T>* C(std::vector<T>& v)
{
    return (kfr::complex<T>*)v.data();
}
static int threads() { return 4; }
static int rounds() { return thorough() ? 30 : 8; }

// exec(input, temp or null, variant) -> output; must be the same alone and together
template <typename T>
void shared(const char* kind, size_t n_in, size_t temp_size, const std::function<std::vector<T>(std::vector<T>, kfr::u8*, int)>& exec)
{
    const int nt = threads();
    std::vector<std::vector<T>> in(nt);
    std::vector<std::vector<std::vector<T>>> alone(nt);
    {
        Buf<kfr::u8> temp(temp_size);
        for (int t = 0; t < nt; ++t)
        {
            in[t] = rnd<T>(n_in, hash_bytes(cur(), strlen(cur()), t));
            for (int v = 0; v < 4; ++v)
                alone[t].push_back(exec(in[t], temp.data(), v));
        }
    }
    std::vector<int> wrong(nt, 0);
    run_threads(nt,
                [&](int t)
                {
                    Buf<kfr::u8> temp(temp_size);
                    for (int k = 0; k < rounds(); ++k)
                    {
                        int v = (k + t) & 3;
                        std::vector<T> r;
                        {
                            Inside i;
                            r = exec(in[t], k % 3 == 2 ? nullptr : temp.data(), v);
                        }
                        if (memcmp(r.data(), alone[t][v].data(), r.size() * sizeof(T)) || !temp.intact())
                            wrong[t]++;
                    }
                });
    int w = 0;
    for (int x : wrong)
        w += x;
    if (w)
        fail("%s: %d of %d concurrent executions of one plan differ from the execution alone", kind, w, nt * rounds());
    evals(nt * rounds() - 1);
    seen();
    sample("%s executed by %d threads at once, %d times each", cur(), nt, rounds());
}

template <typename T>
void c2c(size_t n)
{
    if (!begin("plan c2c n=%zu %s", n, tn<T>()))
        return;
    const kfr::dft_plan<T> plan(n);
    shared<T>("dft_plan", n * 2, plan.temp_size,
              [&](std::vector<T> in, kfr::u8* temp, int v)
              {
                  std::vector<T> out(n * 2);
                  if (v & 2)
                      plan.execute(C(in), C(in), temp, v & 1), out = in;
                  else
                      plan.execute(C(out), C(in), temp, v & 1);
                  return out;
              });
}
template <typename T>
void real(size_t n, kfr::dft_pack_format fmt)
{
    if (!begin("plan real n=%zu %s fmt=%d", n, tn<T>(), (int)fmt))
        return;
    const kfr::dft_plan_real<T> plan(n, fmt);
    const size_t cs = plan.complex_size() * 2;
    shared<T>("dft_plan_real", cs, plan.temp_size,
              [&](std::vector<T> in, kfr::u8* temp, int v)
              {
                  std::vector<T> out(cs);
                  std::vector<T>& o = v & 2 ? in : out;
                  if (v & 1)
                      plan.execute(o.data(), C(in), temp);
                  else
                      plan.execute(C(o), in.data(), temp);
                  o.resize(v & 1 ? n : cs);
                  return o;
              });
}
template <typename T>
void dct(size_t n)
{
    if (!begin("plan dct n=%zu %s", n, tn<T>()))
        return;
    const kfr::dct_plan<T> plan(n);
    shared<T>("dct_plan", n, plan.temp_size,
              [&](std::vector<T> in, kfr::u8* temp, int v)
              {
                  std::vector<T> out(n);
                  std::vector<T>& o = v & 2 ? in : out;
                  plan.execute(o.data(), in.data(), temp, bool(v & 1));
                  return o;
              });
}
template <typename T>
void md(size_t a, size_t b, size_t c)
{
    if (!begin("plan md %zux%zux%zu %s", a, b, c, tn<T>()))
        return;
    const kfr::dft_plan_md<T, 3> plan(kfr::shape<3>(a, b, c));
    const size_t n = a * b * c;
    shared<T>("dft_plan_md", n * 2, plan.temp_size,
              [&](std::vector<T> in, kfr::u8* temp, int v)
              {
                  std::vector<T> out(n * 2);
                  std::vector<T>& o = v & 2 ? in : out;
                  plan.execute(C(o), C(in), temp, bool(v & 1));
                  return o;
              });
}
template <typename T>
void mdreal(size_t a, size_t b, size_t c)
{
    if (!begin("plan mdreal %zux%zux%zu %s", a, b, c, tn<T>()))
        return;
    const kfr::dft_plan_md_real<T> plan(kfr::shape<kfr::dynamic_shape>{ kfr::index_t(a), kfr::index_t(b), kfr::index_t(c) });
    const size_t cn = a * b * (c / 2 + 1) * 2;
    shared<T>("dft_plan_md_real", cn, plan.temp_size,
              [&](std::vector<T> in, kfr::u8* temp, int v)
              {
                  std::vector<T> out(cn);
                  std::vector<T>& o = v & 2 ? in : out;
                  if (v & 1)
                      plan.execute(o.data(), C(in), temp);
                  else
                      plan.execute(C(o), in.data(), temp);
                  o.resize(v & 1 ? a * b * c : cn);
                  return o;
              });
}

// The cache: threads ask for plans of mixed sizes and kinds; each answer must be a plan of the asked size which computes
// what a plan of one's own computes, and the same request must always give the same plan.
static void cache(int rep)
{
    if (!begin("cache #%d", rep))
        return;
    Rng r = case_rng();
    kfr::dft_cache::instance().clear();
    const int nt = 4, sizes = 6;
    std::vector<size_t> sz;
    for (int i = 0; i < sizes; ++i)
        sz.push_back(2 * (1 + r.below(i < 2 ? 300 : 90)));
    const size_t nmax = *std::max_element(sz.begin(), sz.end());
    auto x32          = rnd<float>(nmax * 2 + 4, rep);
    auto x64          = rnd<double>(nmax * 2 + 4, rep);
    std::vector<kfr::univector<kfr::complex<float>>> w32;
    std::vector<kfr::univector<kfr::complex<double>>> w64;
    std::vector<kfr::univector<kfr::complex<float>>> wr;
    std::vector<kfr::univector<kfr::complex<double>>> wrd;
    for (size_t n : sz)
    {
        w32.emplace_back(n), w64.emplace_back(n), wr.emplace_back(n / 2 + 1), wrd.emplace_back(n / 2 + 1);
        kfr::dft_plan<float>(n).execute(w32.back().data(), C(x32), nullptr, false);
        kfr::dft_plan<double>(n).execute(w64.back().data(), C(x64), nullptr, true);
        kfr::dft_plan_real<float>(n).execute(wr.back().data(), x32.data(), nullptr);
        kfr::dft_plan_real<double>(n).execute(wrd.back().data(), x64.data(), nullptr);
    }
    std::vector<const void*> got(nt * sizes * 4);
    std::vector<int> wrong(nt, 0);
    run_threads(nt,
                [&](int t)
                {
                    Rng q(st().seed * 91 + rep * 16 + t);
                    for (int k = 0; k < sizes * 8; ++k)
                    {
                        int i    = q.below(sizes);
                        size_t n = sz[i];
                        int kind = q.below(4);
                        if (k == sizes * 4 && t == 0 && rep % 3 == 2)
                            kfr::dft_cache::instance().clear();
                        const void*& g = got[(t * sizes + i) * 4 + kind];
                        const void* p  = nullptr;
                        bool ok        = true;
                        Inside in;
                        if (kind == 0)
                        {
                            auto plan = kfr::dft_cache::instance().get(kfr::ctype_t<float>(), n);
                            p         = plan.get();
                            auto y    = kfr::dft(kfr::make_univector(C(x32), n).ref());
                            ok        = plan->size == n && y.size() == n && !memcmp((void*)y.data(), (void*)w32[i].data(), n * 8);
                        }
                        else if (kind == 1)
                        {
                            auto plan = kfr::dft_cache::instance().get(kfr::ctype_t<double>(), n);
                            p         = plan.get();
                            auto y    = kfr::idft(kfr::make_univector(C(x64), n).ref());
                            ok        = plan->size == n && y.size() == n && !memcmp((void*)y.data(), (void*)w64[i].data(), n * 16);
                        }
                        else if (kind == 2)
                        {
                            auto plan = kfr::dft_cache::instance().getreal(kfr::ctype_t<float>(), n);
                            p         = plan.get();
                            auto y    = kfr::realdft(kfr::make_univector(x32.data(), n).ref());
                            ok = plan->size == n && y.size() == n / 2 + 1 && !memcmp((void*)y.data(), (void*)wr[i].data(), y.size() * 8);
                        }
                        else
                        {
                            auto plan = kfr::dft_cache::instance().getreal(kfr::ctype_t<double>(), n);
                            p         = plan.get();
                            auto y    = kfr::realdft(kfr::make_univector(x64.data(), n).ref());
                            ok = plan->size == n && y.size() == n / 2 + 1 && !memcmp((void*)y.data(), (void*)wrd[i].data(), y.size() * 16);
                            auto z = kfr::irealdft(y);
                            for (size_t s = 0; s < n; ++s)
                                if (!(std::fabs(z[s] / n - x64[s]) < 1e-12))
                                    ok = false;
                        }
                        if (!ok)
                            wrong[t]++;
                        if (rep % 3 != 2)
                        {
                            if (g && g != p)
                                wrong[t] += 1000;
                            g = p;
                        }
                    }
                });
    int w = 0;
    for (int x : wrong)
        w += x;
    if (w)
        fail("cache: wrong results or plans (%d)", w);
    if (rep % 3 != 2)
        for (int i = 0; i < sizes * 4; ++i)
        {
            const void* p = nullptr;
            for (int t = 0; t < nt; ++t)
                if (const void* g = got[t * sizes * 4 + i])
                {
                    if (p && p != g)
                        fail("cache: two threads got different plans for one request");
                    p = g;
                }
        }
    evals(nt * sizes * 8 - 1);
    seen();
    sample("cache: %d threads, %d requests each, sizes around %zu", nt, sizes * 8, sz[0]);
}
// convolution and correlation take their plans from the cache
static void conv(int rep)
{
    if (!begin("convolve #%d", rep))
        return;
    Rng r     = case_rng();
    size_t na = 1 + r.below(200), nb = 1 + r.below(200);
    auto a = rnd<double>(na, rep), b = rnd<double>(nb, rep + 1000);
    std::vector<double> want(na + nb - 1);
    for (size_t i = 0; i < na; ++i)
        for (size_t j = 0; j < nb; ++j)
            want[i + j] += a[i] * b[j];
    kfr::dft_cache::instance().clear();
    std::vector<int> wrong(4, 0);
    run_threads(4,
                [&](int t)
                {
                    for (int k = 0; k < 6; ++k)
                    {
                        Inside in;
                        auto y = kfr::convolve(kfr::make_univector(a.data(), na).ref(), kfr::make_univector(b.data(), nb).ref());
                        if (y.size() != want.size())
                            wrong[t]++;
                        else
                            for (size_t i = 0; i < y.size(); ++i)
                                if (!(std::fabs(y[i] - want[i]) < 1e-11))
                                {
                                    wrong[t]++;
                                    break;
                                }
                    }
                });
    for (int w : wrong)
        if (w)
            fail("convolve %zu * %zu called by four threads at once gives wrong values", na, nb);
    evals(23);
    seen();
}
// threads create, run and destroy plans of their own
static void own(int rep)
{
    if (!begin("own plans #%d", rep))
        return;
    Rng r = case_rng();
    std::vector<size_t> sz;
    for (int i = 0; i < 5; ++i)
        sz.push_back(2 * (1 + r.below(400)));
    std::vector<int> wrong(4, 0);
    run_threads(4,
                [&](int t)
                {
                    for (size_t n : sz)
                    {
                        auto x = rnd<double>(2 * n, n);
                        auto o = x;
                        Inside in;
                        kfr::dft_plan<double> p(n);
                        p.execute(C(o), C(o), nullptr, false);
                        p.execute(C(o), C(o), nullptr, true);
                        for (size_t i = 0; i < 2 * n; ++i)
                            if (!(std::fabs(o[i] / n - x[i]) < 1e-12))
                                wrong[t] = 1;
                    }
                });
    for (int w : wrong)
        if (w)
            fail("plans created by four threads at once give wrong values");
    evals(19);
    seen();
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(200);
    Rng r(st().seed * 13 + 7);
    std::vector<size_t> sizes{ 1, 2, 3, 4, 5, 8, 11, 16, 17, 30, 32, 34, 48, 60, 64, 97, 101, 103, 127, 128, 131, 206, 210, 256, 303, 362, 512, 618, 1000, 1024, 1031, 2048, 2062, 2310, 4096, 8192 };
    for (int i = 0; i < (thorough() ? 120 : 24); ++i)
        sizes.push_back(1 + r.below(1500));
    for (size_t n : sizes)
    {
        c2c<float>(n), c2c<double>(n);
        real<float>(n * 2, r.chance(0.5) ? kfr::dft_pack_format::CCs : kfr::dft_pack_format::Perm);
        real<double>(n * 2, r.chance(0.5) ? kfr::dft_pack_format::CCs : kfr::dft_pack_format::Perm);
        dct<float>(n * 2), dct<double>(n * 2);
    }
    for (int i = 0; i < (thorough() ? 60 : 16); ++i)
    {
        size_t a = 1 + r.below(12), b = 1 + r.below(130), c = 2 * (1 + r.below(8));
        md<float>(a, b, c), md<double>(b, a, c), mdreal<float>(a, c, c), mdreal<double>(c, a, b + (b & 1));
    }
    md<float>(2, 2, 127), mdreal<double>(103, 2, 4), mdreal<float>(2, 3, 254);
    for (int i = 0; i < (thorough() ? 200 : 40); ++i)
        cache(i), conv(i), own(i);
    stat("overlapping_executions", overlaps);
    return done();
}
