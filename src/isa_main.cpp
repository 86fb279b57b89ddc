// C06: every run-time selectable variant gives the same results, and none above the requested or supported one runs.
// The library is compiled with -finstrument-functions-after-inlining: the monitor sees every library function entered
// and the instruction-set namespace it belongs to. CPUID is trapped to emulate processors with fewer features.
#include "isa.hpp"
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <asm/prctl.h>
#include <csetjmp>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>

// ---------------------------------------------------------------- function entry monitor
static bool tracing = false;
static std::unordered_set<void*>* entered;
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* fn, void*)
{
    if (!tracing)
        return;
    tracing = false;
    entered->insert(fn);
    tracing = true;
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}

static int level_of(const std::string& sym)
{
    // mangled nested names: N3kfr6avx512... ; the highest namespace mentioned by the function itself
    static const std::pair<const char*, int> tags[] = { { "3kfr6avx512", (int)cpu_t::avx512 }, { "3kfr4avx2", (int)cpu_t::avx2 },
                                                        { "3kfr3avx", (int)cpu_t::avx1 },      { "3kfr5sse42", (int)cpu_t::sse42 },
                                                        { "3kfr5sse41", (int)cpu_t::sse41 },   { "3kfr5ssse3", (int)cpu_t::ssse3 },
                                                        { "3kfr4sse3", (int)cpu_t::sse3 },     { "3kfr4sse2", (int)cpu_t::sse2 } };
    for (auto& t : tags)
        if (sym.find(t.first) != std::string::npos)
            return t.second;
    return -1;
}
static std::map<int, std::string> levels_entered()
{
    std::map<int, std::string> r;
    for (void* f : *entered)
    {
        Dl_info i;
        if (dladdr(f, &i) && i.dli_sname)
        {
            int l = level_of(i.dli_sname);
            if (l >= 0)
                r[l] = i.dli_sname;
        }
    }
    return r;
}

// ---------------------------------------------------------------- CPUID emulation
struct Fake
{
    uint32_t clr1c, clr1d, clr7b; // bits removed from leaf 1 ECX/EDX, leaf 7 EBX
    uint32_t maxleaf; // 0: keep
};
static Fake fake;
static bool faking = false;
static void on_cpuid(int, siginfo_t*, void* uc)
{
    auto* g        = ((ucontext_t*)uc)->uc_mcontext.gregs;
    const auto* ip = (const unsigned char*)g[REG_RIP];
    if (!(ip[0] == 0x0F && ip[1] == 0xA2))
    {
        on_signal(SIGSEGV);
        return;
    }
    uint32_t leaf = (uint32_t)g[REG_RAX], sub = (uint32_t)g[REG_RCX], a = leaf, b, c = sub, d;
    syscall(SYS_arch_prctl, ARCH_SET_CPUID, 1);
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
    syscall(SYS_arch_prctl, ARCH_SET_CPUID, 0);
    if (fake.maxleaf && leaf < 0x80000000u && leaf > fake.maxleaf)
        a = b = c = d = 0;
    if (leaf == 0 && fake.maxleaf)
        a = fake.maxleaf;
    if (leaf == 1)
        c &= ~fake.clr1c, d &= ~fake.clr1d;
    if (leaf == 7 && sub == 0)
        b &= ~fake.clr7b;
    g[REG_RAX] = a, g[REG_RBX] = b, g[REG_RCX] = c, g[REG_RDX] = d;
    g[REG_RIP] += 2;
}
// runs before any detection: those are static initialisers of default priority
__attribute__((constructor(101))) static void install_fake()
{
    entered       = new std::unordered_set<void*>;
    const char* e = getenv("VK_FAKECPU");
    if (!e || sscanf(e, "%x,%x,%x,%x", &fake.clr1c, &fake.clr1d, &fake.clr7b, &fake.maxleaf) != 4)
        return;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_cpuid;
    sa.sa_flags     = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, nullptr);
    if (syscall(SYS_arch_prctl, ARCH_SET_CPUID, 0) == 0)
        faking = true;
}
static void real_cpuid(uint32_t leaf, uint32_t* r)
{
    uint32_t a = leaf, b, c = 0, d;
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
    r[0] = a, r[1] = b, r[2] = c, r[3] = d;
}
// what a processor with these features can execute, given how the variants are compiled
static int supported(uint32_t c1, uint32_t d1, uint32_t b7)
{
    auto has = [](uint32_t r, int bit) { return (r >> bit) & 1; };
    bool os  = has(c1, 27) && has(c1, 28); // OSXSAVE, AVX
    bool s3 = has(c1, 0), ss3 = has(c1, 9), s41 = has(c1, 19), s42 = has(c1, 20), fma = has(c1, 12);
    bool avx2 = has(b7, 5), f = has(b7, 16), dq = has(b7, 17), cd = has(b7, 28), bw = has(b7, 30), vl = has(b7, 31);
    (void)s3, (void)ss3;
    int r = (int)cpu_t::sse2;
    if (has(d1, 26) && s3)
        r = (int)cpu_t::sse3;
    if (ss3)
        r = (int)cpu_t::ssse3;
    if (s41)
        r = (int)cpu_t::sse41;
    if (s42)
        r = (int)cpu_t::sse42;
    if (os)
        r = (int)cpu_t::avx1;
    if (os && avx2 && fma)
        r = (int)cpu_t::avx2;
    if (os && fma && f && dq && cd && bw && vl)
        r = (int)cpu_t::avx512;
    return r;
}

// ---------------------------------------------------------------- the calls that are dispatched
using V = std::vector<double>;
template <typename T>
V flat(const kfr::univector<T>& u)
{
    V v;
    for (auto x : u)
        if constexpr (std::is_floating_point_v<T>)
            v.push_back(x);
        else
            v.push_back(x.real()), v.push_back(x.imag());
    return v;
}
template <typename T>
kfr::univector<T> sig(size_t n, u64 seed)
{
    Rng r(seed);
    kfr::univector<T> u(n);
    for (auto& x : u)
        if constexpr (std::is_floating_point_v<T>)
            x = (T)r.sym();
        else
            x = T(r.sym(), r.sym());
    return u;
}
struct Call
{
    std::string name;
    std::function<V()> run;
    double tol; // relative to the rms of the reference (at least 1e-3)
    double atol = 0;
};
template <typename T>
void add_calls(std::vector<Call>& out, Rng& r)
{
    using C        = kfr::complex<T>;
    const double e = std::numeric_limits<T>::epsilon();
    const u64 s    = r.next();
    char nm[200];
    auto push = [&](double tol, std::function<V()> f) { out.push_back({ std::string(nm) + " " + tn<T>(), f, tol }); };
    auto size = [&](size_t cap)
    { return r.chance(0.5) ? 1 + (size_t)r.below(cap) : r.chance(0.5) ? size_t(1) << r.below(17) : 1 + (size_t)r.below(64); };
    {
        size_t n = size(30000);
        bool inv = r.chance(0.5);
        snprintf(nm, sizeof nm, "dft n=%zu inverse=%d", n, inv);
        push(3 * (double)tolerance<T>(n),
             [=]
             {
                 kfr::dft_plan<T> p(n);
                 auto x = sig<C>(n, s);
                 kfr::univector<C> y(n);
                 p.execute(y.data(), x.data(), nullptr, inv);
                 return flat(y);
             });
    }
    {
        size_t n = 2 * size(20000);
        bool inv = r.chance(0.5);
        auto fmt = r.chance(0.5) ? kfr::dft_pack_format::CCs : kfr::dft_pack_format::Perm;
        snprintf(nm, sizeof nm, "dft_real n=%zu inverse=%d fmt=%d", n, inv, (int)fmt);
        push(4 * (double)tolerance<T>(n),
             [=]
             {
                 kfr::dft_plan_real<T> p(n, fmt);
                 if (inv)
                 {
                     auto x = sig<C>(n / 2 + 1, s);
                     x[0].imag(0), x[n / 2].imag(0);
                     kfr::univector<T> y(n);
                     p.execute(y.data(), x.data(), nullptr);
                     return flat(y);
                 }
                 auto x = sig<T>(n, s);
                 kfr::univector<C> y(p.complex_size());
                 p.execute(y.data(), x.data(), nullptr);
                 return flat(y);
             });
    }
    {
        size_t n = 2 * size(3000);
        bool inv = r.chance(0.5);
        snprintf(nm, sizeof nm, "dct n=%zu inverse=%d", n, inv);
        push(6 * (double)tolerance<T>(n),
             [=]
             {
                 kfr::dct_plan<T> p(n);
                 auto x = sig<T>(n, s);
                 kfr::univector<T> y(n);
                 p.execute(y.data(), x.data(), nullptr, inv);
                 return flat(y);
             });
    }
    {
        size_t a = 1 + r.below(20), b = 1 + r.below(130), c = 1 + r.below(20);
        snprintf(nm, sizeof nm, "dft_md %zux%zux%zu", a, b, c);
        push(8 * (double)tolerance<T>(a * b * c),
             [=]
             {
                 kfr::dft_plan_md<T> p(kfr::shape<kfr::dynamic_shape>{ (kfr::index_t)a, (kfr::index_t)b, (kfr::index_t)c });
                 auto x = sig<C>(a * b * c, s);
                 kfr::univector<C> y(a * b * c);
                 p.execute(y.data(), x.data(), nullptr, false);
                 return flat(y);
             });
    }
    {
        size_t n = 1 + r.below(3000), m = 1 + r.below(3000);
        int kind = r.below(3);
        snprintf(nm, sizeof nm, "%s %zu %zu", kind == 0 ? "convolve" : kind == 1 ? "correlate" : "autocorrelate", n, m);
        push(60 * e,
             [=]
             {
                 auto x = sig<T>(n, s), y = sig<T>(m, s + 1);
                 return flat(kind == 0 ? kfr::convolve(x, y) : kind == 1 ? kfr::correlate(x, y) : kfr::autocorrelate(x));
             });
    }
    {
        size_t taps = 1 + r.below(2000), len = 1 + r.below(6000), block = 16 << r.below(6);
        const u64 split = r.next();
        snprintf(nm, sizeof nm, "convolve_filter taps=%zu block=%zu len=%zu", taps, block, len);
        push(60 * e,
             [=]
             {
                 auto x = sig<T>(len, s), h = sig<T>(taps, s + 1);
                 kfr::convolve_filter<T> f(h, block);
                 kfr::univector<T> y(len);
                 Rng q(split);
                 for (size_t p = 0; p < len;)
                 {
                     size_t k = std::min<size_t>(len - p, 1 + q.below(block * 3));
                     f.apply(y.data() + p, x.data() + p, k);
                     p += k;
                 }
                 return flat(y);
             });
        snprintf(nm, sizeof nm, "complex convolve_filter taps=%zu block=%zu len=%zu", taps, block, len);
        push(60 * e,
             [=]
             {
                 auto x = sig<C>(len, s), h = sig<C>(taps, s + 1);
                 kfr::convolve_filter<C> f(h, block);
                 kfr::univector<C> y(len);
                 f.apply(y, x);
                 return flat(y);
             });
    }
    {
        size_t taps = 1 + r.below(300), len = 1 + r.below(3000);
        snprintf(nm, sizeof nm, "fir_filter taps=%zu len=%zu", taps, len);
        push(40 * e,
             [=]
             {
                 auto x = sig<T>(len, s), h = sig<T>(taps, s + 1);
                 kfr::fir_filter<T, T> f(h);
                 kfr::univector<T> y(len);
                 f.apply(y, x);
                 return flat(y);
             });
    }
    {
        size_t sections = 1 + r.below(r.chance(0.2) ? 64 : 8), len = 100 + r.below(2000);
        snprintf(nm, sizeof nm, "iir_filter sections=%zu len=%zu", sections, len);
        push(e * 300 * sections,
             [=]
             {
                 Rng q(s);
                 std::vector<kfr::biquad_section<T>> bq;
                 for (size_t i = 0; i < sections; ++i)
                 {
                     double rad = 0.2 + 0.6 * q.unit(), ang = 3.1 * q.unit();
                     bq.push_back({ T(1), T(-2 * rad * std::cos(ang)), T(rad * rad), T(0.5 + 0.3 * q.unit()), T(0.4 * q.sym()), T(0.3 * q.sym()) });
                 }
                 kfr::iir_filter<T> f(kfr::iir_params<T>(bq.data(), bq.size()));
                 auto x = sig<T>(len, s);
                 kfr::univector<T> y(len);
                 size_t p = 0;
                 for (size_t k : { len / 2, len - len / 2 })
                     f.apply(y.data() + p, x.data() + p, k), p += k;
                 return flat(y);
             });
    }
    {
        const int qs[] = { 4, 6, 8, 10, 12 };
        auto q         = (kfr::resample_quality)qs[r.below(5)];
        size_t in = 1 + r.below(30), outr = 1 + r.below(30), len = 200 + r.below(3000);
        snprintf(nm, sizeof nm, "resampler q=%d %zu->%zu len=%zu", (int)q, in, outr, len);
        push(e * (1 << ((int)q)) * 4 + 100 * e,
             [=]
             {
                 auto rs  = kfr::samplerate_converter<T>(q, outr, in);
                 auto x   = sig<T>(len, s);
                 size_t n = rs.output_size_for_input(len);
                 kfr::univector<T> y(n);
                 rs.process(y, x);
                 auto v = flat(y);
                 v.push_back(n);
                 v.push_back(rs.get_delay());
                 return v;
             });
        snprintf(nm, sizeof nm, "complex resampler q=%d %zu->%zu len=%zu", (int)q, in, outr, len);
        push(e * (1 << ((int)q)) * 4 + 100 * e,
             [=]
             {
                 auto rs  = kfr::samplerate_converter<C>(q, outr, in);
                 auto x   = sig<C>(len, s);
                 size_t n = rs.output_size_for_input(len);
                 kfr::univector<C> y(n);
                 rs.process(y, x);
                 return flat(y);
             });
    }
}

static double worst = 0;
static void compare(int rep)
{
    if (!begin("calls #%d", rep))
        return;
    Rng r = case_rng();
    std::vector<Call> calls;
    add_calls<float>(calls, r);
    add_calls<double>(calls, r);
    std::vector<Isa> all = isas();
    for (auto& c : calls)
    {
        std::vector<V> res;
        for (auto& isa : all)
        {
            select_isa(isa);
            kfr::dft_cache::instance().clear(); // plans keep the variant they were made with
            entered->clear();
            tracing = true;
            V v     = c.run();
            tracing = false;
            res.push_back(v);
            for (auto& l : levels_entered())
            {
                stat("variant_functions_entered");
                if (l.first > (int)isa.cpu)
                    fail("%s: asked for %s, but %s of a higher variant was executed", c.name.c_str(), isa.name, l.second.c_str());
            }
            seen(hash_bytes(isa.name, strlen(isa.name), hash_bytes(c.name.data(), c.name.size())));
        }
        const V& a = res[0];
        double rms = 0;
        for (double x : a)
            rms += x * x;
        rms = std::max(std::sqrt(rms / std::max<size_t>(1, a.size())), 1e-30);
        for (size_t i = 1; i < res.size(); ++i)
        {
            const V& b = res[i];
            if (a.size() != b.size())
            {
                fail("%s: %zu values under %s, %zu under %s", c.name.c_str(), a.size(), all[0].name, b.size(), all[i].name);
                continue;
            }
            double err = 0;
            size_t at  = 0;
            for (size_t k = 0; k < a.size(); ++k)
            {
                double d = std::fabs(a[k] - b[k]) / (rms + std::fabs(a[k]));
                if (!(d <= err))
                    err = d, at = k;
            }
            double q = err / c.tol;
            if (getenv("VK_CAL") && q > 0.25)
                printf("@NOTE cal %s %s q=%.2f\n", c.name.c_str(), all[i].name, q);
            worst = std::max(worst, q);
            if (!(q <= 1))
                fail("%s: %s and %s differ by %.3g x rms at %zu", c.name.c_str(), all[0].name, all[i].name, err, at);
        }
        stat("values_compared", a.size() * (res.size() - 1));
    }
    sample("calls #%d: %s; ... %zu dispatched calls, each under %zu variants", rep, calls[0].name.c_str(), calls.size(), all.size());
    if (kfr::get_cpu() != all.back().cpu)
        fail("get_cpu() is not what override_cpu() set");
}

// child: detection and one call of every kind under the emulated processor
static int child()
{
    if (!faking)
    {
        printf("nofault\n");
        return 0;
    }
    Rng r(5);
    std::vector<Call> calls;
    add_calls<float>(calls, r);
    tracing = true;
    for (auto& c : calls)
        c.run();
    tracing = false;
    int top = -1;
    std::string name;
    for (auto& l : levels_entered())
        top = l.first, name = l.second;
    printf("cpu %d top %d %s\n", (int)kfr::get_cpu(), top, name.c_str());
    fflush(stdout);
    return 0;
}
static void emulate(int idx, Fake f, const char* self)
{
    if (!begin("cpu 1c=%x 1d=%x 7b=%x max=%x", f.clr1c, f.clr1d, f.clr7b, f.maxleaf))
        return;
    (void)idx;
    uint32_t r1[4], r7[4], r0[4];
    real_cpuid(0, r0), real_cpuid(1, r1), real_cpuid(7, r7);
    if (f.maxleaf && f.maxleaf < 7)
        r7[1] = 0;
    const int sup = supported(r1[2] & ~f.clr1c, r1[3] & ~f.clr1d, r7[1] & ~f.clr7b);
    char cmd[700], line[600] = "";
    snprintf(cmd, sizeof cmd, "VK_FAKECPU=%x,%x,%x,%x '%s' --child 1", f.clr1c, f.clr1d, f.clr7b, f.maxleaf, self);
    FILE* p = popen(cmd, "r");
    if (!p)
        return;
    char* got = fgets(line, sizeof line, p);
    int rc    = pclose(p);
    if (got && !strncmp(line, "nofault", 7))
    {
        stat("cpuid_faulting_unavailable");
        return;
    }
    int cpu = -1, top = -1;
    char name[500] = "";
    if (!got || sscanf(line, "cpu %d top %d %499s", &cpu, &top, name) < 2)
        return fail("the process died (status %d) on an emulated processor: %s", rc, line);
    seen();
    sample("emulated processor (leaf 1 ECX clears %x, leaf 7 EBX clears %x): supports level %d, detected %d, highest variant executed %d", f.clr1c,
           f.clr7b, sup, cpu, top);
    if (cpu > sup)
        fail("get_cpu() says %s on a processor that supports only %s", kfr::cpu_name((cpu_t)cpu), kfr::cpu_name((cpu_t)sup));
    if (top > sup)
        fail("%s was executed on a processor that supports only %s", name, kfr::cpu_name((cpu_t)sup));
}

int main(int argc, char** argv)
{
    init(argc, argv);
    if (opt("child") == "1")
        return child();
    watchdog(120);
    // the real processor
    if (begin("detection"))
    {
        uint32_t r1[4], r7[4];
        real_cpuid(1, r1), real_cpuid(7, r7);
        int sup = supported(r1[2], r1[3], r7[1]);
        if ((int)kfr::get_cpu() > sup)
            fail("get_cpu() is above what the processor supports");
        if (kfr::get_cpu() >= cpu_t::avx512 && !(__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512vl")))
            fail("avx512 selected, but not usable");
        if (kfr::get_cpu() >= cpu_t::avx2 && !(__builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma")))
            fail("avx2 selected, but not usable");
        seen();
    }
    const auto native = kfr::get_cpu();
    const uint32_t FMA = 1u << 12, S41 = 1u << 19, S42 = 1u << 20, OSX = 1u << 27, AVX = 1u << 28, SS3 = 1u << 9, S3 = 1;
    const uint32_t A2 = 1u << 5, F = 1u << 16, DQ = 1u << 17, CD = 1u << 28, BW = 1u << 30, VL = 1u << 31, ER = 1u << 27;
    const uint32_t A5 = F | DQ | CD | BW | VL | ER;
    std::vector<Fake> fakes{ { 0, 0, 0, 0 },          { 0, 0, F, 0 },           { 0, 0, VL, 0 },       { 0, 0, BW, 0 },       { 0, 0, DQ, 0 },
                             { 0, 0, CD, 0 },         { 0, 0, A5, 0 },          { FMA, 0, 0, 0 },      { FMA, 0, A5, 0 },     { 0, 0, A5 | A2, 0 },
                             { FMA, 0, A5 | A2, 0 },  { OSX, 0, 0, 0 },         { OSX, 0, A5, 0 },     { AVX, 0, 0, 0 },      { AVX | OSX | FMA, 0, A5 | A2, 0 },
                             { 0, 0, 0, 6 },          { AVX | S42, 0, 0, 0 },   { AVX | FMA | S42 | S41, 0, A5 | A2, 0 },     { 0, 0, VL | BW, 0 },
                             { AVX | OSX | S42 | S41 | SS3 | S3 | FMA, 0, A5 | A2, 0 },   { OSX | S42, 0, A2, 0 } };
    Rng r(st().seed * 31 + 1);
    for (int i = 0; i < (thorough() ? 200 : 30); ++i)
    {
        Fake f{ 0, 0, 0, 0 };
        for (uint32_t b : { FMA, S42, OSX, AVX })
            if (r.chance(0.2))
                f.clr1c |= b;
        for (uint32_t b : { A2, F, DQ, CD, BW, VL })
            if (r.chance(0.2))
                f.clr7b |= b;
        fakes.push_back(f);
    }
    char self[400];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n > 0 ? n : 0] = 0;
    std::unordered_set<std::string> done_;
    int idx = 0;
    for (auto& f : fakes)
    {
        char k[80];
        snprintf(k, sizeof k, "%x %x %x", f.clr1c, f.clr7b, f.maxleaf);
        if (done_.insert(k).second)
            emulate(idx++, f, self);
    }
    for (int i = 0; i < (thorough() ? 1200 : 160); ++i)
        compare(i);
    kfr::override_cpu(native);
    printf("@NOTE worst difference / tolerance %.3f\n", worst);
    return done();
}
