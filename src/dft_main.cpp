// C01, C02, C04: transforms against the definition, under every instruction set the library dispatches to.
#include "dft_ref.hpp"
#include "isa.hpp"
#include <kfr/dft.hpp>

static bool is_smooth(size_t n)
{
    for (size_t p : { 2, 3, 5, 7, 11, 13 })
        while (n % p == 0)
            n /= p;
    return n == 1;
}

static ld worst[2];

struct Expect
{
    std::vector<size_t> bins;
    std::vector<cld> val; // forward values of bins
    ld scale; // rms bin magnitude
};

template <typename T>
void check_c2c(size_t n, const std::vector<cld>& x, const Expect& ex, const Isa& isa, bool inplace, bool inverse, bool nulltemp,
               size_t misalign, kfr::dft_plan<T>& plan)
{
    using C = kfr::complex<T>;
    Buf<C> in(n + misalign), outb(n + misalign);
    Buf<kfr::u8> temp(plan.temp_size);
    C* ip = in.data() + misalign;
    C* op = inplace ? ip : outb.data() + misalign;
    for (size_t i = 0; i < n; ++i)
        ip[i] = C((T)x[i].real(), (T)x[i].imag());
    std::vector<C> orig(ip, ip + n);
    plan.execute(op, ip, nulltemp ? nullptr : temp.data(), inverse);
    if (!in.intact() || !outb.intact() || !temp.intact())
        return fail("wrote outside a buffer: n=%zu %s %s in=%d out=%d temp=%d", n, tn<T>(), isa.name, in.intact(), outb.intact(),
                    temp.intact());
    if (!inplace && memcmp((void*)orig.data(), (void*)ip, n * sizeof(C)))
        return fail("out-of-place execution changed the input: n=%zu %s %s inverse=%d", n, tn<T>(), isa.name, inverse);
    ld maxerr  = 0;
    size_t bad = 0;
    for (size_t b = 0; b < ex.bins.size(); ++b)
    {
        size_t k = inverse ? (n - ex.bins[b]) % n : ex.bins[b];
        ld er    = std::abs(cld(op[k].real(), op[k].imag()) - ex.val[b]) / (ex.scale + std::abs(ex.val[b]));
        if (!(er <= maxerr))
        {
            maxerr = er, bad = k;
            if (!(er == er))
                break;
        }
    }
    ld rel = maxerr;
    ld q   = rel / tolerance<T>(n);
    if (q > worst[sizeof(T) == 8])
        worst[sizeof(T) == 8] = q;
    if (getenv("VK_CAL") && q > 0.5)
        printf("@NOTE cal n=%zu lp=%zu q=%.2Lf rel=%.1Lf eps\n", n, largest_prime(n), q, rel / eps<T>());
    if (!(q <= 1))
        fail("n=%zu %s %s inverse=%d inplace=%d nulltemp=%d misalign=%zu: bin %zu off by %.3Lg x rms (allowed %.3Lg)", n, tn<T>(),
             isa.name, inverse, inplace, nulltemp, misalign, bad, rel, tolerance<T>(n));
    seen(hash_bytes(isa.name, strlen(isa.name), n * 64 + (sizeof(T) == 8) * 32 + inplace * 16 + inverse * 8 + nulltemp * 4 + (misalign ? 1 : 0)));
    stat("bins_compared", ex.bins.size());
}

static void c2c_size(size_t n, int pattern)
{
    if (!begin("c2c n=%zu p=%d", n, pattern))
        return;
    Rng r = case_rng();
    std::vector<cld> x(n);
    Twiddle tw(n);
    Expect ex;
    if (pattern == 0)
    {
        for (auto& v : x)
            v = cld((float)r.sym(), (float)r.sym());
        if (n <= 2200)
        {
            for (size_t k = 0; k < n; ++k)
                ex.bins.push_back(k);
        }
        else
        {
            std::vector<size_t> b{ 0, 1, 2, n / 2, n / 2 + 1, n - 1, n / 4, n / 3, 3 * n / 4 };
            for (int i = 0; i < 24; ++i)
                b.push_back(r.below(n));
            ex.bins = b;
        }
        for (size_t k : ex.bins)
            ex.val.push_back(dft_bin(x, tw, k));
    }
    else
    {
        // a few impulses: every bin has a closed form, so every bin is compared even for large sizes
        std::vector<std::pair<size_t, cld>> imp;
        size_t cnt = std::min<size_t>(n, 3);
        for (size_t i = 0; i < cnt; ++i)
        {
            size_t p = r.below(n);
            if (x[p] != cld(0, 0))
                continue;
            cld v((float)r.sym(), (float)r.sym());
            x[p] = v;
            imp.push_back({ p, v });
        }
        ex.bins.resize(n);
        ex.val.resize(n);
        for (size_t k = 0; k < n; ++k)
            ex.bins[k] = k;
        for (auto& pv : imp)
        {
            size_t j = 0;
            for (size_t k = 0; k < n; ++k)
            {
                ex.val[k] += pv.second * cld(tw.c[j], -tw.s[j]);
                j += pv.first;
                if (j >= n)
                    j -= n;
            }
        }
    }
    ld e = 0;
    for (auto& v : x)
        e += std::norm(v);
    ex.scale = sqrtl(e);
    sample("c2c n=%zu pattern=%s: %zu bins per execution, every ISA, f32/f64, both directions, in/out of place", n,
           pattern ? "impulses" : "dense", ex.bins.size());
    for (auto& isa : isas())
    {
        select_isa(isa);
        kfr::dft_plan<float> pf(n);
        kfr::dft_plan<double> pd(n);
        for (int v = 0; v < 4; ++v)
        {
            const bool inp = v & 1, inv = v & 2;
            bool nt    = n <= 70000 && r.chance(0.3);
            size_t mis = r.chance(0.3) ? 1 + r.below(3) : 0;
            check_c2c<float>(n, x, ex, isa, inp, inv, nt, mis, pf);
            check_c2c<double>(n, x, ex, isa, inp, inv, nt, mis, pd);
        }
    }
}

template <typename T>
void check_real(size_t n, kfr::dft_pack_format fmt, const Isa& isa, const std::vector<ld>& x, const Expect& ex, Rng& r)
{
    using C           = kfr::complex<T>;
    const bool perm   = fmt == kfr::dft_pack_format::Perm;
    const size_t half = n / 2, cs = perm ? half : half + 1;
    kfr::dft_plan_real<T> plan(n, fmt);
    if (plan.complex_size() != cs)
        return fail("complex_size() is %zu for n=%zu", plan.complex_size(), n);
    for (int variant = 0; variant < 2; ++variant)
    {
        const bool inplace = variant;
        const bool nt      = n <= 70000 && r.chance(0.3);
        // forward
        {
            Buf<C> buf(cs);
            Buf<T> in(inplace ? 0 : n);
            Buf<kfr::u8> temp(plan.temp_size);
            T* ip = inplace ? (T*)buf.data() : in.data();
            for (size_t i = 0; i < n; ++i)
                ip[i] = (T)x[i];
            plan.execute(buf.data(), ip, nt ? nullptr : temp.data());
            if (!buf.intact() || !in.intact() || !temp.intact())
                return fail("real forward wrote outside a buffer: n=%zu %s %s", n, tn<T>(), isa.name);
            if (!inplace)
                for (size_t i = 0; i < n; ++i)
                    if (in[i] != (T)x[i])
                        return fail("real forward changed its input: n=%zu %s %s", n, tn<T>(), isa.name);
            ld maxerr  = 0;
            size_t bad = 0;
            auto chk   = [&](size_t k, cld got, cld want)
            {
                ld er = std::abs(got - want) / (ex.scale + std::abs(want));
                if (!(er <= maxerr) && maxerr == maxerr)
                    maxerr = er, bad = k;
            };
            for (size_t b = 0; b < ex.bins.size(); ++b)
            {
                size_t k = ex.bins[b];
                if (k > half)
                    continue;
                cld want = ex.val[b], got;
                if (perm && k == 0)
                    got = cld(buf[0].real(), 0);
                else if (perm && k == half)
                    got = cld(buf[0].imag(), 0);
                else
                    got = cld(buf[k].real(), buf[k].imag());
                chk(k, got, want);
            }
            ld q = maxerr / tolerance<T>(n);
            if (getenv("VK_CAL") && q > 0.4)
                printf("@NOTE cal n=%zu %s q=%.2Lf\n", n, tn<T>(), q);
            if (q > worst[sizeof(T) == 8])
                worst[sizeof(T) == 8] = q;
            if (!(q <= 1))
                fail("real forward n=%zu %s %s %s inplace=%d: bin %zu off by %.3Lg x rms", n, tn<T>(), isa.name, perm ? "Perm" : "CCs",
                     inplace, bad, maxerr);
            seen(hash_bytes(isa.name, strlen(isa.name), n * 64 + (sizeof(T) == 8) * 32 + inplace * 16 + perm));
        }
        // inverse: from the exact half spectrum (only when all bins are known)
        if (ex.bins.size() >= half + 1)
        {
            Buf<C> spec(cs);
            Buf<T> outb(inplace ? 0 : n);
            Buf<kfr::u8> temp(plan.temp_size);
            for (size_t b = 0; b < ex.bins.size(); ++b)
            {
                size_t k = ex.bins[b];
                if (k > half)
                    continue;
                C v((T)ex.val[b].real(), (T)ex.val[b].imag());
                if (perm && k == 0)
                    spec[0].real((T)ex.val[b].real());
                else if (perm && k == half)
                    spec[0].imag((T)ex.val[b].real());
                else if (k == 0 || k == half)
                    spec[k] = C((T)ex.val[b].real(), 0);
                else
                    spec[k] = v;
            }
            std::vector<C> orig(spec.data(), spec.data() + cs);
            T* op = inplace ? (T*)spec.data() : outb.data();
            plan.execute(op, spec.data(), nt ? nullptr : temp.data());
            if (!spec.intact() || !outb.intact() || !temp.intact())
                return fail("real inverse wrote outside a buffer: n=%zu %s %s", n, tn<T>(), isa.name);
            if (!inplace && memcmp((void*)orig.data(), (void*)spec.data(), cs * sizeof(C)))
                return fail("real inverse changed its input: n=%zu %s %s", n, tn<T>(), isa.name);
            // The rms of the output is n * rms(x) = sqrt(n) * scale. A single dominant sample leaks into the
            // others by rounding of the twiddles, so the error is also relative to the peak.
            ld peak = 0;
            for (size_t i = 0; i < n; ++i)
                peak = std::max(peak, std::abs(x[i] * n));
            const ld oscale = std::max(ex.scale * sqrtl((ld)n), peak / 2);
            ld maxerr  = 0;
            size_t bad = 0;
            for (size_t i = 0; i < n; ++i)
            {
                ld er = std::abs((ld)op[i] - x[i] * n) / oscale;
                if (!(er <= maxerr) && maxerr == maxerr)
                    maxerr = er, bad = i;
            }
            ld q = maxerr / tolerance<T>(n);
            if (getenv("VK_CAL") && q > 0.4)
                printf("@NOTE cal n=%zu %s q=%.2Lf\n", n, tn<T>(), q);
            if (q > worst[sizeof(T) == 8])
                worst[sizeof(T) == 8] = q;
            if (!(q <= 1))
                fail("real inverse n=%zu %s %s %s inplace=%d: sample %zu off by %.3Lg x rms", n, tn<T>(), isa.name, perm ? "Perm" : "CCs",
                     inplace, bad, maxerr);
            seen(hash_bytes(isa.name, strlen(isa.name), n * 64 + (sizeof(T) == 8) * 32 + inplace * 16 + perm + 2));
        }
    }
}

static void real_size(size_t n, int pattern)
{
    if (!begin("real n=%zu p=%d", n, pattern))
        return;
    Rng r = case_rng();
    std::vector<cld> x(n);
    std::vector<ld> xr(n);
    Twiddle tw(n);
    Expect ex;
    if (pattern == 0)
    {
        for (size_t i = 0; i < n; ++i)
            x[i] = xr[i] = (float)r.sym();
        if (n <= 2200)
            for (size_t k = 0; k <= n / 2; ++k)
                ex.bins.push_back(k);
        else
        {
            ex.bins = { 0, 1, 2, n / 2, n / 2 - 1, n / 4, n / 4 + 1, n / 3 };
            for (int i = 0; i < 16; ++i)
                ex.bins.push_back(r.below(n / 2 + 1));
        }
        for (size_t k : ex.bins)
            ex.val.push_back(dft_bin(x, tw, k));
    }
    else
    {
        ex.bins.resize(n / 2 + 1);
        ex.val.resize(n / 2 + 1);
        for (size_t k = 0; k <= n / 2; ++k)
            ex.bins[k] = k;
        for (int i = 0; i < 3; ++i)
        {
            size_t p = r.below(n);
            ld v     = (float)r.sym();
            if (xr[p] != 0)
                continue;
            x[p] = xr[p] = v;
            size_t j     = 0;
            for (size_t k = 0; k <= n / 2; ++k)
            {
                ex.val[k] += v * cld(tw.c[j], -tw.s[j]);
                j += p;
                if (j >= n)
                    j -= n;
            }
        }
    }
    ld e = 0;
    for (auto& v : xr)
        e += v * v;
    ex.scale = sqrtl(e);
    sample("real n=%zu pattern=%s: both formats, both directions, in/out of place, every ISA", n, pattern ? "impulses" : "dense");
    for (auto& isa : isas())
    {
        select_isa(isa);
        for (auto fmt : { kfr::dft_pack_format::CCs, kfr::dft_pack_format::Perm })
        {
            check_real<float>(n, fmt, isa, xr, ex, r);
            check_real<double>(n, fmt, isa, xr, ex, r);
        }
    }
}

template <typename T>
void check_dct(size_t n, const std::vector<ld>& x, const std::vector<ld>& fwd, const std::vector<ld>& inv, ld scale, const Isa& isa, Rng& r)
{
    kfr::dct_plan<T> plan(n);
    for (int variant = 0; variant < 8; ++variant)
    {
        const bool inverse = variant & 1, inplace = variant & 2, nt = variant & 4;
        if (nt && n > 5000)
            continue;
        Buf<T> in(n), outb(n);
        Buf<kfr::u8> temp(plan.temp_size);
        for (size_t i = 0; i < n; ++i)
            in[i] = (T)x[i];
        T* op = inplace ? in.data() : outb.data();
        plan.execute(op, in.data(), nt ? nullptr : temp.data(), inverse);
        if (!in.intact() || !outb.intact() || !temp.intact())
            return fail("dct wrote outside a buffer: n=%zu %s %s", n, tn<T>(), isa.name);
        if (!inplace)
            for (size_t i = 0; i < n; ++i)
                if (in[i] != (T)x[i])
                    return fail("dct changed its input: n=%zu %s %s", n, tn<T>(), isa.name);
        const auto& want = inverse ? inv : fwd;
        ld maxerr        = 0;
        size_t bad       = 0;
        for (size_t i = 0; i < n; ++i)
        {
            ld er = std::abs((ld)op[i] - want[i]);
            if (!(er <= maxerr) && maxerr == maxerr)
                maxerr = er, bad = i;
        }
        // the phase of the post-rotation is computed from a product in T: allow for its rounding
        ld q = maxerr / scale / (2 * tolerance<T>(n) + 4 * eps<T>());
        if (q > worst[sizeof(T) == 8])
            worst[sizeof(T) == 8] = q;
        if (!(q <= 1))
            fail("dct n=%zu %s %s inverse=%d inplace=%d nulltemp=%d: element %zu off by %.3Lg x rms", n, tn<T>(), isa.name, inverse, inplace, nt,
                 bad, maxerr / scale);
        seen(hash_bytes(isa.name, strlen(isa.name), n * 64 + (sizeof(T) == 8) * 32 + variant));
    }
}
static void dct_size(size_t n)
{
    if (!begin("dct n=%zu", n))
        return;
    Rng r = case_rng();
    std::vector<ld> x(n), fwd(n), inv(n);
    ld e = 0;
    for (auto& v : x)
        v = (float)r.sym(), e += v * v;
    Twiddle tw(4 * n);
    for (size_t k = 0; k < n; ++k)
    {
        ld a = 0, b = 0;
        for (size_t i = 0; i < n; ++i)
        {
            a += x[i] * tw.c[((2 * i + 1) * k) % (4 * n)]; // DCT-II
            b += (i == 0 ? x[0] / 2 : x[i] * tw.c[((2 * k + 1) * i) % (4 * n)]); // DCT-III
        }
        fwd[k] = a;
        inv[k] = b;
    }
    sample("dct n=%zu: types II and III, in/out of place, scratch given or not, every ISA", n);
    for (auto& isa : isas())
    {
        select_isa(isa);
        check_dct<float>(n, x, fwd, inv, sqrtl(e), isa, r);
        check_dct<double>(n, x, fwd, inv, sqrtl(e), isa, r);
    }
}

static std::vector<size_t> big_sizes(Rng& r, size_t limit, int count)
{
    std::vector<size_t> v;
    for (size_t p = 2048; p <= limit; p *= 2)
    {
        v.push_back(p);
        if (p <= limit / 2)
            v.push_back(p + 1), v.push_back(p - 1), v.push_back(p / 2 * 3);
    }
    std::vector<size_t> smooth;
    for (size_t n = 2201; n <= limit; ++n)
        if (is_smooth(n))
            smooth.push_back(n);
    for (int i = 0; i < count; ++i)
        v.push_back(smooth[r.below(smooth.size())]);
    for (int i = 0; i < count; ++i)
    {
        // log-uniform arbitrary sizes, primes included
        double l = 7.7 + r.unit() * (std::log((double)std::min<size_t>(limit, 60000)) - 7.7);
        v.push_back((size_t)std::exp(l));
    }
    return v;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
    const std::string mode = opt("mode", "c2c");
    const bool light       = opt("light", "0") == "1"; // sanitized build: smaller sweep
    const auto native      = kfr::get_cpu();
    Rng r(st().seed * 77 + 5);
    size_t dense = light ? 520 : thorough() ? 2100 : 1100;
    size_t big   = light ? 40000 : thorough() ? (1u << 21) : (1u << 18);
    int nbig     = light ? 12 : thorough() ? 160 : 40;
    if (mode == "c2c")
    {
        for (size_t n = 1; n <= dense; ++n)
            c2c_size(n, 0);
        for (size_t n : big_sizes(r, big, nbig))
            c2c_size(n, 0), c2c_size(n, 1);
        if (!light)
            for (size_t n : { 1u << 19, 1u << 20, 3u << 18, 5u << 17, (1u << 21) })
                c2c_size(n, 1);
    }
    else if (mode == "real")
    {
        for (size_t n = 2; n <= dense * 2; n += 2)
            real_size(n, n > 1400 && !thorough() ? 1 : 0);
        for (size_t n : big_sizes(r, big, nbig))
            real_size(n & ~size_t(1), 0), real_size(n & ~size_t(1), 1);
        if (!light)
            for (size_t n : { 1u << 19, 1u << 20, 3u << 18 })
                real_size(n, 1);
    }
    else if (mode == "dct")
    {
        for (size_t n = 1; n <= (light ? 260 : thorough() ? 1500 : 700); ++n)
            dct_size(n);
        for (size_t n : { 1024, 1500, 2048, 2310, 4096 })
            if (!light || n < 2000)
                dct_size(n);
    }
    kfr::override_cpu(native);
    printf("@NOTE %s: worst error / tolerance f32 %.3Lf f64 %.3Lf\n", mode.c_str(), worst[0], worst[1]);
    return done();
}
