// C03: multidimensional transforms against the transform along every axis.
#include "dft_ref.hpp"
#include "isa.hpp"
#include <kfr/dft.hpp>

static ld worst[2];
using Dv = std::vector<size_t>;

static size_t product(const Dv& d)
{
    size_t p = 1;
    for (size_t v : d)
        p *= v;
    return p;
}
static std::string show(const Dv& d)
{
    std::string s;
    for (size_t v : d)
        s += (s.empty() ? "" : "x") + std::to_string(v);
    return s;
}
// transform of x along every axis (row-major)
static std::vector<cld> reference(std::vector<cld> x, const Dv& d)
{
    size_t total = product(d), stride = 1;
    for (size_t a = d.size(); a-- > 0;)
    {
        size_t n = d[a];
        if (n > 1)
        {
            Twiddle tw(n);
            std::vector<cld> line(n);
            for (size_t o = 0; o < total; ++o)
            {
                if ((o / stride) % n)
                    continue;
                for (size_t i = 0; i < n; ++i)
                    line[i] = x[o + i * stride];
                line = dft_naive(line, tw);
                for (size_t i = 0; i < n; ++i)
                    x[o + i * stride] = line[i];
            }
        }
        stride *= n;
    }
    return x;
}
template <typename T>
ld md_tolerance(const Dv& d)
{
    ld t = 2 * eps<T>();
    for (size_t n : d)
        if (n > 1)
            t += tolerance<T>(n) * 1.5L;
    return t;
}
template <typename T>
bool judge(const char* what, ld err, const Dv& d, const char* isa)
{
    ld q = err / md_tolerance<T>(d);
    if (!(q <= worst[sizeof(T) == 8]))
        worst[sizeof(T) == 8] = q;
    if (!(q <= 1))
        fail("%s %s %s %s: off by %.3Lg x rms", what, show(d).c_str(), tn<T>(), isa, err);
    return q <= 1;
}

template <kfr::index_t D>
kfr::shape<D> mkshape(const Dv& d)
{
    if constexpr (D == kfr::dynamic_shape)
    {
        kfr::shape<D> s(d.size());
        for (size_t i = 0; i < d.size(); ++i)
            s[i] = d[i];
        return s;
    }
    else
    {
        kfr::shape<D> s;
        for (size_t i = 0; i < d.size(); ++i)
            s[i] = d[i];
        return s;
    }
}

template <typename T, kfr::index_t D>
void complex_md(const Dv& d, const std::vector<cld>& x, const std::vector<cld>& X, ld rms_x, const Isa& isa, Rng& r)
{
    using C        = kfr::complex<T>;
    const size_t n = product(d);
    kfr::dft_plan_md<T, D> plan(mkshape<D>(d));
    for (int v = 0; v < 4; ++v)
    {
        const bool inverse = v & 1, inplace = v & 2;
        const bool nt = r.chance(0.4);
        Buf<C> in(n), out(n);
        Buf<kfr::u8> temp(plan.temp_size);
        for (size_t i = 0; i < n; ++i)
            in[i] = C((T)x[i].real(), (T)(inverse ? -x[i].imag() : x[i].imag()));
        std::vector<C> orig(in.data(), in.data() + n);
        C* op     = inplace ? in.data() : out.data();
        bool done = false;
        if constexpr (D != kfr::dynamic_shape)
            if (r.chance(0.3))
            {
                kfr::tensor<C, D> ti(in.data(), mkshape<D>(d), nullptr), to(op, mkshape<D>(d), nullptr);
                plan.execute(to, ti, nt ? nullptr : temp.data(), inverse);
                done = true;
            }
        if (!done)
        {
            if (r.chance(0.5))
                plan.execute(op, in.data(), nt ? nullptr : temp.data(), inverse);
            else if (inverse)
                plan.template execute<true>(op, in.data(), nt ? nullptr : temp.data(), kfr::ctrue);
            else
                plan.template execute<false>(op, in.data(), nt ? nullptr : temp.data(), kfr::cfalse);
        }
        if (!in.intact() || !out.intact() || !temp.intact())
            return fail("complex %s %s %s wrote outside a buffer", show(d).c_str(), tn<T>(), isa.name);
        if (!inplace && memcmp((void*)orig.data(), (void*)in.data(), n * sizeof(C)))
            return fail("complex %s %s %s changed its input", show(d).c_str(), tn<T>(), isa.name);
        ld err = 0;
        for (size_t i = 0; i < n; ++i)
        {
            cld got(op[i].real(), op[i].imag());
            ld e = std::abs((inverse ? std::conj(got) : got) - X[i]) / (rms_x * sqrtl((ld)n) + std::abs(X[i]));
            if (!(e <= err))
                err = e;
        }
        seen(hash_bytes(isa.name, strlen(isa.name), (sizeof(T) == 8) * 64 + v * 8 + (D == kfr::dynamic_shape)));
        if (!judge<T>(inverse ? "complex inverse" : "complex forward", err, d, isa.name))
            return;
    }
}

template <typename T, kfr::index_t D>
void real_md(const Dv& d, const std::vector<cld>& x, const std::vector<cld>& X, ld rms_x, const Isa& isa, Rng& r)
{
    using C        = kfr::complex<T>;
    const size_t n = product(d), last = d.back(), rows = n / last, half = last / 2 + 1, cn = rows * half;
    for (int enough = 0; enough < 2; ++enough)
    {
        kfr::dft_plan_md_real<T, D> plan(mkshape<D>(d), enough);
        if ((size_t)plan.complex_size().product() != cn || plan.real_out_size() != cn * 2)
            return fail("sizes of the real plan: complex %zu real %zu", (size_t)plan.complex_size().product(), plan.real_out_size());
        for (int inplace = 0; inplace < 2; ++inplace)
        {
            const bool nt = r.chance(0.4);
            {
                Buf<T> in(inplace ? 0 : n);
                Buf<C> out(cn);
                Buf<kfr::u8> temp(plan.temp_size);
                T* ip = inplace ? (T*)out.data() : in.data();
                for (size_t i = 0; i < n; ++i)
                    ip[i] = (T)x[i].real();
                bool done = false;
                if constexpr (D != kfr::dynamic_shape)
                    if (r.chance(0.3))
                    {
                        kfr::tensor<T, D> ti(ip, mkshape<D>(d), nullptr);
                        kfr::tensor<C, D> to(out.data(), plan.complex_size(), nullptr);
                        plan.execute(to, ti, nt ? nullptr : temp.data());
                        done = true;
                    }
                if (!done)
                    if (r.chance(0.5))
                        plan.execute(out.data(), ip, nt ? nullptr : temp.data());
                    else
                        plan.execute(out.data(), ip, nt ? nullptr : temp.data(), false);
                if (!in.intact() || !out.intact() || !temp.intact())
                    return fail("real forward %s %s %s wrote outside a buffer", show(d).c_str(), tn<T>(), isa.name);
                for (size_t i = 0; !inplace && i < n; ++i)
                    if (in[i] != (T)x[i].real())
                        return fail("real forward %s %s %s changed its input", show(d).c_str(), tn<T>(), isa.name);
                ld err = 0;
                for (size_t i = 0; i < cn; ++i)
                {
                    cld want = X[i / half * last + i % half];
                    ld e     = std::abs(cld(out[i].real(), out[i].imag()) - want) / (rms_x * sqrtl((ld)n) + std::abs(want));
                    if (!(e <= err))
                        err = e;
                }
                seen(hash_bytes(isa.name, strlen(isa.name), (sizeof(T) == 8) * 64 + inplace * 2 + (D == kfr::dynamic_shape) + 256 + enough * 4));
                if (!judge<T>("real forward", err, d, isa.name))
                    return;
            }
            {
                Buf<C> in(cn);
                Buf<T> out(inplace ? 0 : enough ? cn * 2 : n);
                Buf<kfr::u8> temp(plan.temp_size);
                for (size_t i = 0; i < cn; ++i)
                {
                    cld v = X[i / half * last + i % half];
                    in[i] = C((T)v.real(), (T)v.imag());
                }
                std::vector<C> orig(in.data(), in.data() + cn);
                T* op     = inplace ? (T*)in.data() : out.data();
                bool done = false;
                if constexpr (D != kfr::dynamic_shape)
                    if (r.chance(0.3))
                    {
                        kfr::tensor<C, D> ti(in.data(), plan.complex_size(), nullptr);
                        kfr::tensor<T, D> to(op, mkshape<D>(d), nullptr);
                        plan.execute(to, ti, nt ? nullptr : temp.data());
                        done = true;
                    }
                if (!done)
                    if (r.chance(0.5))
                        plan.execute(op, in.data(), nt ? nullptr : temp.data());
                    else
                        plan.execute(op, in.data(), nt ? nullptr : temp.data(), true);
                if (!in.intact() || !out.intact() || !temp.intact())
                    return fail("real inverse %s %s %s wrote outside a buffer", show(d).c_str(), tn<T>(), isa.name);
                if (!inplace && memcmp((void*)orig.data(), (void*)in.data(), cn * sizeof(C)))
                    return fail("real inverse %s %s %s changed its input", show(d).c_str(), tn<T>(), isa.name);
                ld err = 0, peak = 0;
                for (size_t i = 0; i < n; ++i)
                    peak = std::max(peak, std::abs(x[i].real()));
                for (size_t i = 0; i < n; ++i)
                {
                    ld e = std::abs((ld)op[i] - x[i].real() * n) / (std::max(rms_x * sqrtl((ld)1), peak) * n);
                    if (!(e <= err))
                        err = e;
                }
                seen(hash_bytes(isa.name, strlen(isa.name), (sizeof(T) == 8) * 64 + inplace * 2 + (D == kfr::dynamic_shape) + 512 + enough * 4));
                if (!judge<T>("real inverse", err, d, isa.name))
                    return;
            }
        }
    }
}

static void one(const Dv& d, int rep)
{
    if (!begin("md %s #%d", show(d).c_str(), rep))
        return;
    Rng r          = case_rng();
    const size_t n = product(d);
    std::vector<cld> x(n), xr(n);
    ld e = 0, er = 0;
    for (auto& v : x)
        v = cld((float)r.sym(), (float)r.sym()), e += std::norm(v);
    for (auto& v : xr)
        v = cld((float)r.sym(), 0), er += std::norm(v);
    auto X = reference(x, d);
    std::vector<cld> XR;
    const bool even = d.back() % 2 == 0;
    if (even)
        XR = reference(xr, d);
    sample("md %s: complex%s, fixed and run-time number of dimensions, pointers and tensors, every ISA", show(d).c_str(), even ? " and real" : "");
    stat("elements", n);
    for (auto& isa : isas())
    {
        select_isa(isa);
        auto run = [&](auto t, auto dims)
        {
            using T                   = decltype(t);
            constexpr kfr::index_t DD = decltype(dims)::value;
            complex_md<T, DD>(d, x, X, sqrtl(e / n), isa, r);
            if (even && !failed())
                real_md<T, DD>(d, xr, XR, sqrtl(er / n), isa, r);
        };
        auto both = [&](auto dims) { run(float(), dims), run(double(), dims); };
        both(std::integral_constant<kfr::index_t, kfr::dynamic_shape>());
        switch (d.size())
        {
        case 1:
            both(std::integral_constant<kfr::index_t, 1>());
            break;
        case 2:
            both(std::integral_constant<kfr::index_t, 2>());
            break;
        case 3:
            both(std::integral_constant<kfr::index_t, 3>());
            break;
        case 4:
            both(std::integral_constant<kfr::index_t, 4>());
            break;
        }
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
    const auto native = kfr::get_cpu();
    const bool light  = opt("light", "0") == "1";
    // every small shape
    for (size_t a = 1; a <= (light ? 6 : 12); ++a)
    {
        one({ a }, 0);
        for (size_t b = 1; b <= (light ? 6 : 12); ++b)
        {
            one({ a, b }, 0);
            for (size_t c = 1; c <= 6 && a <= 6 && b <= 6; ++c)
                one({ a, b, c }, 0);
        }
    }
    Rng r(st().seed * 1001 + 3);
    const std::vector<size_t> dims{ 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 17, 18, 20, 24, 30, 31, 32, 36, 48, 60, 64, 66, 72, 96, 100, 127, 128, 131, 206, 256 };
    const int count = light ? 40 : thorough() ? 2500 : 330;
    for (int i = 0; i < count; ++i)
    {
        size_t nd = 1 + r.below(5), cap = light ? 3000 : r.chance(0.1) ? 300000 : 20000;
        Dv d;
        size_t p = 1;
        for (size_t k = 0; k < nd; ++k)
        {
            size_t v;
            do
                v = r.chance(0.8) ? r.pick(dims) : 1 + r.below(150);
            while (p * v > cap && v > 1);
            d.push_back(v);
            p *= v;
        }
        // rotate so that the large extent is not always first
        size_t rot = r.below(nd);
        std::rotate(d.begin(), d.begin() + rot, d.end());
        if (r.chance(0.7))
            d.back() += d.back() & 1;
        one(d, i);
    }
    if (!light)
        for (Dv d : { Dv{ 256, 256 }, Dv{ 512, 514 }, Dv{ 3, 3500 }, Dv{ 5000, 4 }, Dv{ 64, 64, 64 }, Dv{ 2, 2, 2, 2, 2, 2, 2, 2, 2 } })
            one(d, -1);
    kfr::override_cpu(native);
    printf("@NOTE md: worst error / tolerance f32 %.3Lf f64 %.3Lf\n", worst[0], worst[1]);
    return done();
}
