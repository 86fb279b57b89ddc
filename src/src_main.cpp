// C10: sample rate converter. Streams produced in any chunking are compared with the stream of one call, the
// bookkeeping functions with what the calls really consumed and produced, tones with their ideal continuation.
#include "stream.hpp"
#include <kfr/dsp/sample_rate_conversion.hpp>
using namespace kfr;
using Q = sample_rate_conversion_quality;
static const Q quals[] = { Q::draft, Q::low, Q::normal, Q::high, Q::perfect };

static ld att_of(Q q) { return ((int)q - 3) * 20.0L; }

/// The whole stream in one call (pull), the reference of the chunked runs
template <typename T>
static std::vector<T> whole(Q q, size_t I, size_t D, const std::vector<T>& in, size_t nout)
{
    samplerate_converter<T> c(q, I, D);
    univector<T> out(nout);
    c.process(out, make_univector(in.data(), in.size()));
    return std::vector<T>(out.begin(), out.end());
}

template <typename T>
struct Cmp
{
    const std::vector<T>& ref;
    ld tol;
    const char* what;
    bool operator()(const T* y, size_t n, size_t at) const
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (at + i >= ref.size())
            {
                fail("%s: more than %zu outputs", what, ref.size());
                return false;
            }
            ld e = err_at(y[i], cld(num<T>::up(ref[at + i])));
            if (!(e <= tol))
            {
                fail("%s: output %zu differs by %Lg from that of a single call", what, at + i, e);
                return false;
            }
        }
        return true;
    }
};

template <typename T>
static void chunks(Q q, size_t I, size_t D, int style, int var)
{
    if (!begin("chunks/%s/q%d/%zu-%zu/split%d/%d", num<T>::name(), (int)q, I, D, style, var))
        return;
    Rng r            = case_rng();
    const size_t g   = gcd((i64)I, (i64)D);
    const i64 i      = I / g, d = D / g;
    const i64 depth  = i64(1) << ((int)q + 1);
    // output count: a few times the filter length, sometimes shorter than it
    i64 nin          = r.chance(0.3) ? 1 + r.below(depth) : depth + r.below(3 * depth);
    if (nin * i / d > 6000)
        nin = std::max<i64>(6000 * d / i, 2 * depth);
    if (nin > 40000)
        nin = 40000;
    std::vector<T> in(nin);
    make_signal(r, in.data(), nin, r.below(3) == 0 ? 1 : 0);
    // every output that needs only the given samples
    const i64 nout = (nin * i + d - 1) / d;
    const ld scale = num<T>::mag(typename num<T>::ref(1)) * 4;
    const ld tol   = eps<typename num<T>::real>() * scale * sqrtl(depth) * 8;
    std::vector<T> ref = whole(q, I, D, in, nout);

    // pull: the converter says how much it needs
    {
        samplerate_converter<T> c(q, I, D);
        Cmp<T> cmp{ ref, tol, "pull" };
        i64 ip = 0, op = 0;
        auto calls = split_calls(r, nout, style, 1 + r.below(2 * depth));
        for (size_t n : calls)
        {
            i64 need = c.input_size_for_output(n);
            // the definition: output j uses the input samples up to floor(j d / i)
            i64 last = n ? (op + (i64)n - 1) * d / i + 1 : ip;
            if (need < 0 || ip + need < last)
                return fail("pull: input_size_for_output(%zu) = %lld at output %lld, input %lld, but %lld are needed", n, (long long)need,
                            (long long)op, (long long)ip, (long long)(last - ip));
            if (ip + need > last + (d + i - 1) / i)
                return fail("pull: input_size_for_output(%zu) = %lld asks for more than needed", n, (long long)need);
            Buf<T> x(need), y(n);
            for (i64 k = 0; k < need; ++k)
                x[k] = ip + k < nin ? in[ip + k] : T(0);
            auto yo    = make_univector(y.data(), n);
            size_t got = c.process(yo, make_univector((const T*)x.data(), need));
            if (!y.intact())
                return fail("pull: wrote outside the output");
            if ((i64)got != need)
                return fail("pull: consumed %zu samples where %lld were predicted", got, (long long)need);
            if (!cmp(y.data(), n, op))
                return;
            ip += need;
            op += n;
        }
        seen(1);
    }
    // push: everything available is converted, nothing is lost
    {
        samplerate_converter<T> c(q, I, D);
        Cmp<T> cmp{ ref, tol, "push" };
        i64 ip = 0, op = 0;
        auto calls = split_calls(r, nin, style, 1 + r.below(2 * depth));
        for (size_t n : calls)
        {
            i64 can = c.output_size_for_input(n);
            i64 max = ((ip + (i64)n) * i + d - 1) / d - op; // outputs that need only what has arrived
            if (can < 0 || can > max)
                return fail("push: output_size_for_input(%zu) = %lld at output %lld, input %lld: only %lld can be computed", n, (long long)can,
                            (long long)op, (long long)ip, (long long)max);
            Buf<T> x(n), y(can);
            memcpy((void*)x.data(), in.data() + ip, n * sizeof(T));
            auto yo    = make_univector(y.data(), can);
            size_t got = c.process(yo, make_univector((const T*)x.data(), n));
            if (!y.intact())
                return fail("push: wrote outside the output");
            if (got != n)
                return fail("push: %zu of %zu samples consumed at output %lld, input %lld", got, n, (long long)op, (long long)ip);
            if (!cmp(y.data(), can, op))
                return;
            ip += n;
            op += can;
        }
        if (op < nout - (i + d - 1) / d)
            return fail("push: only %lld of %lld outputs were produced", (long long)op, (long long)nout);
        seen(2);
    }
    // pull from a buffer that holds the rest of the stream, continuing after what was consumed, skipping some of it
    {
        samplerate_converter<T> c(q, I, D);
        Cmp<T> cmp{ ref, tol, "pull from the rest" };
        i64 ip = 0, op = 0;
        auto calls = split_calls(r, nout, style, 1 + r.below(2 * depth));
        for (size_t n : calls)
        {
            size_t avail = std::max<i64>(0, nin - ip);
            Buf<T> x(avail), y(n);
            memcpy((void*)x.data(), in.data() + std::min(ip, nin), avail * sizeof(T));
            auto xi = make_univector((const T*)x.data(), avail);
            size_t got;
            if (r.chance(0.5))
            {
                got = c.skip(n, xi);
            }
            else
            {
                auto yo = make_univector(y.data(), n);
                got     = c.process(yo, xi);
                if (!y.intact())
                    return fail("pull from the rest: wrote outside the output");
                if (!cmp(y.data(), n, op))
                    return;
            }
            ip += got;
            op += n;
        }
        seen(3);
    }
    sample("%s: %lld inputs, %lld outputs", cur(), (long long)nin, (long long)nout);
}

template <typename T>
static void tones(Q q, size_t I, size_t D, int var)
{
    using R = typename num<T>::real;
    if (!begin("tone/%s/q%d/%zu-%zu/%d", num<T>::name(), (int)q, I, D, var))
        return;
    Rng r           = case_rng();
    const i64 g     = gcd((i64)I, (i64)D);
    const i64 i = I / g, d = D / g, mx = std::max(i, d);
    const i64 depth = i64(1) << ((int)q + 1);
    const i64 taps  = depth * i;
    const ld A      = att_of(q);
    const ld pi2    = 6.283185307179586476925286766559L;
    // Kaiser's formula for the transition width, in cycles per sample of the intermediate rate
    const ld beta   = A > 50 ? 0.1102L * (A - 8.7L) : A >= 21 ? 0.5842L * powl(A - 21, 0.4L) + 0.07886L * (A - 21) : 0;
    const ld width  = std::max((beta / 0.1102L + 8.7L - 8), 13.0L) / (2.285L * (taps - 1)) / pi2;
    const ld cutoff = (0.5L - (beta / 0.1102L + 0.7L) / (depth - 1) / 2.285L / (pi2 * 2)) / mx;
    const ld pass = std::max(0.0L, cutoff - width * 0.6L) * i, stop = (cutoff + width * 0.6L) * i; // cycles per input sample
    samplerate_converter<T> c(q, I, D, R(1));
    const ld delay  = c.get_fractional_delay();
    if (!(fabsl(delay * d - (taps - 1) * 0.5L) <= 0.51L))
        return fail("fractional delay %Lg for %lld taps and decimation by %lld", delay, (long long)taps, (long long)d);
    if (c.get_delay() != (size_t)delay)
        return fail("integer delay %zu for the fractional delay %Lg", c.get_delay(), delay);
    const bool cx = std::is_same_v<T, complex<R>>;
    // ripple and floor: the design's, and rounding of the tap computation and of the sum
    const ld tol = 3 * powl(10, -A / 20) + eps<R>() * 40 * sqrtl((ld)taps / i);
    for (int k = 0; k < 6; ++k)
    {
        const bool in_stop = k >= 4;
        if (in_stop && stop >= 0.5L)
            continue; // everything representable at the input is allowed at the output
        if (!in_stop && pass <= 0)
            continue;
        ld f = in_stop ? stop + (0.5L - stop) * r.unit() : k == 0 ? 0.0L : k == 1 ? pass : pass * r.unit();
        const i64 n0 = taps / d + 2; // settled
        const i64 n = std::min<i64>(n0 + 300, 60000);
        if (n <= n0)
            continue;
        i64 nin = n * d / i + 2;
        Buf<T> x(nin), y(n);
        const ld ph = r.unit() * pi2;
        for (i64 m = 0; m < nin; ++m)
        {
            ld a = pi2 * f * m + ph;
            if constexpr (cx)
                x[m] = T((R)cosl(a), (R)sinl(a));
            else
                x[m] = (R)cosl(a);
        }
        samplerate_converter<T> s(q, I, D, R(1));
        auto yo = make_univector(y.data(), n);
        s.process(yo, make_univector((const T*)x.data(), nin));
        ld worst = 0;
        for (i64 j = n0; j < n; ++j)
        {
            ld a  = pi2 * f * ((j - delay) * d / i) + ph;
            cld e = in_stop ? cld(0) : cld(cosl(a), cx ? sinl(a) : 0.0L);
            worst = std::max(worst, err_at(y[j], e));
        }
        // a real tone is two complex ones; several images add up
        stat(in_stop ? "stop_tones" : "pass_tones");
        if (getenv("SRC_SHOW"))
            printf("%s f=%.4Lf stop=%d err/tol=%.3Lf err=%.3Lg\n", cur(), f, in_stop, worst / tol, worst);
        if (!(worst <= tol))
            return fail("%s of %.5Lf cycles/sample: error %.3Lg, tolerance %.3Lg", in_stop ? "stop-band tone" : "tone", f, worst, tol);
        seen(k);
    }
}

template <typename T>
static void all_types(bool heavy)
{
    static const size_t ratios[][2] = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 2 }, { 2, 3 }, { 160, 147 }, { 147, 160 }, { 4, 6 }, { 48000, 44100 },
                                        { 44100, 48000 }, { 1, 6 }, { 6, 1 }, { 5, 3 }, { 3, 5 }, { 7, 8 }, { 9, 7 }, { 1, 50 }, { 50, 1 },
                                        { 96000, 44100 }, { 44100, 96000 }, { 13, 1 }, { 3, 40 } };
    const int nq = thorough() ? 5 : 4;
    for (auto& ra : ratios)
        for (int q = 0; q < nq; ++q)
        {
            if (q >= 3 && ra[0] > 20)
                continue;
            for (int st = 0; st < n_split_styles; ++st)
                if (thorough() || heavy || (st + q) % 2 == 0)
                    chunks<T>(quals[q], ra[0], ra[1], st, 0);
            tones<T>(quals[q], ra[0], ra[1], 0);
        }
    Rng pick(st().seed * 77 + sizeof(T));
    for (int k = 0; k < (thorough() ? 2500 : 150); ++k)
    {
        size_t a = 1 + pick.below(40), b = 1 + pick.below(40);
        chunks<T>(quals[pick.below(3)], a, b, pick.below(n_split_styles), k);
        if (k % 3 == 0)
            tones<T>(quals[pick.below(3)], a, b, k);
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
    all_types<double>(true);
    all_types<float>(true);
    all_types<complex<double>>(false);
    all_types<complex<float>>(false);
    return done();
}
