// C14: EBU R128 loudness. Every reported value is compared with a model of ITU-R BS.1770 / EBU Tech 3342 computed in
// long double from the same audio; the K filter is compared with the coefficients printed in the standard.
#include "stream.hpp"
#include <algorithm>
#include <kfr/dsp/ebu.hpp>
using namespace kfr;

static const ld PI = 3.14159265358979323846264338327950288L;
struct Sec
{
    ld b0, b1, b2, a1, a2;
};
/// The K filter: at 48 kHz the coefficients of the standard, elsewhere the same analogue filter
static void kfilter(ld fs, Sec* s)
{
    // analogue parameters that give the table of BS.1770 at 48 kHz (as used by libebur128)
    ld f0 = 1681.974450955533L, G = 3.999843853973347L, Q = 0.7071752369554196L;
    ld K = tanl(PI * f0 / fs), Vh = powl(10, G / 20), Vb = powl(Vh, 0.4996667741545416L), a0 = 1 + K / Q + K * K;
    s[0] = { (Vh + Vb * K / Q + K * K) / a0, 2 * (K * K - Vh) / a0, (Vh - Vb * K / Q + K * K) / a0, 2 * (K * K - 1) / a0, (1 - K / Q + K * K) / a0 };
    f0 = 38.13547087602444L, Q = 0.5003270373238773L;
    K = tanl(PI * f0 / fs), a0 = 1 + K / Q + K * K;
    s[1] = { 1, -2, 1, 2 * (K * K - 1) / a0, (1 - K / Q + K * K) / a0 };
}
static ld gain_of(Speaker s)
{
    switch (s)
    {
    case Speaker::Lfe:
    case Speaker::Lfe2:
        return 0;
    case Speaker::LeftSurround:
    case Speaker::RightSurround:
        return powl(10, 0.15L); // +1.5 dB
    default:
        return 1;
    }
}
static ld lufs(ld e) { return 10 * log10l(e) - 0.691L; }

struct Model
{
    int fs;
    size_t packet, factor;
    std::vector<Speaker> sp;
    std::vector<std::array<Sec, 2>> f;
    std::vector<std::array<ld, 4>> st;
    std::vector<std::vector<ld>> sums; // per channel, sum of squares of every packet
    std::vector<ld> blocks, shorts;
    bool running = true;
    Model(int fs, std::vector<Speaker> sp, size_t factor) : fs(fs), packet(fs / 10 / factor), factor(factor), sp(sp)
    {
        f.resize(sp.size());
        reset();
    }
    void reset()
    {
        st.assign(sp.size(), { 0, 0, 0, 0 });
        sums.assign(sp.size(), {});
        blocks.clear();
        shorts.clear();
        for (auto& x : f)
            kfilter(fs, x.data());
    }
    ld window(size_t n) const
    {
        ld e = 0;
        for (size_t c = 0; c < sp.size(); ++c)
        {
            ld s = 0;
            for (size_t k = 0; k < n && k < sums[c].size(); ++k)
                s += sums[c][sums[c].size() - 1 - k];
            e += s / (ld)(n * packet) * gain_of(sp[c]);
        }
        return e;
    }
    ld momentary() const { return window(4 * factor); }
    ld shortterm() const { return window(30 * factor); }
    template <typename T>
    void push(const std::vector<std::vector<T>>& pk)
    {
        for (size_t c = 0; c < sp.size(); ++c)
        {
            ld s = 0;
            for (T v : pk[c])
            {
                ld x = v;
                for (int k = 0; k < 2; ++k)
                {
                    auto& q = f[c][k];
                    ld y    = q.b0 * x + st[c][2 * k];
                    st[c][2 * k]     = q.b1 * x - q.a1 * y + st[c][2 * k + 1];
                    st[c][2 * k + 1] = q.b2 * x - q.a2 * y;
                    x       = y;
                }
                s += x * x;
            }
            sums[c].push_back(s);
        }
        if (running)
        {
            blocks.push_back(momentary());
            shorts.push_back(shortterm());
        }
    }
    /// integrated loudness; sets fuzzy when a block lies too close to a gate to tell
    ld integrated(bool& fuzzy, ld margin) const
    {
        std::vector<ld> v;
        for (ld e : blocks)
        {
            if (e > 0 && fabsl(lufs(e) + 70) < margin)
                fuzzy = true;
            if (e > 0 && lufs(e) >= -70)
                v.push_back(e);
        }
        if (v.empty())
            return -INFINITY;
        ld m = 0;
        for (ld e : v)
            m += e;
        ld gate = lufs(m / v.size()) - 10, s = 0;
        size_t n = 0;
        for (ld e : v)
        {
            if (fabsl(lufs(e) - gate) < margin)
                fuzzy = true;
            if (lufs(e) >= gate)
                s += e, n++;
        }
        return lufs(s / n);
    }
    void range(ld& lo, ld& hi, bool& fuzzy, ld margin) const
    {
        lo = hi = -70;
        std::vector<ld> v;
        for (ld e : shorts)
        {
            if (e > 0 && fabsl(lufs(e) + 70) < margin)
                fuzzy = true;
            if (e > 0 && lufs(e) >= -70)
                v.push_back(lufs(e));
        }
        if (v.size() < 2)
            return;
        std::sort(v.begin(), v.end());
        ld m = 0;
        for (ld l : v)
            m += powl(10, (l + 0.691L) / 10);
        ld gate = lufs(m / v.size()) - 20;
        std::vector<ld> g;
        for (ld l : v)
        {
            if (fabsl(l - gate) < margin)
                fuzzy = true;
            if (l > gate)
                g.push_back(l);
        }
        if (g.size() < 2)
            return;
        // EBU Tech 3342: percentile p is the element round((n-1) p)
        auto pos = [&](ld p)
        {
            ld x = (g.size() - 1) * p;
            if (fabsl(x - floorl(x) - 0.5L) < 1e-4L)
                fuzzy = true;
            return (size_t)llroundl(x);
        };
        lo = g[pos(0.10L)];
        hi = g[pos(0.95L)];
    }
};

template <typename T>
static bool near(const char* what, size_t packet, T got, ld want, ld tol)
{
    if (std::isinf(want) || want < -120)
    {
        if (got <= -110)
            return true;
        fail("packet %zu: %s is %g for silence", packet, what, (double)got);
        return false;
    }
    // near the rounding floor of the filter nothing can be told
    if (!(fabsl(got - want) <= tol * (want < -65 ? 20 : 1)))
    {
        fail("packet %zu: %s is %.6g, the standard gives %.6Lg", packet, what, (double)got, want);
        return false;
    }
    return true;
}

static const std::vector<std::vector<Speaker>> layouts = {
    { Speaker::Mono },
    { Speaker::Left, Speaker::Right },
    { Speaker::Left, Speaker::Right, Speaker::Center, Speaker::LeftSurround, Speaker::RightSurround },
    { Speaker::Left, Speaker::Right, Speaker::Center, Speaker::Lfe, Speaker::LeftSurround, Speaker::RightSurround },
    { Speaker::RightSurround },
    { Speaker::Lfe2, Speaker::Center },
};

template <typename T>
static void one(int fs, int layout, int factor, int var)
{
    if (!begin("ebu/%s/%d/layout%d/x%d/%d", sizeof(T) == 4 ? "f32" : "f64", fs, layout, factor, var))
        return;
    Rng r = case_rng();
    const auto& sp = layouts[layout];
    ebu_r128<T> m(fs, sp, factor);
    Model ref(fs, sp, factor);
    if (m.packet_size() != ref.packet || m.sample_rate() != fs || m.count() != sp.size())
        return fail("packet size %zu, sample rate %d, %zu channels", m.packet_size(), m.sample_rate(), m.count());
    // the filter's own parameters are printed with few digits; in single precision the poles of the high pass, near 1,
    // are coarse
    const ld tol = sizeof(T) == 4 ? 0.03L + 0.15L * (fs / 48000.0L) * (fs / 48000.0L) : 0.03L;
    const size_t packets = (20 + r.below(60)) * factor;
    int left = 0, kind = 0;
    double amp = 0, freq = 0, ph = 0;
    size_t reset_at = r.chance(0.4) ? r.below(packets) : packets + 1;
    for (size_t p = 0; p < packets; ++p)
    {
        if (left-- == 0)
        {
            left = (int)r.below(12 * factor);
            kind = (int)r.below(5);
            amp  = std::pow(10.0, -4.4 * r.unit());
            if (r.chance(0.1))
                amp = 0;
            freq = 20 * std::pow(fs * 0.45 / 20, r.unit());
        }
        std::vector<std::vector<T>> pk(sp.size(), std::vector<T>(ref.packet));
        for (size_t i = 0; i < ref.packet; ++i)
        {
            ph += freq / fs;
            if (ph > 1)
                ph -= 1;
            for (size_t c = 0; c < sp.size(); ++c)
                pk[c][i] = (T)(amp * (kind == 0 ? r.sym() : kind == 1 ? (i % 97 == 0 ? 1 : 0) : std::sin(6.283185307179586 * ph + c)));
        }
        if (p == reset_at)
        {
            m.reset();
            ref.reset();
        }
        if (r.chance(0.05))
        {
            ref.running = !ref.running;
            if (ref.running)
                m.start();
            else
                m.stop();
        }
        std::vector<univector<T, 0>> in;
        for (auto& c : pk)
            in.push_back(make_univector(c.data(), c.size()));
        m.process_packet(in);
        ref.push(pk);
        if (p % 7 != 3 && p + 1 != packets && p != reset_at)
            continue;
        T vm, vs, vi, vl, vh;
        m.get_values(vm, vs, vi, vl, vh);
        T am, as, ai, al, ah;
        m.get_values(am, as, ai, al, ah);
        if (memcmp(&vm, &am, sizeof(T)) || memcmp(&vs, &as, sizeof(T)) || memcmp(&vi, &ai, sizeof(T)) || vl != al || vh != ah)
            return fail("packet %zu: reading the values twice gives different values", p);
        if (!near("momentary loudness", p, vm, lufs(ref.momentary()), tol) || !near("short-term loudness", p, vs, lufs(ref.shortterm()), tol))
            return;
        seen(p * 4);
        bool fuzzy = false;
        ld want    = ref.integrated(fuzzy, 2 * tol);
        if (!fuzzy)
        {
            if (!near("integrated loudness", p, vi, want, tol))
                return;
            seen(p * 4 + 1);
            stat("integrated_judged");
        }
        else
            stat("integrated_at_gate");
        fuzzy = false;
        ld lo, hi;
        ref.range(lo, hi, fuzzy, 2 * tol);
        if (!fuzzy)
        {
            if (!near("lower end of the range", p, vl, lo, tol) || !near("upper end of the range", p, vh, hi, tol))
                return;
            seen(p * 4 + 2);
            stat("range_judged");
        }
        else
            stat("range_at_gate");
    }
}

/// The K filter against the standard: response to tones of every frequency
template <typename T>
static void response(int fs)
{
    if (!begin("kfilter/%s/%d", sizeof(T) == 4 ? "f32" : "f64", fs))
        return;
    // printed in ITU-R BS.1770-4, tables 1 and 2
    static const Sec table[2] = { { 1.53512485958697L, -2.69169618940638L, 1.19839281085285L, -1.69065929318241L, 0.73248077421585L },
                                  { 1, -2, 1, -1.99004745483398L, 0.99007225036621L } };
    Sec ref[2];
    if (fs == 48000)
        memcpy(ref, table, sizeof ref);
    else
        kfilter(fs, ref);
    const size_t n = fs; // one second of impulse response
    univector<T> imp(n, T(0));
    imp[0]  = 1;
    auto f  = make_kfilter<T>(fs);
    substitute(f, to_handle(imp));
    univector<T> h = truncate(f, n);
    for (int k = 0; k < 40; ++k)
    {
        ld w = 20 * powl(0.45L * fs / 20, k / 39.0L) / fs, got, want = 1;
        cld z = std::polar(1.0L, -2 * PI * w), acc = 0, zk = 1;
        for (size_t i = 0; i < n; ++i, zk *= z)
            acc += (ld)h[i] * zk;
        got = 20 * log10l(std::abs(acc));
        for (auto& s : ref)
            want *= std::abs(s.b0 + s.b1 * z + s.b2 * z * z) / std::abs(cld(1) + s.a1 * z + s.a2 * z * z);
        want = 20 * log10l(want);
        const ld tol = 0.03L + 8.7L * 8 * eps<T>() / std::abs(cld(1) + ref[1].a1 * z + ref[1].a2 * z * z);
        if (!(fabsl(got - want) <= tol))
            return fail("K weighting at %Lg Hz is %.4Lg dB, the standard's is %.4Lg dB", w * fs, got, want);
        seen(k);
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    watchdog(120);
    for (int fs : { 48000, 44100, 96000, 32000, 192000, 16000 })
    {
        response<double>(fs);
        response<float>(fs);
    }
    static const int rates[] = { 8000, 48000, 11025, 44100, 16000, 22050 };
    const int per = thorough() ? 200 : 24;
    for (int l = 0; l < (int)layouts.size(); ++l)
        for (int v = 0; v < per; ++v)
        {
            int fs = rates[(v + l) % 6];
            if (fs > 40000 && layouts[l].size() > 2 && !thorough())
                fs /= 4;
            one<double>(fs, l, 1 + (v * 5 + l) % 6, v);
            if (v % 2 == 0)
                one<float>(fs, l, 1 + (v + l) % 6, v);
        }
    return done();
}
