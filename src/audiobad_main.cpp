// C41: damaged audio files. Valid WAV, W64, FLAC (also in Ogg) and MP3 files are truncated and mutated (with
// checksums repaired or not) and read with short transfers, seeks and every sample type.
#include "vk.hpp"
#include "flacenc.hpp"
#include <kfr/base.hpp>
#include <kfr/io/audiofile.hpp>
#include <fstream>
#include <memory>
#include <valgrind/memcheck.h>
using namespace kfr;
using namespace vk;

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=1000:allocator_may_return_null=1"; }

using Bytes = std::string;

// ---------------------------------------------------------------------------- the file below

struct Medium
{
    Bytes bytes;
    bool strict   = false; // refuses positions after the end
    int pieces    = 0;     // 0: whole transfers, else at most that many bytes
    long fail_at  = -1;    // transfers fail from this one on
    long calls = 0, open = 0;
};
struct medium_reader : abstract_reader<void>
{
    std::shared_ptr<Medium> m;
    size_t pos = 0;
    medium_reader(std::shared_ptr<Medium> m) : m(m) { ++m->open; }
    ~medium_reader() override { --m->open; }
    size_t read(void* d, size_t n) override
    {
        if (++m->calls > m->fail_at && m->fail_at >= 0)
            return 0;
        n = pos >= m->bytes.size() ? 0 : std::min(n, m->bytes.size() - pos);
        if (m->pieces)
            n = std::min(n, (size_t)m->pieces);
        if (n)
            memcpy(d, &m->bytes[pos], n);
        pos += n;
        return n;
    }
    imax tell() const override { return (imax)pos; }
    bool seek(imax o, seek_origin g) override
    {
        if (++m->calls > m->fail_at && m->fail_at >= 0)
            return false;
        imax base = g == seek_origin::begin ? 0 : g == seek_origin::current ? (imax)pos : (imax)m->bytes.size();
        if (o < -base || (m->strict && base + o > (imax)m->bytes.size()))
            return false;
        pos = (size_t)(base + o);
        return true;
    }
};

// ---------------------------------------------------------------------------- valid files

struct Valid
{
    Bytes bytes;
    int kind = 0; // 0 WAV, 1 FLAC, 2 MP3
    std::vector<std::array<size_t, 3>> frames; // FLAC: start, bytes of the header, bytes
    std::vector<size_t> pages;                 // Ogg: starts of pages
    const char* name = "";
};
static void put(Bytes& b, unsigned long long v, int n)
{
    for (int i = 0; i < n; ++i)
        b += (char)(v >> (8 * i));
}
static Bytes recorded[2];
static Valid make_wav(Rng& r)
{
    Valid v;
    v.name    = "WAV";
    bool w64  = r.chance(0.4);
    struct Fmt
    {
        int tag, bits;
    };
    static const Fmt fmts[] = { { 1, 8 }, { 1, 16 }, { 1, 24 }, { 1, 32 }, { 1, 64 }, { 3, 32 }, { 3, 64 }, { 6, 8 }, { 7, 8 }, { 2, 4 }, { 0x11, 4 }, { 1, 12 }, { 1, 1 }, { 3, 16 } };
    Fmt f           = fmts[r.chance(0.6) ? r.below(7) : r.below(14)];
    size_t channels = 1 + r.below(r.chance(0.1) ? 40 : 4), frames = r.below(200), align = std::max<size_t>(1, channels * f.bits / 8);
    if (f.bits == 4)
        align = 32 * channels + r.below(200);
    Bytes fmt, body;
    bool ext = r.chance(0.4) && f.bits != 4;
    put(fmt, ext ? 0xfffe : f.tag, 2), put(fmt, channels, 2), put(fmt, 44100, 4), put(fmt, 44100 * align, 4), put(fmt, align, 2), put(fmt, f.bits, 2);
    if (ext)
        put(fmt, 22, 2), put(fmt, f.bits, 2), put(fmt, 0, 4), put(fmt, f.tag, 2), fmt += Bytes("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 14);
    else if (f.bits == 4)
    {
        put(fmt, f.tag == 2 ? 32 : 2, 2), put(fmt, 2 * (align - 7 * channels) / channels + 2, 2);
        if (f.tag == 2)
        {
            static const int c[] = { 256, 0, 512, -256, 0, 0, 192, 64, 240, 0, 460, -208, 392, -232 };
            put(fmt, 7, 2);
            for (int x : c)
                put(fmt, (unsigned)x, 2);
        }
    }
    size_t bytes = f.bits == 4 ? align * (1 + r.below(6)) : frames * align;
    for (size_t i = 0; i < bytes; ++i)
        body += (char)r.next();
    auto chunk = [&](const char* id, const Bytes& s) {
        if (w64)
        {
            v.bytes += id, v.bytes += Bytes("\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A", 12);
            put(v.bytes, s.size() + 24, 8), v.bytes += s;
            while (v.bytes.size() % 8)
                v.bytes += '\0';
        }
        else
        {
            v.bytes += id, put(v.bytes, s.size(), 4), v.bytes += s;
            if (s.size() & 1)
                v.bytes += '\0';
        }
    };
    Bytes smpl;
    for (int i = 0; i < 7; ++i)
        put(smpl, r.below(100), 4);
    size_t loops = r.below(4);
    put(smpl, loops, 4), put(smpl, r.below(9), 4);
    for (size_t i = 0; i < 6 * loops; ++i)
        put(smpl, r.below(1000), 4);
    if (w64)
    {
        v.bytes += Bytes("\x72\x69\x66\x66\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\x00\x00", 16), put(v.bytes, 0, 8);
        v.bytes += Bytes("\x77\x61\x76\x65\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A", 16);
    }
    else
        v.bytes += "RIFF", put(v.bytes, 0, 4), v.bytes += "WAVE";
    if (r.chance(0.3))
        chunk("JUNK", Bytes(r.below(30), 'j'));
    chunk("fmt ", fmt);
    if (r.chance(0.4))
        chunk("smpl", smpl);
    if (f.tag != 1)
    {
        Bytes fact;
        put(fact, frames, w64 ? 8 : 4);
        chunk("fact", fact);
    }
    if (r.chance(0.9))
        chunk("data", body);
    if (r.chance(0.3))
        chunk("smpl", smpl);
    if (r.chance(0.3))
        chunk("LIST", Bytes(r.below(30), 'l'));
    for (int i = 0; i < (w64 ? 8 : 4); ++i)
        v.bytes[(w64 ? 16 : 4) + i] = (char)((v.bytes.size() - (w64 ? 0 : 8)) >> (8 * i));
    return v;
}
static unsigned ogg_crc(const Bytes& b, size_t from, size_t n)
{
    unsigned c = 0;
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char x = i >= 22 && i < 26 ? 0 : (unsigned char)b[from + i];
        c ^= (unsigned)x << 24;
        for (int k = 0; k < 8; ++k)
            c = c & 0x80000000u ? (c << 1) ^ 0x04c11db7u : c << 1;
    }
    return c;
}
static size_t ogg_page_size(const Bytes& b, size_t at)
{
    if (at + 27 > b.size())
        return 0;
    size_t segs = (unsigned char)b[at + 26], n = 27 + segs;
    if (at + n > b.size())
        return 0;
    for (size_t i = 0; i < segs; ++i)
        n += (unsigned char)b[at + 27 + i];
    return at + n > b.size() ? 0 : n;
}
static void ogg_fix(Bytes& b, size_t at)
{
    if (size_t n = ogg_page_size(b, at))
    {
        unsigned c = ogg_crc(b, at, n);
        for (int i = 0; i < 4; ++i)
            b[at + 22 + i] = (char)(c >> (8 * i));
    }
}
static void ogg_page(Rng& r, Valid& v, const Bytes& packet, int flags, unsigned long long granule, unsigned number)
{
    // packets longer than a page continue on the next one
    size_t at = 0;
    bool more = true, first = true;
    while (more)
    {
        size_t from = v.bytes.size(), most = r.chance(0.3) ? 1 + r.below(5) : 255;
        Bytes lace, body;
        while (lace.size() < most && more)
        {
            size_t n = std::min<size_t>(255, packet.size() - at);
            lace += (char)n;
            body += packet.substr(at, n);
            at += n;
            more = n == 255;
        }
        v.pages.push_back(from);
        v.bytes += "OggS", v.bytes += '\0', v.bytes += (char)(flags | (first ? 0 : 1));
        put(v.bytes, more ? ~0ull : granule, 8), put(v.bytes, 0x1234, 4), put(v.bytes, number++, 4), put(v.bytes, 0, 4);
        v.bytes += (char)lace.size(), v.bytes += lace, v.bytes += body;
        ogg_fix(v.bytes, from);
        first = false;
    }
}
/// positions of the frames of a file made by flac_encode()
static void find_frames(Valid& v)
{
    const Bytes& b = v.bytes;
    size_t at      = 4;
    for (;;)
    {
        bool last  = (unsigned char)b[at] & 0x80;
        size_t len = (unsigned char)b[at + 1] << 16 | (unsigned char)b[at + 2] << 8 | (unsigned char)b[at + 3];
        at += 4 + len;
        if (last)
            break;
    }
    while (at + 8 < b.size())
    {
        size_t lead = (unsigned char)b[at + 4], extra = lead < 0x80 ? 0 : lead < 0xe0 ? 1 : 2;
        size_t head = 4 + 1 + extra + 2 + 1, end = b.size();
        for (size_t k = at + head; k + 8 < b.size(); ++k)
            if ((unsigned char)b[k] == 0xff && (unsigned char)b[k + 1] == 0xf8 && b[k + 2] == b[at + 2])
            {
                size_t e2 = (unsigned char)b[k + 4] < 0x80 ? 0 : (unsigned char)b[k + 4] < 0xe0 ? 1 : 2;
                if (crc_of(b.substr(k, 7 + e2), 0, 0x07, 8) == (unsigned char)b[k + 7 + e2] && crc_of(b.substr(at, k - at), 0, 0x8005, 16) == 0)
                {
                    end = k;
                    break;
                }
            }
        v.frames.push_back({ at, head, end - at });
        at = end;
    }
}
static void flac_fix(Valid& v, size_t k)
{
    auto [at, head, n] = v.frames[k];
    if (at + n > v.bytes.size() || head + 2 > n)
        return;
    v.bytes[at + head - 1] = (char)crc_of(v.bytes.substr(at, head - 1), 0, 0x07, 8);
    unsigned c             = crc_of(v.bytes.substr(at, n - 2), 0, 0x8005, 16);
    v.bytes[at + n - 2] = (char)(c >> 8), v.bytes[at + n - 1] = (char)c;
}
static std::vector<std::vector<long>> flac_signal;
static Valid make_flac(Rng& r, bool ogg)
{
    Valid v;
    v.kind = 1, v.name = "FLAC";
    Flac f;
    static const int depths[] = { 8, 12, 16, 20, 24 };
    f.bps             = depths[r.below(5)];
    f.blocksize       = 16 + (int)r.below(200);
    f.seektable       = r.chance(0.4);
    f.metadata        = ogg || r.chance(0.4); // Ogg FLAC has at least the comments
    f.unknown_length  = r.chance(0.2);
    size_t channels = 1 + r.below(r.chance(0.2) ? 8 : 2), n = 1 + r.below(900);
    std::vector<std::vector<long>> ch(channels, std::vector<long>(n));
    long amp = 1l << (f.bps - 1);
    for (auto& c : ch)
    {
        int kind = (int)r.below(3);
        double w = r.unit();
        for (size_t i = 0; i < n; ++i)
            c[i] = kind == 0 ? (long)(0.7 * (double)amp * std::sin(w * (double)i)) : kind == 1 ? r.range(-amp, amp - 1) : r.range(-3, 3);
    }
    v.bytes     = flac_encode(r, ch, f);
    flac_signal = ch;
    find_frames(v);
    if (ogg)
    {
        Valid o;
        o.kind = 1, o.name = "Ogg";
        const Bytes& b = v.bytes;
        std::vector<Bytes> blocks;
        size_t at = 4;
        for (;;)
        {
            bool last  = (unsigned char)b[at] & 0x80;
            size_t len = (unsigned char)b[at + 1] << 16 | (unsigned char)b[at + 2] << 8 | (unsigned char)b[at + 3];
            blocks.push_back(b.substr(at, 4 + len));
            at += 4 + len;
            if (last)
                break;
        }
        Bytes head = Bytes("\x7f" "FLAC\x01\x00", 7);
        head += (char)0, head += (char)(blocks.size() - 1), head += "fLaC", head += blocks[0];
        unsigned number = 0;
        ogg_page(r, o, head, 2, 0, number), number = (unsigned)o.pages.size();
        for (size_t i = 1; i < blocks.size(); ++i)
            ogg_page(r, o, blocks[i], 0, 0, number), number = (unsigned)o.pages.size();
        for (size_t k = 0; k < v.frames.size(); ++k)
        {
            auto [s, h, len] = v.frames[k];
            ogg_page(r, o, b.substr(s, len), k + 1 == v.frames.size() ? 4 : 0, std::min(n, (k + 1) * (size_t)f.blocksize), number);
            number = (unsigned)o.pages.size();
        }
        return o;
    }
    return v;
}
static Valid make_valid(Rng& r)
{
    switch (r.below(8))
    {
    case 0:
    case 1:
    case 2:
        return make_wav(r);
    case 3:
    case 4:
        return make_flac(r, false);
    case 5:
        return make_flac(r, true);
    case 6:
    {
        Valid v;
        v.kind = 1, v.name = "FLAC recorded";
        v.bytes = recorded[0].substr(0, r.chance(0.5) ? 5000 + r.below(10000) : recorded[0].size());
        return v;
    }
    default:
    {
        Valid v;
        v.kind = 2, v.name = "MP3";
        v.bytes = recorded[1].substr(0, 1000 + r.below(r.chance(0.2) ? recorded[1].size() : 6000));
        if (r.chance(0.3))
            v.bytes = v.bytes.substr(r.below(v.bytes.size()));
        return v;
    }
    }
}

// ---------------------------------------------------------------------------- damage

static void mutate(Rng& r, Valid& v)
{
    Bytes& b = v.bytes;
    int n    = r.chance(0.5) ? 1 : 1 + (int)r.below(12);
    auto somewhere = [&](size_t width) -> size_t {
        if (b.size() <= width)
            return 0;
        size_t most = b.size() - width + 1;
        return r.chance(0.5) ? r.below(std::min<size_t>(most, 120)) : r.below(most);
    };
    static const unsigned long long bounds[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 23, 24, 25, 3, 4, 7, 8, 15, 16, 17, 18, 255, 40, 65535 };
    for (int k = 0; k < n && !b.empty(); ++k)
        switch (r.below(10))
        {
        case 0:
            b.resize(r.below(b.size() + 1));
            break;
        case 1:
        case 2:
        case 3:
            b[somewhere(1)] ^= (char)(1 << r.below(8));
            break;
        case 4:
            b[somewhere(1)] = (char)r.next();
            break;
        case 5:
        case 6:
        {
            size_t w = (size_t)1 << r.below(4);
            if (b.size() < w)
                break;
            size_t at            = somewhere(w);
            unsigned long long x = r.chance(0.3) ? b.size() + (unsigned long long)r.range(-30, 30) : bounds[r.below(32)];
            bool big             = r.chance(0.4);
            for (size_t i = 0; i < w; ++i)
                b[at + i] = (char)(x >> (8 * (big ? w - 1 - i : i)));
            break;
        }
        case 7:
        {
            size_t at = somewhere(1), len = r.below(std::min<size_t>(b.size() - at, 100) + 1);
            if (r.chance(0.5))
                b.erase(at, len);
            else
                b.insert(at, b.substr(at, len));
            break;
        }
        case 8:
        {
            size_t at = somewhere(1), len = 1 + r.below(40);
            for (size_t i = at; i < std::min(b.size(), at + len); ++i)
                b[i] = r.chance(0.3) ? (char)0xff : (char)r.next();
            break;
        }
        default:
        {
            Valid o  = make_valid(r);
            size_t a = r.below(b.size() + 1);
            if (!o.bytes.empty())
                b = b.substr(0, a) + o.bytes.substr(r.below(o.bytes.size()), r.below(500));
        }
        }
    // damage that the checksums do not show
    if (r.chance(0.7))
    {
        for (size_t i = 0; i < v.frames.size(); ++i)
            flac_fix(v, i);
        for (size_t at : v.pages)
            ogg_fix(b, at);
    }
}

// ---------------------------------------------------------------------------- reading

template <typename T>
static std::unique_ptr<audio_reader<T>> open_as(int kind, std::shared_ptr<Medium> m)
{
    auto below = std::make_shared<medium_reader>(m);
    if (kind == 0)
        return std::make_unique<audio_reader_wav<T>>(std::move(below));
    if (kind == 1)
        return std::make_unique<audio_reader_flac<T>>(std::move(below));
    return std::make_unique<audio_reader_mp3<T>>(std::move(below));
}
template <typename T>
static bool known(const T* p, size_t n)
{
    // outside of memcheck the answer is 0
    return VALGRIND_CHECK_MEM_IS_DEFINED(p, n * sizeof(T)) == 0;
}
/// one history; the result is everything that can be seen
template <typename T>
static Bytes history(Rng r, const char* name, int kind, std::shared_ptr<Medium> m, unsigned char fill)
{
    Bytes log;
    auto note = [&](unsigned long long x) { log.append((char*)&x, 8); };
    m->calls  = 0;
    auto rd   = open_as<T>(kind, m);
    auto f    = rd->format();
    note(f.channels), note((unsigned long long)(int)f.type), note((unsigned long long)f.length), note((unsigned long long)f.samplerate);
    size_t channels = f.channels;
    imax pos        = 0;
    bool usable     = f.type != audio_sample_type::unknown;
    if (usable && channels == 0)
        return fail("%s: no channels", name), log;
    stat(usable ? "readable" : "refused", 1);
    size_t delivered = 0;
    for (int k = 0; k < 25; ++k)
    {
        if (r.chance(0.7))
        {
            size_t n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.below(20000) : r.below(600);
            Buf<T> b(n, fill);
            (void)VALGRIND_MAKE_MEM_UNDEFINED(b.data(), n * sizeof(T));
            size_t got = rd->read(b.data(), n);
            if (!b.intact())
                return fail("%s: reading %zu samples wrote outside", name, n), log;
            if (got > n || (got && (!usable || got % channels)))
                return fail("%s: %zu of %zu samples were delivered (%zu channels)", name, got, n, channels), log;
            if (!known(b.data(), got))
                return fail("%s: samples were delivered that had not been decoded", name), log;
            note(got), log.append((char*)b.data(), got * sizeof(T));
            pos += usable ? (imax)(got / channels) : 0;
            delivered += got;
            evals(1);
        }
        else if (r.chance(0.3))
        {
            size_t n = r.below(300);
            if constexpr (!std::is_same_v<T, i24>)
            {
                univector2d<T> u = rd->read_channels(n);
                for (auto& c : u)
                {
                    if (c.size() > n)
                        return fail("%s: %zu frames instead of %zu", name, c.size(), n), log;
                    if (!known(c.data(), c.size()))
                        return fail("%s: frames were delivered that had not been decoded", name), log;
                    note(c.size()), log.append((char*)c.data(), c.size() * sizeof(T));
                }
                if (u.size() != channels)
                    return fail("%s: %zu channels instead of %zu", name, u.size(), channels), log;
                pos += u.empty() ? 0 : (imax)u[0].size();
            }
        }
        else
        {
            seek_origin o = (seek_origin)r.below(3);
            imax base     = o == seek_origin::begin ? 0 : o == seek_origin::end ? f.length : pos;
            imax target   = r.chance(0.1) ? (imax)r.next() : r.chance(0.1) ? f.length + r.range(-2, 2) : r.range(0, 1200);
            imax off      = (imax)((unsigned long long)target - (unsigned long long)base);
            bool ok       = rd->seek(off, o);
            note(ok);
            if (ok)
                pos = (imax)((unsigned long long)base + (unsigned long long)off);
            if (ok && (pos < 0 || pos > f.length))
                return fail("%s: seek to %lld of %lld succeeded", name, (long long)pos, (long long)f.length), log;
        }
        if (rd->tell() != pos)
            return fail("%s: tell() is %lld instead of %lld", name, (long long)rd->tell(), (long long)pos), log;
        note((unsigned long long)pos);
    }
    stat("samples", (double)delivered);
    rd.reset();
    if (m->open != 0)
        fail("%s: the file remained open", name);
    return log;
}
static unsigned memcheck_errors = 0;
template <typename T>
static void damaged(Rng& r)
{
    Valid v = make_valid(r);
    bool bad = r.chance(0.95);
    if (r.chance(0.03))
    {
        v.bytes.clear();
        for (size_t i = r.below(300); i > 0; --i)
            v.bytes += (char)r.next();
        static const char* magic[] = { "", "fLaC", "RIFF", "OggS", "ID3", "\xff\xfb\x90", "riff" };
        v.bytes = magic[r.below(7)] + v.bytes;
    }
    else if (bad)
        mutate(r, v);
    auto m     = std::make_shared<Medium>();
    m->bytes   = v.bytes;
    m->strict  = r.chance(0.3);
    m->pieces  = r.chance(0.2) ? 1 + (int)r.below(100) : 0;
    m->fail_at = r.chance(0.1) ? (long)r.below(30) : -1;
    int kind   = r.chance(0.05) ? (int)r.below(3) : v.kind;
    Rng s(r.next());
    watchdog(60);
    Bytes a = history<T>(s, v.name, kind, m, 0x11);
    if (failed())
        return;
    Bytes b = history<T>(s, v.name, kind, m, 0xee);
    if (unsigned n = VALGRIND_COUNT_ERRORS; n != memcheck_errors)
    {
        memcheck_errors = n;
        return fail("%s: memcheck reported an error", v.name);
    }
    if (a != b)
        return fail("%s: two readers of the same bytes delivered different samples", v.name);
    seen(hash_bytes(a.data(), a.size()));
}
/// the files themselves are valid
static void intact(Rng& r)
{
    Valid v = make_flac(r, r.chance(0.7));
    auto m   = std::make_shared<Medium>();
    m->bytes = v.bytes;
    auto rd  = open_as<i32>(1, m);
    size_t channels = flac_signal.size(), frames = flac_signal[0].size();
    if (rd->format().channels != channels)
        return fail("%s of %zu bytes: %zu channels instead of %zu", v.name, v.bytes.size(), rd->format().channels, channels);
    std::vector<i32> x(channels * (frames + 5), 77);
    size_t got = rd->read(x.data(), x.size());
    if (got != channels * frames)
        return fail("%s: %zu of %zu samples", v.name, got, channels * frames);
    int shift = -1;
    for (size_t i = 0; i < got; ++i)
    {
        long want = flac_signal[i % channels][i / channels];
        if (want && shift < 0)
            for (shift = 0; shift < 31 && (long)x[i] != want * (1l << shift);)
                ++shift;
        if ((long)x[i] != (shift < 0 ? 0 : want * (1l << shift)))
            return fail("%s: sample %zu is %d", v.name, i, x[i]);
    }
    evals(got), seen(hash_bytes(v.bytes.data(), v.bytes.size()));
}

/// the private bits of MP3 frames have no meaning
static void private_bits(Rng& r)
{
    static const int rates[] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 }, hz[] = { 44100, 48000, 32000, 1 };
    Bytes b = recorded[1], c = b;
    size_t frames = 0, at = 0;
    while (at + 40 < b.size())
    {
        auto u = [&](size_t i) { return (unsigned char)b[at + i]; };
        if (u(0) != 0xff || (u(1) & 0xfe) != 0xfa)
        {
            ++at;
            continue;
        }
        size_t n = (size_t)144000 * rates[u(2) >> 4] / hz[(u(2) >> 2) & 3] + ((u(2) >> 1) & 1);
        if (n < 40 || at + n > b.size() || (at + n + 1 < b.size() && (u(n) != 0xff || (u(n + 1) & 0xfe) != 0xfa)))
        {
            ++at;
            continue;
        }
        size_t side = at + 4 + (u(1) & 1 ? 0 : 2);
        bool mono   = (u(3) >> 6) == 3;
        c[side + 1] = (char)((unsigned char)c[side + 1] ^ (mono ? (r.next() & 0x7c) : (r.next() & 0x70)));
        c[at + 2]   = (char)(c[at + 2] ^ (r.next() & 1)); // the one in the header
        at += n, ++frames;
    }
    std::vector<f32> x[2];
    for (int i = 0; i < 2; ++i)
    {
        auto m   = std::make_shared<Medium>();
        m->bytes = i ? c : b;
        auto rd  = open_as<f32>(2, m);
        x[i].resize(200000);
        x[i].resize(rd->read(x[i].data(), x[i].size()));
    }
    stat("mp3_frames", (double)frames);
    if (frames < 3 || x[0].size() < 1152)
        return fail("%zu frames, %zu samples", frames, x[0].size());
    if (x[0] != x[1])
        return fail("MP3: private bits changed the samples");
    evals(x[0].size()), seen(hash_bytes(c.data(), c.size()));
}

int main(int argc, char** argv)
{
    init(argc, argv);
    const char* names[] = { "/sine.flac", "/sine.mp3" };
    for (int i = 0; i < 2; ++i)
    {
        std::ifstream f(opt("data") + names[i], std::ios::binary);
        recorded[i].assign(std::istreambuf_iterator<char>(f), {});
        if (recorded[i].empty())
            return fprintf(stderr, "no data\n"), 2;
    }
    int count = (thorough() ? 400000 : 12000);
    bool wanted = !st().only.empty();
    auto skip = [=](int k) { return RUNNING_ON_VALGRIND && k % 6 && !wanted; };
    for (int k = 0; k < count; ++k)
        if (!skip(k) && begin("damaged k=%d", k))
        {
            Rng r = case_rng(41);
            switch (r.below(5))
            {
            case 0:
                damaged<f32>(r);
                break;
            case 1:
                damaged<i16>(r);
                break;
            case 2:
                damaged<i24>(r);
                break;
            case 3:
                damaged<i32>(r);
                break;
            default:
                damaged<f64>(r);
            }
        }
    for (int k = 0; k < (thorough() ? 20000 : 600); ++k)
        if (!skip(k) && begin("intact k=%d", k))
        {
            Rng r = case_rng(410);
            intact(r);
        }
    for (int k = 0; k < 60; ++k)
        if (!skip(k) && begin("private bits k=%d", k))
        {
            Rng r = case_rng(411);
            private_bits(r);
        }
    return done();
}
