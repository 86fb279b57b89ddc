// C28: audio files: what is written is what is read, in calls of any sizes, with seeks; the bytes are judged by
// an independent RIFF/W64 parser, FLAC comes from an independent encoder.
#include "vk.hpp"
#include "flacenc.hpp"
#include <kfr/base.hpp>
#include <kfr/io/audiofile.hpp>
#include <memory>
#include <unistd.h>
using namespace kfr;
using namespace vk;

#ifndef PART
#define PART 0
#endif
#if PART == 0
using T = f32;
#elif PART == 1
using T = i16;
#elif PART == 2
using T = i24;
#elif PART == 3
using T = i32;
#else
using T = f64;
#endif

// ---------------------------------------------------------------------------- streams below

struct Store
{
    std::string bytes;
    size_t capacity = (size_t)-1;
    bool open       = true;
    long misuse     = 0;
};
struct mem_writer : abstract_writer<void>
{
    std::shared_ptr<Store> s;
    size_t pos = 0;
    mem_writer(std::shared_ptr<Store> s) : s(s) {}
    ~mem_writer() override { s->open = false; }
    size_t write(const void* d, size_t n) override
    {
        n = pos >= s->capacity ? 0 : std::min(n, s->capacity - pos);
        if (pos + n > s->bytes.size())
            s->bytes.resize(pos + n, '\0');
        if (n)
            memcpy(&s->bytes[pos], d, n);
        pos += n;
        return n;
    }
    imax tell() const override { return (imax)pos; }
    bool seek(imax o, seek_origin g) override
    {
        imax t = o + (g == seek_origin::begin ? 0 : g == seek_origin::current ? (imax)pos : (imax)s->bytes.size());
        if (t < 0)
            return false;
        pos = (size_t)t;
        return true;
    }
};
struct mem_reader : abstract_reader<void>
{
    std::shared_ptr<Store> s;
    size_t pos = 0;
    mem_reader(std::shared_ptr<Store> s) : s(s) {}
    ~mem_reader() override { s->open = false; }
    size_t read(void* d, size_t n) override
    {
        n = pos >= s->bytes.size() ? 0 : std::min(n, s->bytes.size() - pos);
        if (n)
            memcpy(d, &s->bytes[pos], n);
        pos += n;
        return n;
    }
    imax tell() const override { return (imax)pos; }
    bool seek(imax o, seek_origin g) override
    {
        imax t = o + (g == seek_origin::begin ? 0 : g == seek_origin::current ? (imax)pos : (imax)s->bytes.size());
        if (t < 0)
            return false;
        pos = (size_t)t;
        return true;
    }
};

// ---------------------------------------------------------------------------- samples

using AT = audio_sample_type;
template <typename X>
static double value(const X& x)
{
    if constexpr (std::is_same_v<X, i24>)
        return x.as_int() / 8388607.0;
    else if constexpr (std::is_floating_point_v<X>)
        return x;
    else
        return (double)x / (double)std::numeric_limits<X>::max();
}
template <typename X>
static X random_sample_of(Rng& r)
{
    using T = X;
    if constexpr (std::is_floating_point_v<T>)
        return r.chance(0.05) ? T(r.chance(0.5) ? 1 : -1) : r.chance(0.05) ? T(0) : (T)r.sym();
    else if constexpr (std::is_same_v<T, i24>)
        return i24((i32)r.range(-8388607, 8388607));
    else
        return r.chance(0.05) ? std::numeric_limits<T>::max() : (T)r.range(-(long)std::numeric_limits<T>::max(), std::numeric_limits<T>::max());
}
static T random_sample(Rng& r) { return random_sample_of<T>(r); }
static bool equal(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
/// largest difference that storing as type and reading as T may cause
static double tolerance(AT type)
{
    double q = 0;
    switch (type)
    {
    case AT::i8:
        q = 1 / 127.0;
        break;
    case AT::i16:
        q = 1 / 32767.0;
        break;
    case AT::i24:
        q = 1 / 8388607.0;
        break;
    default:
        q = 1 / 2147483647.0;
    }
    double own = std::is_same_v<T, f32> ? 1.2e-7 : std::is_same_v<T, i16> ? 1 / 32767.0 : std::is_same_v<T, i24> ? 1 / 8388607.0 : 0;
    if (type == AT::f32 || type == AT::i24 || type == AT::i16 || type == AT::i8)
        own = std::max(own, 1.3e-7); // computed in single precision
    double half = type == AT::f32 || type == AT::f64 || type == AT::i64 ? 0 : q * 0.5001;
    return half + own * 0.5001 + 2.5e-7 * (own > 0 || type == AT::f32) + 1e-9;
}
static const char* type_name(AT t)
{
    const char* n[] = { "unknown", "i8", "i16", "i24", "i32", "i64", "f32", "f64" };
    return n[(int)t];
}

// ---------------------------------------------------------------------------- independent parser of the bytes

static unsigned long long le(const std::string& s, size_t at, int n)
{
    unsigned long long v = 0;
    for (int i = n - 1; i >= 0; --i)
        v = v << 8 | (unsigned char)s[at + i];
    return v;
}
struct Wav
{
    std::string error;
    unsigned tag = 0, channels = 0, rate = 0, bytes_per_second = 0, align = 0, bits = 0;
    size_t data = 0, size = 0;
};
static Wav parse_wav(const std::string& b, bool w64)
{
    Wav w;
    size_t head = w64 ? 24 : 8;
    bool fmt = false, dat = false;
    if (w64)
    {
        static const unsigned char riff[16] = { 0x72, 0x69, 0x66, 0x66, 0x2E, 0x91, 0xCF, 0x11, 0xA5, 0xD6, 0x28, 0xDB, 0x04, 0xC1, 0x00, 0x00 };
        static const unsigned char wave[16] = { 0x77, 0x61, 0x76, 0x65, 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
        if (b.size() < 40 || memcmp(b.data(), riff, 16) || memcmp(b.data() + 24, wave, 16))
            return w.error = "no W64 header", w;
        if (le(b, 16, 8) > b.size() + 8)
            return w.error = "size of the file", w;
    }
    else
    {
        if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) || memcmp(b.data() + 8, "WAVE", 4))
            return w.error = "no RIFF header", w;
        if (le(b, 4, 4) + 8 != b.size())
            return w.error = "size of the file " + std::to_string(le(b, 4, 4)) + " of " + std::to_string(b.size()), w;
    }
    for (size_t at = w64 ? 40 : 12; at + head <= b.size();)
    {
        size_t size = w64 ? le(b, at + 16, 8) : le(b, at + 4, 4);
        if (w64)
        {
            if (size < 24)
                return w.error = "size of a chunk", w;
            size -= 24;
        }
        if (at + head + size > b.size())
            return w.error = "a chunk ends behind the file", w;
        if (!memcmp(b.data() + at, "fmt ", 4))
        {
            size_t f = at + head;
            fmt      = true;
            w.tag = (unsigned)le(b, f, 2), w.channels = (unsigned)le(b, f + 2, 2), w.rate = (unsigned)le(b, f + 4, 4);
            w.bytes_per_second = (unsigned)le(b, f + 8, 4), w.align = (unsigned)le(b, f + 12, 2), w.bits = (unsigned)le(b, f + 14, 2);
        }
        else if (!memcmp(b.data() + at, "data", 4))
            dat = true, w.data = at + head, w.size = size;
        size_t pad = w64 ? 8 : 2;
        at += head + (size + pad - 1) / pad * pad;
    }
    if (!fmt || !dat)
        w.error = "chunks are missing";
    return w;
}
/// the stored sample as a number
static double stored(const std::string& b, size_t at, AT type)
{
    switch (type)
    {
    case AT::i8:
        return ((int)(unsigned char)b[at] - 128) / 127.0;
    case AT::i16:
        return (short)le(b, at, 2) / 32767.0;
    case AT::i24:
        return ((int)(le(b, at, 3) << 8) >> 8) / 8388607.0;
    case AT::i32:
        return (int)le(b, at, 4) / 2147483647.0;
    case AT::i64:
        return (double)(long)le(b, at, 8) / 9223372036854775807.0;
    case AT::f32:
    {
        float f;
        memcpy(&f, &b[at], 4);
        return f;
    }
    default:
    {
        double f;
        memcpy(&f, &b[at], 8);
        return f;
    }
    }
}

/// univector<i24> cannot be made: only transfers through pointers
#define IN_VECTORS (PART != 2)

// ---------------------------------------------------------------------------- reading any file

/// reference: all samples as one long read delivered them; exact: reads with seeks must repeat them
static bool read_around(Rng& r, const char* what, audio_reader<T>& rd, const std::vector<T>& all, size_t channels, bool sequential)
{
    size_t frames = all.size() / channels, pos = 0;
    for (int k = sequential ? 1000000 : 25; k > 0; --k)
    {
        size_t n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.below(2 * all.size() + 10) : r.below(40 * channels);
        if (r.chance(0.7))
            n -= n % channels;
        size_t want = std::min(n / channels, frames - pos) * channels, got;
        switch (r.below(IN_VECTORS ? 3 : 1))
        {
        case 0:
        {
            Buf<T> b(n, 0x33);
            got = rd.read(b.data(), n);
            if (!b.intact())
                return fail("%s: reading %zu samples wrote outside", what, n), false;
            for (size_t i = 0; i < std::min(got, want); ++i)
                if (!equal(b.data()[i], all[pos * channels + i]))
                    return fail("%s: sample %zu after reading from frame %zu of %zu differs: %g and %g", what, i, pos, frames, value(b.data()[i]), value(all[pos * channels + i])), false;
            break;
        }
#if IN_VECTORS
        case 1:
        {
            univector<T> u;
            u = rd.read(n);
            got            = u.size();
            for (size_t i = 0; i < std::min(got, want); ++i)
                if (!equal(u[i], all[pos * channels + i]))
                    return fail("%s: sample %zu after reading from frame %zu differs", what, i, pos), false;
            break;
        }
        default:
        {
            n -= n % channels;
            want             = std::min(n / channels, frames - pos) * channels;
            univector2d<T> u = rd.read_channels(n / channels);
            if (u.size() != channels)
                return fail("%s: %zu channels read", what, u.size()), false;
            got = u[0].size() * channels;
            for (size_t c = 0; c < channels; ++c)
                for (size_t i = 0; i < std::min(u[c].size(), want / channels); ++i)
                    if (!equal(u[c][i], all[(pos + i) * channels + c]))
                        return fail("%s: channel %zu, frame %zu differs", what, c, pos + i), false;
        }
#endif
        }
        if (got != want)
            return fail("%s: read of %zu from frame %zu of %zu (%zu channels) returned %zu instead of %zu", what, n, pos, frames, channels, got, want), false;
        pos += got / channels;
        if (rd.tell() != (imax)pos)
            return fail("%s: tell() is %lld instead of %zu", what, (long long)rd.tell(), pos), false;
        evals(1), seen(pos * 100000 + n);
        if (sequential && pos == frames)
            break;
        if (!sequential && r.chance(0.6))
        {
            size_t target = r.chance(0.1) ? frames : r.chance(0.1) ? 0 : r.below(frames + 1);
            int o         = (int)r.below(3);
            imax off      = o == 0 ? (imax)target : o == 1 ? (imax)target - (imax)pos : (imax)target - (imax)frames;
            seek_origin g = o == 0 ? seek_origin::begin : o == 1 ? seek_origin::current : seek_origin::end;
            if (!rd.seek(off, g))
                return fail("%s: seek to %zu of %zu refused", what, target, frames), false;
            pos = target;
            if (rd.tell() != (imax)pos)
                return fail("%s: tell() after seek is %lld instead of %zu", what, (long long)rd.tell(), pos), false;
            if (r.chance(0.2))
            {
                // outside: refused, or it would not continue from that frame
                imax bad = r.chance(0.5) ? (imax)frames + 1 + (imax)r.below(5) : -1 - (imax)r.below(5);
                if (rd.seek(bad, seek_origin::begin))
                    return fail("%s: seek to %lld of %zu accepted", what, (long long)bad, frames), false;
                if (!rd.seek((imax)pos, seek_origin::begin))
                    return fail("%s: seek back to %zu refused", what, pos), false;
            }
            evals(1);
        }
    }
    return true;
}

// ---------------------------------------------------------------------------- WAV

static void wav(Rng& r)
{
    audio_format f;
    static const AT types[] = { AT::i8, AT::i16, AT::i24, AT::i32, AT::i64, AT::f32, AT::f64 };
    f.type                  = types[r.below(7)];
    f.channels              = 1 + r.below(8);
    static const double rates[] = { 8000, 44100, 48000, 96000, 192000, 1, 11025, 384000 };
    f.samplerate                = rates[r.below(8)];
    f.use_w64                   = r.chance(0.4);
    size_t frames               = r.chance(0.05) ? 0 : r.chance(0.2) ? r.below(5) : r.below(400);
    std::vector<T> x(frames * f.channels, T(0));
    for (auto& v : x)
        v = random_sample(r);
    auto store  = std::make_shared<Store>();
    bool file   = r.chance(0.2);
    std::string path = std::string(scratch_dir()) + "/audio.wav";
    const size_t width = audio_sample_sizeof(f.type);
    {
        std::shared_ptr<abstract_writer<>> below;
        if (file)
            below = open_file_for_writing<>(path);
        else
            below = std::make_shared<mem_writer>(store);
        audio_writer_wav<T> w(std::move(below), f);
        size_t pos = 0;
        while (pos < frames)
        {
            size_t n = std::min(frames - pos, r.chance(0.2) ? (size_t)0 : r.chance(0.2) ? frames : (size_t)r.below(50));
            size_t got;
            Buf<T> b(n * f.channels, 0x5a);
            std::copy(x.begin() + pos * f.channels, x.begin() + (pos + n) * f.channels, b.data());
            switch (r.below(IN_VECTORS ? 3 : 1))
            {
            case 0:
                got = w.write(b.data(), n * f.channels);
                break;
#if IN_VECTORS
            case 1:
            {
                univector<T> u = make_univector(b.data(), n * f.channels);
                got            = w.write(u);
                break;
            }
            default:
            {
                univector2d<T> u(f.channels, univector<T>(n, T(0)));
                for (size_t c = 0; c < f.channels; ++c)
                    for (size_t i = 0; i < n; ++i)
                        u[c][i] = b.data()[i * f.channels + c];
                got = w.write_channels(u) * f.channels;
            }
#endif
            }
            if (got != n * f.channels)
                return fail("%s: write of %zu samples returned %zu", type_name(f.type), n * f.channels, got);
            pos += n;
            if (w.tell() != (imax)pos || w.format().length != (imax)pos)
                return fail("%s: position after %zu frames is %lld, length %lld", type_name(f.type), pos, (long long)w.tell(), (long long)w.format().length);
            evals(1);
        }
        if (w.format().channels != f.channels || w.format().type != f.type || w.format().samplerate != f.samplerate)
            return fail("format of the writer");
        if (r.chance(0.5))
        {
            w.close();
            if (!file && store->open)
                return fail("not closed");
            if (!x.empty() && w.write(x.data(), f.channels) != 0)
                return fail("write after close");
        }
    }
    if (!file && store->open)
        return fail("file below not closed");
    if (file)
    {
        store->bytes.clear();
        FILE* h = fopen(path.c_str(), "rb");
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, h)) > 0)
            store->bytes.append(buf, n);
        fclose(h);
    }
    // the bytes
    Wav p = parse_wav(store->bytes, f.use_w64);
    if (!p.error.empty())
        return fail("%s%s: %s", type_name(f.type), f.use_w64 ? " W64" : "", p.error.c_str());
    unsigned bits = (unsigned)width * 8;
    if (p.tag != (f.type >= AT::first_float ? 3u : 1u) || p.channels != f.channels || p.rate != f.samplerate || p.align != f.channels * width || p.bits != bits ||
        p.bytes_per_second != (unsigned)(f.samplerate * p.align))
        return fail("%s: format in the file: tag %u channels %u rate %u align %u bits %u", type_name(f.type), p.tag, p.channels, p.rate, p.align, p.bits);
    if (p.size != frames * p.align)
        return fail("%s: %zu bytes of samples for %zu frames", type_name(f.type), p.size, frames);
    double tol = tolerance(f.type);
    for (size_t i = 0; i < x.size(); ++i)
    {
        double v = stored(store->bytes, p.data + i * width, f.type);
        if (!(std::abs(v - value(x[i])) <= tol))
            return fail("%s: sample %zu stored as %.10g instead of %.10g", type_name(f.type), i, v, value(x[i]));
    }
    evals(x.size());
    // back
    for (int round = 0; round < 2; ++round)
    {
        auto again = std::make_shared<Store>();
        again->bytes = store->bytes;
        std::vector<T> all(x.size(), T(0));
        std::shared_ptr<abstract_reader<>> below;
        if (file)
            below = open_file_for_reading<>(path);
        else
            below = std::make_shared<mem_reader>(again);
        audio_reader_wav<T> rd(std::move(below));
        if (rd.format().channels != f.channels || rd.format().type != f.type || rd.format().samplerate != f.samplerate || rd.format().length != (imax)frames ||
            rd.format().use_w64 != f.use_w64)
            return fail("%s: read channels %zu type %s rate %g length %lld w64 %d", type_name(f.type), rd.format().channels, type_name(rd.format().type), (double)rd.format().samplerate,
                        (long long)rd.format().length, (int)rd.format().use_w64);
        if (rd.tell() != 0)
            return fail("position of a new reader");
        if (rd.read(all.data(), all.size()) != all.size())
            return fail("%s: not all samples are read", type_name(f.type));
        bool same = f.type == audio_sample_traits<T>::type;
        for (size_t i = 0; i < x.size(); ++i)
            if (same ? !equal(all[i], x[i]) : !(std::abs(value(all[i]) - value(x[i])) <= tol))
                return fail("%s: sample %zu comes back as %.10g instead of %.10g", type_name(f.type), i, value(all[i]), value(x[i]));
        for (size_t i = 0; i < x.size() && !same; ++i)
            if (!(std::abs(value(all[i]) - stored(store->bytes, p.data + i * width, f.type)) <= tol))
                return fail("%s: sample %zu", type_name(f.type), i);
        evals(x.size());
        if (!rd.seek(0, seek_origin::begin))
            return fail("can not go to the beginning");
        if (!read_around(r, type_name(f.type), rd, all, f.channels, round == 0))
            return;
#if IN_VECTORS
        if (rd.seek(0, seek_origin::begin))
        {
            univector2d<T> u = rd.read_channels();
            if (u.size() != f.channels || u[0].size() != frames)
                return fail("read_channels() of %zu frames: %zu", frames, u.empty() ? 0 : u[0].size());
        }
#endif
    }
    seen(hash_bytes(store->bytes.data(), store->bytes.size()));
    stat("wav_files", 1);
}
/// as other programs write it: further chunks, extensible format
static void foreign_wav(Rng& r)
{
    static const AT types[] = { AT::i8, AT::i16, AT::i24, AT::i32, AT::f32, AT::f64 };
    AT type                 = types[r.below(6)];
    size_t width = audio_sample_sizeof(type), channels = 1 + r.below(4), frames = r.below(100);
    std::string body, b;
    auto put = [](std::string& s, unsigned long long v, int n) {
        for (int i = 0; i < n; ++i)
            s += (char)(v >> (8 * i));
    };
    std::vector<double> want;
    for (size_t i = 0; i < frames * channels; ++i)
    {
        if (type == AT::f32)
        {
            float v = (float)r.sym();
            body.append((char*)&v, 4);
        }
        else if (type == AT::f64)
        {
            double v = r.sym();
            body.append((char*)&v, 8);
        }
        else
            put(body, r.next(), (int)width);
        want.push_back(std::max(-1.0, stored(body, i * width, type)));
    }
    auto chunk = [&](const char* id, const std::string& s) {
        b += id;
        put(b, s.size(), 4);
        b += s;
        if (s.size() & 1)
            b += '\0';
    };
    std::string fmt;
    bool ext = r.chance(0.5);
    unsigned tag = type >= AT::first_float ? 3 : 1;
    put(fmt, ext ? 0xfffe : tag, 2), put(fmt, channels, 2), put(fmt, 22050, 4), put(fmt, 22050 * channels * width, 4), put(fmt, channels * width, 2), put(fmt, width * 8, 2);
    if (ext)
        put(fmt, 22, 2), put(fmt, width * 8, 2), put(fmt, 0, 4), put(fmt, tag, 2), fmt += std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 14);
    b = "WAVE";
    if (r.chance(0.4))
        chunk("JUNK", std::string(r.below(30), 'j'));
    chunk("fmt ", fmt);
    if (r.chance(0.4))
        chunk("LIST", std::string(r.below(30), 'l'));
    if (type >= AT::first_float)
    {
        std::string fact;
        put(fact, frames, 4);
        chunk("fact", fact);
    }
    chunk("data", body);
    if (r.chance(0.4))
        chunk("LIST", std::string(r.below(30), 'l'));
    auto store   = std::make_shared<Store>();
    store->bytes = "RIFF";
    put(store->bytes, b.size(), 4);
    store->bytes += b;
    audio_reader_wav<T> rd(std::make_shared<mem_reader>(store));
    const auto& f = rd.format();
    if (f.channels != channels || f.type != type || f.samplerate != 22050 || f.length != (imax)frames)
        return fail("foreign %s: channels %zu type %s rate %g length %lld of %zu", type_name(type), f.channels, type_name(f.type), (double)f.samplerate, (long long)f.length, frames);
    std::vector<T> all(frames * channels, T(0));
    if (rd.read(all.data(), all.size()) != all.size())
        return fail("foreign %s: not all samples are read", type_name(type));
    double tol = tolerance(type);
    for (size_t i = 0; i < all.size(); ++i)
        if (!(std::abs(value(all[i]) - want[i]) <= tol + (std::is_floating_point_v<T> ? 1 / 127.0 * (want[i] == -1) : 0)))
            return fail("foreign %s: sample %zu is %.10g instead of %.10g", type_name(type), i, value(all[i]), want[i]);
    evals(all.size());
    rd.seek(0, seek_origin::begin);
    read_around(r, "foreign", rd, all, channels, false);
    seen(hash_bytes(store->bytes.data(), store->bytes.size()));
}
/// space runs out while writing
static void full(Rng& r)
{
    auto store      = std::make_shared<Store>();
    audio_format f;
    f.type          = r.chance(0.5) ? audio_sample_traits<T>::type : AT::i16;
    f.channels      = 1 + r.below(3);
    f.use_w64       = r.chance(0.5);
    store->capacity = r.below(1500);
    {
        audio_writer_wav<T> w(std::make_shared<mem_writer>(store), f);
        size_t total = 0;
        for (int k = 0; k < 30; ++k)
        {
            size_t n = r.below(60) * f.channels;
            std::vector<T> x(n, T(0));
            size_t got = w.write(x.data(), n);
            if (got > n)
                return fail("full: write of %zu returned %zu", n, got);
            total += got;
        }
        if (total * audio_sample_sizeof(f.type) > store->capacity)
            return fail("full: %zu samples written to %zu bytes", total, store->capacity);
        evals(1), seen(total);
    }
    if (store->open)
        fail("full: not closed");
}

// ---------------------------------------------------------------------------- FLAC

static void flac(Rng& r)
{
    Flac f;
    static const int depths[] = { 8, 12, 16, 20, 24 };
    f.bps                     = depths[r.below(5)];
    f.rate                    = 1 + (int)r.below(655350);
    f.blocksize               = r.chance(0.3) ? 16 : r.chance(0.5) ? (int)(16 + r.below(400)) : 4096;
    f.seektable               = r.chance(0.4);
    f.metadata                = r.chance(0.3);
    size_t channels = 1 + r.below(8), frames = 1 + r.below(r.chance(0.2) ? 6000 : 900);
    if (channels > 2 && r.chance(0.5))
        channels = 2;
    long top = (1l << (f.bps - 1)) - 1;
    std::vector<std::vector<long>> ch(channels, std::vector<long>(frames));
    for (auto& c : ch)
    {
        int kind = (int)r.below(5), shift = (int)r.below(4);
        double w = r.unit(), a = r.unit();
        for (size_t i = 0; i < frames; ++i)
            c[i] = kind == 0 ? r.range(-top - 1, top) : kind == 1 ? (long)(a * top * std::sin(w * i)) : kind == 2 ? (long)(top * a) : kind == 3 ? ((long)(0.3 * top * std::sin(w * i)) >> shift) * (1l << shift) : (r.chance(0.01) ? top : 0);
    }
    auto store   = std::make_shared<Store>();
    store->bytes = flac_encode(r, ch, f);
    audio_reader_flac<T> rd(std::make_shared<mem_reader>(store));
    if (rd.format().channels != channels || rd.format().samplerate != f.rate || rd.format().length != (imax)frames || rd.format().type != AT::i32)
        return fail("flac: channels %zu of %zu, rate %g, length %lld of %zu", rd.format().channels, channels, (double)rd.format().samplerate, (long long)rd.format().length, frames);
    std::vector<T> all(frames * channels, T(0));
    size_t got = rd.read(all.data(), all.size());
    if (got != all.size())
        return fail("flac of %d bits, blocks of %d: %zu samples of %zu read", f.bps, f.blocksize, got, all.size());
    for (size_t i = 0; i < all.size(); ++i)
    {
        long v      = ch[i % channels][i / channels];
        double want = std::max(-1.0, (double)(v * (1l << (32 - f.bps))) / 2147483647.0);
        bool ok     = std::is_same_v<T, i32> ? value(all[i]) * 2147483647.0 == (double)(v * (1l << (32 - f.bps))) : std::abs(value(all[i]) - want) <= tolerance(AT::f64) + (std::is_same_v<T, i24> ? 2.5e-7 : 0);
        if (!ok)
            return fail("flac of %d bits: sample %zu is %.10g instead of %.10g", f.bps, i, value(all[i]), want);
    }
    evals(all.size());
    if (!rd.seek(0, seek_origin::begin))
        return fail("flac: can not go to the beginning");
    if (!read_around(r, "flac", rd, all, channels, true))
        return;
    audio_reader_flac<T> rd2(std::make_shared<mem_reader>(store));
    if (!read_around(r, f.seektable ? "flac with seek table" : "flac", rd2, all, channels, false))
        return;
    seen(hash_bytes(store->bytes.data(), store->bytes.size()));
    stat("flac_files", 1);
}

// ---------------------------------------------------------------------------- recorded files

static std::string recorded(const std::string& name)
{
    std::string s, path = opt("data") + "/" + name;
    if (FILE* h = fopen(path.c_str(), "rb"))
    {
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, h)) > 0)
            s.append(buf, n);
        fclose(h);
    }
    return s;
}
template <typename Reader>
static void recording(Rng& r, const char* name)
{
    auto store   = std::make_shared<Store>();
    store->bytes = recorded(name);
    if (store->bytes.empty())
        return fail("harness: %s is missing", name);
    Reader rd(std::make_shared<mem_reader>(store));
    size_t channels = rd.format().channels;
    if (channels < 1 || channels > 2 || rd.format().length <= 0)
        return fail("%s: %zu channels, length %lld", name, channels, (long long)rd.format().length);
    std::vector<T> all((size_t)rd.format().length * channels, T(0));
    size_t got = rd.read(all.data(), all.size());
    if (got != all.size())
        return fail("%s: length %zu, but %zu samples read", name, all.size() / channels, got);
    if (std::vector<T> more(64, T(0)); rd.read(more.data(), 64) != 0)
        return fail("%s: longer than its length", name);
    rd.seek(0, seek_origin::begin);
    if (!read_around(r, name, rd, all, channels, true))
        return;
    Reader rd2(std::make_shared<mem_reader>(store));
    read_around(r, name, rd2, all, channels, false);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    size_t n = thorough() ? 20000 : 1000;
    for (size_t k = 0; k < n; ++k)
    {
        if (begin("wav k=%zu", k))
        {
            Rng r = case_rng();
            wav(r), foreign_wav(r), full(r);
        }
        if (begin("flac k=%zu", k))
        {
            Rng r = case_rng();
            flac(r);
        }
        if (k % 25 == 0 && begin("recorded k=%zu", k))
        {
            Rng r = case_rng();
            recording<audio_reader_flac<T>>(r, "sine.flac");
            recording<audio_reader_mp3<T>>(r, "sine.mp3");
        }
    }
    return done();
}
