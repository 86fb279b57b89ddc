// A small independent FLAC encoder: constant, verbatim and fixed-predictor subframes, Rice partitions with and
// without escape codes, wasted bits, all stereo modes, optional seek tables and other metadata.
#pragma once
#include "vk.hpp"
#include <string>
#include <vector>
namespace vk
{
struct BitWriter
{
    std::string b;
    unsigned acc = 0;
    int n        = 0;
    void bit(unsigned v)
    {
        acc = acc << 1 | (v & 1);
        if (++n == 8)
            b += (char)acc, acc = 0, n = 0;
    }
    void put(unsigned long long v, int bits)
    {
        for (int i = bits - 1; i >= 0; --i)
            bit((unsigned)(v >> i));
    }
    void align()
    {
        while (n)
            bit(0);
    }
};
inline unsigned crc_of(const std::string& s, size_t from, unsigned poly, int bits)
{
    unsigned c = 0, top = 1u << (bits - 1), mask = bits == 8 ? 0xff : 0xffff;
    for (size_t i = from; i < s.size(); ++i)
    {
        c ^= (unsigned)(unsigned char)s[i] << (bits - 8);
        for (int k = 0; k < 8; ++k)
            c = ((c & top) ? (c << 1) ^ poly : c << 1) & mask;
    }
    return c;
}
struct Flac
{
    int bps = 16, rate = 44100, blocksize = 256;
    bool seektable = false, metadata = false, unknown_length = false;
};
inline void flac_residual(Rng& r, BitWriter& w, const std::vector<long>& res, int order, int blocksize)
{
    int porder = (int)r.below(4);
    while (porder > 0 && (blocksize % (1 << porder) || (blocksize >> porder) <= order))
        --porder;
    bool five = r.chance(0.3);
    w.put(five ? 1 : 0, 2), w.put(porder, 4);
    size_t i = 0;
    for (int p = 0; p < (1 << porder); ++p)
    {
        size_t count = (blocksize >> porder) - (p == 0 ? order : 0);
        unsigned long long sum = 0;
        long most = 0;
        for (size_t k = 0; k < count; ++k)
            sum += (unsigned long long)std::abs(res[i + k]), most = std::max(most, std::abs(res[i + k]));
        int param = 0;
        while (param < (five ? 30 : 14) && (sum >> param) > count)
            ++param;
        int bits = 1;
        while (most >> (bits - 1))
            ++bits;
        if (bits <= 31 && (r.chance(0.15) || (sum >> param) > 4 * count + 4))
        {
            w.put(five ? 31 : 15, five ? 5 : 4), w.put(bits, 5);
            for (size_t k = 0; k < count; ++k, ++i)
                w.put((unsigned long long)res[i], bits);
            continue;
        }
        w.put(param, five ? 5 : 4);
        for (size_t k = 0; k < count; ++k, ++i)
        {
            unsigned long long u = res[i] < 0 ? ((unsigned long long)(-(res[i] + 1)) << 1 | 1) : (unsigned long long)res[i] << 1;
            for (unsigned long long q = u >> param; q > 0; --q)
                w.bit(0);
            w.bit(1);
            if (param)
                w.put(u & ((1ull << param) - 1), param);
        }
    }
}
inline void flac_subframe(Rng& r, BitWriter& w, std::vector<long> x, int bps)
{
    bool constant = true;
    long any      = 0;
    for (long v : x)
        constant = constant && v == x[0], any |= v;
    int wasted = 0;
    if (any && r.chance(0.5))
        while (!((any >> wasted) & 1) && wasted < bps - 2)
            ++wasted;
    for (long& v : x)
        v >>= wasted;
    auto head = [&](int type) {
        w.put(0, 1), w.put(type, 6), w.put(wasted ? 1 : 0, 1);
        if (wasted)
        {
            for (int i = 1; i < wasted; ++i)
                w.bit(0);
            w.bit(1);
        }
    };
    int bits = bps - wasted, n = (int)x.size();
    if (constant && r.chance(0.8))
    {
        head(0), w.put((unsigned long long)x[0], bits);
        return;
    }
    if (n > 40 && r.chance(0.5))
    {
        // any coefficients predict something: what is left is stored
        int order = 1 + (int)r.below(32), precision = 5 + (int)r.below(11), shift = precision - 1;
        std::vector<long> c(order), res;
        long sum = 0, limit = (1l << (precision - 1)) - 1;
        for (long& v : c)
        {
            v = r.range(-limit, limit) / (r.chance(0.5) ? order : 1);
            if (sum + std::abs(v) > 2 * limit)
                v = 0;
            sum += std::abs(v);
        }
        long most = 0;
        for (int i = order; i < n; ++i)
        {
            long p = 0;
            for (int j = 0; j < order; ++j)
                p += c[j] * x[i - 1 - j];
            res.push_back(x[i] - (p >> shift));
            most = std::max(most, std::abs(res.back()));
        }
        if (most < 1l << 29)
        {
            head(32 | (order - 1));
            for (int i = 0; i < order; ++i)
                w.put((unsigned long long)x[i], bits);
            w.put(precision - 1, 4), w.put(shift, 5);
            for (long v : c)
                w.put((unsigned long long)v, precision);
            flac_residual(r, w, res, order, n);
            return;
        }
    }
    int order = (int)r.below(6);
    if (order > 4 || order >= n)
    {
        head(1);
        for (long v : x)
            w.put((unsigned long long)v, bits);
        return;
    }
    head(8 | order);
    for (int i = 0; i < order; ++i)
        w.put((unsigned long long)x[i], bits);
    std::vector<long> res;
    for (int i = order; i < n; ++i)
    {
        long p = 0;
        switch (order)
        {
        case 1:
            p = x[i - 1];
            break;
        case 2:
            p = 2 * x[i - 1] - x[i - 2];
            break;
        case 3:
            p = 3 * x[i - 1] - 3 * x[i - 2] + x[i - 3];
            break;
        case 4:
            p = 4 * x[i - 1] - 6 * x[i - 2] + 4 * x[i - 3] - x[i - 4];
        }
        res.push_back(x[i] - p);
    }
    flac_residual(r, w, res, order, n);
}
inline std::string flac_encode(Rng& r, const std::vector<std::vector<long>>& ch, const Flac& f)
{
    size_t channels = ch.size(), n = ch[0].size();
    std::string frames;
    std::vector<size_t> offsets;
    for (size_t pos = 0, number = 0; pos < n; pos += f.blocksize, ++number)
    {
        size_t count = std::min(n - pos, (size_t)f.blocksize), from = frames.size();
        offsets.push_back(from);
        BitWriter w;
        w.put(0x3ffe, 14), w.put(0, 2), w.put(7, 4), w.put(0, 4);
        int mode = channels == 2 ? (int)r.below(4) : 0; // 1 left/side, 2 right/side, 3 mid/side
        w.put(mode ? 7 + mode : channels - 1, 4), w.put(0, 4);
        if (number < 0x80)
            w.put(number, 8);
        else if (number < 0x800)
            w.put(0xc0 | number >> 6, 8), w.put(0x80 | (number & 63), 8);
        else
            w.put(0xe0 | number >> 12, 8), w.put(0x80 | (number >> 6 & 63), 8), w.put(0x80 | (number & 63), 8);
        w.put(count - 1, 16);
        w.b += (char)crc_of(w.b, 0, 0x07, 8);
        std::vector<std::vector<long>> s(channels);
        for (size_t c = 0; c < channels; ++c)
            s[c].assign(ch[c].begin() + pos, ch[c].begin() + pos + count);
        if (mode)
            for (size_t i = 0; i < count; ++i)
            {
                long a = s[0][i], b = s[1][i];
                if (mode == 1)
                    s[1][i] = a - b;
                else if (mode == 2)
                    s[0][i] = a - b;
                else
                    s[0][i] = (a + b) >> 1, s[1][i] = a - b;
            }
        for (size_t c = 0; c < channels; ++c)
            flac_subframe(r, w, s[c], f.bps + ((mode == 1 && c == 1) || (mode == 2 && c == 0) || (mode == 3 && c == 1) ? 1 : 0));
        w.align();
        unsigned crc = crc_of(w.b, 0, 0x8005, 16);
        w.put(crc, 16);
        frames += w.b;
    }
    BitWriter w;
    w.b = "fLaC";
    w.put(f.seektable || f.metadata ? 0 : 1, 1), w.put(0, 7), w.put(34, 24);
    w.put(f.blocksize, 16), w.put(f.blocksize, 16), w.put(0, 24), w.put(0, 24), w.put(f.rate, 20), w.put(channels - 1, 3), w.put(f.bps - 1, 5);
    w.put(f.unknown_length ? 0 : n, 36);
    w.b += std::string(16, '\0');
    if (f.seektable)
    {
        std::vector<size_t> points;
        for (size_t i = 0; i < offsets.size(); i += 1 + r.below(4))
            points.push_back(i);
        w.put(f.metadata ? 0 : 1, 1), w.put(3, 7), w.put(points.size() * 18, 24);
        for (size_t p : points)
            w.put(p * f.blocksize, 64), w.put(offsets[p], 64), w.put(std::min(n - p * f.blocksize, (size_t)f.blocksize), 16);
    }
    if (f.metadata)
    {
        std::string vendor = "vk";
        w.put(0, 1), w.put(4, 7), w.put(4 + vendor.size() + 4 + 4 + 5, 24);
        auto le = [&](unsigned v) { w.put(v & 255, 8), w.put(v >> 8 & 255, 8), w.put(v >> 16 & 255, 8), w.put(v >> 24, 8); };
        le((unsigned)vendor.size()), w.b += vendor, le(1), le(5), w.b += "A=bcd";
        size_t pad = r.below(50);
        w.put(1, 1), w.put(1, 7), w.put(pad, 24), w.b += std::string(pad, '\0');
    }
    return w.b + frames;
}
} // namespace vk
