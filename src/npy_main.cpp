// C27: NumPy files. Written bytes are checked by an independent reader, files of an independent writer
// are loaded, damaged ones must be reported and never deliver elements that were not in the file.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/base/npy.hpp>
#include <new>
using namespace kfr;
using namespace vk;

#ifndef PART
#define PART 0
#endif

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=2000:allocator_may_return_null=1"; }

/// memory is limited: nothing in a small file justifies larger requests for text
static size_t request_limit = (size_t)1 << 28;
void* operator new(size_t n)
{
    if (n > request_limit)
        throw std::bad_alloc();
    if (void* p = malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

using Bytes = std::string;

template <typename T>
struct Npy;
#define NPY(T, D)                                                                                                      \
    template <>                                                                                                        \
    struct Npy<T>                                                                                                      \
    {                                                                                                                  \
        static const char* descr() { return D; }                                                                       \
    }
NPY(bool, "|b1");
NPY(u8, "|u1");
NPY(i8, "|i1");
NPY(u16, "<u2");
NPY(i16, "<i2");
NPY(u32, "<u4");
NPY(i32, "<i4");
NPY(u64, "<u8");
NPY(i64, "<i8");
NPY(f32, "<f4");
NPY(f64, "<f8");
NPY(kfr::complex<f32>, "<c8");
NPY(kfr::complex<f64>, "<c16");
template <typename T>
constexpr size_t unit_of = sizeof(T);
template <typename T>
constexpr size_t unit_of<kfr::complex<T>> = sizeof(T);

/// bytes of the value, little-endian or swapped
template <typename T>
static void put(Bytes& b, const T& v, bool big = false)
{
    char c[sizeof(T)];
    memcpy(c, &v, sizeof(T));
    if (big)
        for (size_t u = 0; u < sizeof(T); u += unit_of<T>)
            std::reverse(c + u, c + u + unit_of<T>);
    b.append(c, sizeof(T));
}

// ---------------------------------------------------------------------------- the independent reader

struct Parsed
{
    bool ok = false;
    std::string descr;
    bool fortran = false;
    std::vector<unsigned long long> shape;
    bool has[3]  = { false, false, false };
    size_t data  = 0; // offset
    int version  = 0;
    bool regular = true; // written as numpy writes it
};
/// strict reader of what numpy writes, in any order and with any spaces
static Parsed parse(const Bytes& b)
{
    Parsed p;
    if (b.size() < 10 || memcmp(b.data(), "\x93NUMPY", 6) || b[7] != 0)
        return p;
    p.version = b[6];
    size_t len, at;
    if (p.version == 1)
        len = (unsigned char)b[8] | (unsigned char)b[9] << 8, at = 10;
    else if ((p.version == 2 || p.version == 3) && b.size() >= 12)
        len = (unsigned char)b[8] | (unsigned char)b[9] << 8 | (unsigned char)b[10] << 16 | (size_t)(unsigned char)b[11] << 24, at = 12;
    else
        return p;
    if (b.size() - at < len)
        return p;
    p.data       = at + len;
    std::string s = b.substr(at, len);
    size_t i      = 0;
    auto ws       = [&] {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r'))
            ++i;
    };
    auto is = [&](char c) {
        ws();
        if (i < s.size() && s[i] == c)
            return ++i, true;
        return false;
    };
    if (!is('{'))
        return p;
    while (!is('}'))
    {
        if (!is('\''))
            return p;
        size_t e = s.find('\'', i);
        if (e == std::string::npos)
            return p;
        std::string key = s.substr(i, e - i);
        i               = e + 1;
        if (!is(':'))
            return p;
        ws();
        int k = key == "descr" ? 0 : key == "fortran_order" ? 1 : key == "shape" ? 2 : -1;
        if (k < 0 || p.has[k])
            return p;
        p.has[k] = true;
        if (k == 0)
        {
            if (!is('\'') || (e = s.find('\'', i)) == std::string::npos)
                return p;
            p.descr = s.substr(i, e - i), i = e + 1;
        }
        else if (k == 1)
        {
            if (s.compare(i, 4, "True") == 0)
                p.fortran = true, i += 4;
            else if (s.compare(i, 5, "False") == 0)
                i += 5;
            else
                return p;
        }
        else
        {
            if (!is('('))
                return p;
            while (!is(')'))
            {
                ws();
                size_t b0 = i;
                unsigned long long v = 0;
                while (i < s.size() && s[i] >= '0' && s[i] <= '9')
                {
                    if (v > (~0ull - 9) / 10)
                        return p;
                    v = v * 10 + (s[i++] - '0');
                }
                if (i == b0)
                    return p;
                p.shape.push_back(v);
                if (!is(','))
                {
                    if (p.shape.size() == 1 || !is(')')) // (5) is a number
                        return p;
                    break;
                }
            }
        }
        if (!is(','))
        {
            if (!is('}'))
                return p;
            break;
        }
    }
    ws();
    p.ok = i == s.size() && p.has[0] && p.has[1] && p.has[2];
    return p;
}

// ---------------------------------------------------------------------------- loading

struct Source
{
    const Bytes& b;
    size_t pos    = 0;
    bool failed   = false;
    size_t wasted = 0; // requests after a failed one
    bool read(void* d, size_t n)
    {
        if (failed)
            ++wasted;
        if (b.size() - pos < n)
        {
            // as a file: delivers what there is
            memcpy(d, b.data() + pos, b.size() - pos);
            pos    = b.size();
            failed = true;
            return false;
        }
        if (n)
            memcpy(d, b.data() + pos, n);
        pos += n;
        return true;
    }
};

template <typename T, index_t D>
static std::array<char, sizeof(T)> element(const Parsed& p, const Bytes& b, const shape<D>& i)
{
    size_t flat = 0;
    if (p.fortran)
        for (size_t d = D; d-- > 0;)
            flat = flat * p.shape[d] + i[d];
    else
        for (size_t d = 0; d < D; ++d)
            flat = flat * p.shape[d] + i[d];
    std::array<char, sizeof(T)> c;
    memcpy(c.data(), b.data() + p.data + flat * sizeof(T), sizeof(T));
    if (p.descr[0] == '>')
        for (size_t u = 0; u < sizeof(T); u += unit_of<T>)
            std::reverse(c.begin() + u, c.begin() + u + unit_of<T>);
    return c;
}

enum Want
{
    accept,
    reject,
    either
};

template <typename T, index_t D>
static bool load(const char* what, const Bytes& b, Want want)
{
    // what is there before stays if nothing is loaded
    shape<D> before;
    for (index_t d = 0; d < D; ++d)
        before[d] = 1 + d;
    T mark;
    memset((void*)&mark, 1, sizeof(T));
    tensor<T, D> t(before);
    memset((void*)t.data(), 1, t.size() * sizeof(T));
    const T* data = t.data();
    Source s{ b };
    npy_decode_result r;
    try
    {
        r = load_from_npy(t, [&](void* d, size_t n) { return s.read(d, n); });
    }
    catch (const std::exception& e)
    {
        fail("%s: exception %s instead of an error", what, e.what());
        return false;
    }
    evals(1);
    if (r != npy_decode_result::ok)
    {
        stat("rejected", 1);
        seen(hash_bytes(b.data(), b.size()) + (unsigned)r);
        if (want == accept)
        {
            fail("%s: %s", what, representation<npy_decode_result>::get(r).c_str());
            return false;
        }
        if (t.shape() != before || t.data() != data || memcmp((const void*)t.data(), &mark, sizeof(T)))
        {
            fail("%s: error, but the tensor changed", what);
            return false;
        }
        return true;
    }
    stat("accepted", 1);
    if (want == reject)
    {
        fail("%s: accepted", what);
        return false;
    }
    if (s.failed)
    {
        fail("%s: accepted although the data ended", what);
        return false;
    }
    if (t.size() > b.size() / sizeof(T))
    {
        fail("%s: %zu elements from %zu bytes", what, (size_t)t.size(), b.size());
        return false;
    }
    Parsed p = parse(b);
    if (want == accept && !p.ok)
    {
        fail("harness: a file that should be regular");
        return false;
    }
    if (!p.ok)
    {
        // every element must be readable
        size_t h = 0;
        shape<D> i(0);
        do
        {
            h = hash_bytes(&t.access(i), sizeof(T), h);
        } while (internal_generic::increment_indices(i, shape<D>(0), t.shape()));
        stat("irregular_accepted", 1);
        seen(h);
        return true;
    }
    std::string d = p.descr, own = Npy<T>::descr();
    if (d.substr(1) != own.substr(1) || !strchr("<>|=", d[0]) || p.shape.size() != D)
    {
        fail("%s: type %s and %zu dimensions accepted", what, d.c_str(), p.shape.size());
        return false;
    }
    shape<D> sh;
    for (index_t k = 0; k < D; ++k)
        sh[k] = p.shape[k];
    if (t.shape() != sh)
    {
        fail("%s: wrong shape", what);
        return false;
    }
    shape<D> i(0);
    size_t n = 0;
    do
    {
        auto y = element<T, D>(p, b, i);
        if (memcmp((const void*)&t.access(i), y.data(), sizeof(T)))
        {
            fail("%s: element %zu of %zu (%s%s)", what, n, (size_t)t.size(), d.c_str(), p.fortran ? ", fortran order" : "");
            return false;
        }
        ++n;
    } while (internal_generic::increment_indices(i, shape<D>(0), t.shape()));
    evals(n), seen(hash_bytes(b.data(), b.size()));
    return true;
}

// ---------------------------------------------------------------------------- writing

template <typename T>
static T value(Rng& r)
{
    T v;
    unsigned char c[sizeof(T)];
    for (auto& x : c)
        x = (unsigned char)r.next();
    if (std::is_same_v<T, bool>)
        c[0] &= 1;
    memcpy((void*)&v, c, sizeof(T));
    return v;
}
template <index_t D>
static shape<D> random_shape(Rng& r)
{
    shape<D> s;
    size_t budget = r.chance(0.1) ? 20000 : 600;
    for (index_t d = 0; d < D; ++d)
        s[d] = 1 + r.below(r.chance(0.2) ? 2 : std::max((size_t)1, std::min(budget, (size_t)(D == 1 ? 3000 : 40)))), budget = std::max((size_t)1, budget / s[d]);
    for (index_t d = 0; d < D; ++d)
        std::swap(s[d], s[r.below(D)]);
    return s;
}
template <typename T, index_t D>
static void round_trip(Rng& r)
{
    shape<D> sh = random_shape<D>(r), order, strides;
    // any layout: axes in any order, with gaps
    for (index_t d = 0; d < D; ++d)
        order[d] = d;
    int layout = (int)r.below(4); // 0 contiguous, 1 permuted, 2 with gaps, 3 both
    if (layout & 1)
        for (index_t d = 0; d < D; ++d)
            std::swap(order[d], order[r.below(D)]);
    size_t n = 1;
    for (index_t k = D; k-- > 0;)
    {
        index_t d  = order[k];
        strides[d] = n * ((layout & 2) ? 1 + r.below(3) : 1);
        n          = strides[d] * sh[d];
    }
    std::vector<char> storage(n * sizeof(T) + 64);
    T* base = (T*)(((size_t)storage.data() + 63) / 64 * 64);
    for (size_t i = 0; i < n; ++i)
        base[i] = value<T>(r);
    std::string kept((const char*)base, n * sizeof(T));
    tensor<T, D> t(base, sh, strides, nullptr);
    Bytes b;
    save_to_npy(t, [&](const void* d, size_t size) { b.append((const char*)d, size); });
    evals(1);
    if (kept != std::string((const char*)base, n * sizeof(T)))
        return fail("saving changed the tensor");
    Parsed p = parse(b);
    if (!p.ok)
        return fail("saved bytes are no npy file");
    if (p.data % 64)
        return fail("data begins at %zu", p.data);
    if (b[p.data - 1] != '\n')
        return fail("the header does not end with a new line");
    if (p.descr != Npy<T>::descr())
        return fail("type %s saved as %s", Npy<T>::descr(), p.descr.c_str());
    if (p.shape.size() != D)
        return fail("%zu dimensions instead of %zu", p.shape.size(), (size_t)D);
    for (index_t d = 0; d < D; ++d)
        if (p.shape[d] != sh[d])
            return fail("dimension %zu saved as %llu", (size_t)d, p.shape[d]);
    if (b.size() != p.data + sh.product() * sizeof(T))
        return fail("%zu bytes saved", b.size());
    shape<D> i(0);
    size_t k = 0;
    do
    {
        size_t off = 0;
        for (index_t d = 0; d < D; ++d)
            off += i[d] * strides[d];
        auto y = element<T, D>(p, b, i);
        if (memcmp(y.data(), (const void*)(base + off), sizeof(T)))
            return fail("element %zu saved wrong (layout %d)", k, layout);
        ++k;
    } while (internal_generic::increment_indices(i, shape<D>(0), sh));
    evals(k);
    load<T, D>("saved", b, accept);
    if (r.chance(0.3))
    {
        // a part of another tensor
        shape<D> start, stop;
        for (index_t d = 0; d < D; ++d)
            start[d] = r.below(sh[d]), stop[d] = start[d] + 1 + r.below(sh[d] - start[d]);
        b.clear();
        tensor<T, D> part(base, stop, strides, nullptr);
        save_to_npy(part, [&](const void* d, size_t size) { b.append((const char*)d, size); });
        Parsed q = parse(b);
        if (!q.ok || b.size() != q.data + stop.product() * sizeof(T))
            return fail("a part saved wrong");
        load<T, D>("saved part", b, accept);
    }
}

/// files as other programs write them
template <typename T, index_t D>
static Bytes file(Rng& r, bool exotic, size_t* payload = nullptr)
{
    shape<D> sh    = random_shape<D>(r);
    bool big       = r.chance(0.4) && unit_of<T> > 1;
    std::string ds = Npy<T>::descr();
    if (big)
        ds[0] = '>';
    auto sp = [&] { return std::string(r.chance(0.3) ? r.below(3) : 0, ' '); };
    std::vector<std::string> f;
    f.push_back("'descr'" + sp() + ":" + sp() + "'" + ds + "'");
    f.push_back("'fortran_order'" + sp() + ":" + sp() + (r.chance(0.5) ? "True" : "False"));
    std::string st = "(" + sp();
    for (index_t d = 0; d < D; ++d)
        st += (d ? "," + sp() : "") + std::to_string(sh[d]) + sp();
    st += (D == 1 || r.chance(0.2) ? "," + sp() : "") + ")";
    f.push_back("'shape'" + sp() + ":" + sp() + st);
    for (size_t i = 0; i < 3; ++i)
        std::swap(f[i], f[r.below(3)]);
    if (exotic)
    {
        const char* more[] = { "'x': 1", "'x': (1, 2)", "'x': [1, [2, {'a': 'b'}], 'c,d']", "'x': {'y': ')'}", "'x': 'a\\'b'", "'x': \"a\"", "'x': []", "'x': None", "'x': (]", "'x': ((1,", "'x': )", "'x': {" };
        f.insert(f.begin() + r.below(4), more[r.below(12)]);
    }
    std::string h = "{" + sp();
    for (size_t i = 0; i < f.size(); ++i)
        h += (i ? sp() + "," + sp() : "") + f[i];
    h += sp() + (r.chance(0.5) ? "," : "") + sp() + "}";
    int version = 1 + (int)r.below(3);
    size_t head = version == 1 ? 10 : 12;
    h += std::string((64 - (head + h.size() + 1) % 64) % 64 + (r.chance(0.1) ? 64 * r.below(9) : 0), ' ') + "\n";
    Bytes b = "\x93NUMPY";
    b += (char)version, b += (char)0;
    if (version == 1)
        put(b, (u16)h.size());
    else
        put(b, (u32)h.size());
    b += h;
    if (payload)
        *payload = b.size();
    for (size_t i = 0; i < sh.product(); ++i)
        put(b, value<T>(r), big);
    return b;
}

template <typename T, index_t D>
static void foreign(Rng& r)
{
    size_t payload = 0;
    Bytes b        = file<T, D>(r, false, &payload);
    if (!load<T, D>("file", b, accept))
        return;
    // bytes after the elements do not matter
    if (r.chance(0.2))
        load<T, D>("file with more behind", b + std::string(1 + r.below(100), 'x'), accept);
    // every truncation is an error
    for (int k = 0; k < 6; ++k)
    {
        size_t cut = k == 0 ? b.size() - 1 : k == 1 ? payload : k == 2 ? b.size() - sizeof(T) : r.below(b.size());
        load<T, D>("truncated file", b.substr(0, cut), reject);
    }
    // other types and numbers of dimensions
    load<T, D + 1>("file of less dimensions", b, reject);
    if constexpr (!std::is_same_v<T, i16>)
        load<i16, D>("file of another type", b, reject);
    if constexpr (!std::is_same_v<T, f32>)
        load<f32, D>("file of another type", b, reject);
    load<T, D>("file with more fields", file<T, D>(r, true), either);
}

template <typename T, index_t D>
static void hostile(Rng& r)
{
    size_t payload = 0;
    Bytes b        = file<T, D>(r, r.chance(0.3), &payload);
    size_t head    = b[6] == 1 ? 10 : 12;
    for (int m = 1 + (int)r.below(3); m > 0; --m)
        switch (r.below(9))
        {
        case 0: // bytes of the header
            b[r.below(payload)] ^= (char)(1 << r.below(8));
            break;
        case 1:
            b[r.below(payload)] = "(){}[],:'\"\\ 0123456789<>|\n\0\xff"[r.below(28)];
            break;
        case 2: // a number becomes huge
        {
            size_t p = b.find('(');
            if (p == std::string::npos || p >= payload)
                break;
            static const char* numbers[] = { "18446744073709551615", "18446744073709551616", "9223372036854775807", "4294967296", "4294967295", "2147483648", "0", "-1", "99999999999999999999999999999", "4611686018427387904", "1000000000000", "3037000500", "00000001", "1e9", "" };
            std::string n = numbers[r.below(15)];
            size_t e      = p + 1;
            while (e < b.size() && b[e] >= '0' && b[e] <= '9')
                ++e;
            if (r.chance(0.5))
                b.replace(p + 1, e - p - 1, n);
            else
                b.insert(p + 1, n + ",");
            payload = std::min(b.size(), payload + n.size());
            // keep the size of the header consistent now and then
            if (r.chance(0.7))
            {
                u32 len = (u32)(payload - head);
                memcpy(&b[8], &len, head - 8);
            }
            break;
        }
        case 3: // size of the header
        {
            u32 len = (u32)(r.chance(0.3) ? r.next() : r.chance(0.5) ? payload - head + r.range(-8, 8) : r.below(2 * payload));
            memcpy(&b[8], &len, head - 8);
            break;
        }
        case 4: // parts of the header vanish
        {
            size_t p = head + r.below(payload - head), n = std::min(payload - p, (size_t)r.below(30));
            b.erase(p, n), payload -= n;
            payload = std::max(payload, head + 1);
            if (r.chance(0.7))
            {
                u32 len = (u32)(payload - head);
                memcpy(&b[8], &len, head - 8);
            }
            break;
        }
        case 5: // or are doubled
        {
            size_t p = head + r.below(payload - head), n = std::min(payload - p, (size_t)r.below(60));
            b.insert(p, b.substr(p, n)), payload += n;
            if (r.chance(0.7))
            {
                u32 len = (u32)(payload - head);
                memcpy(&b[8], &len, head - 8);
            }
            break;
        }
        case 6:
            b.resize(std::max(head + 2, (size_t)r.below(b.size() + 1)));
            payload = std::min(payload, b.size());
            break;
        case 7: // the header ends early
        {
            u32 len = (u32)r.below(payload - head + 1);
            memcpy(&b[8], &len, head - 8);
            break;
        }
        default:
            for (size_t i = r.below(payload), e = std::min(payload, i + r.below(20)); i < e; ++i)
                b[i] = (char)r.next();
        }
    load<T, D>("damaged file", b, either);
}
template <typename T, index_t D>
static void noise(Rng& r)
{
    Bytes b(r.below(300), ' ');
    for (auto& c : b)
        c = (char)r.next();
    if (r.chance(0.8))
        b.replace(0, std::min(b.size(), (size_t)6), "\x93NUMPY");
    if (r.chance(0.7) && b.size() > 16)
        b[6] = (char)(1 + r.below(3)), b[7] = 0, b[9] = 0, b[10] = b[11] = 0;
    Parsed p = parse(b);
    load<T, D>("noise", b, p.ok ? either : b.size() < 80 ? reject : either);
}

template <typename T, index_t D>
static void dims(const char* name, size_t n)
{
    for (size_t k = 0; k < n; ++k)
    {
        if (begin("%s/%zud/round trip k=%zu", name, (size_t)D, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 5; ++i)
                round_trip<T, D>(r);
        }
        if (begin("%s/%zud/foreign k=%zu", name, (size_t)D, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 5; ++i)
                foreign<T, D>(r);
        }
        if (begin("%s/%zud/damaged k=%zu", name, (size_t)D, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 50; ++i)
                hostile<T, D>(r), noise<T, D>(r);
        }
    }
}
template <typename T>
static void type(const char* name)
{
    size_t n = thorough() ? 2500 : 120;
    dims<T, 1>(name, n), dims<T, 2>(name, n), dims<T, 3>(name, n), dims<T, 5>(name, n / 2);
}

int main(int argc, char** argv)
{
    init(argc, argv);
#if PART == 0
    type<bool>("bool"), type<u8>("u8"), type<i8>("i8"), type<u16>("u16");
#elif PART == 1
    type<i16>("i16"), type<u32>("u32"), type<i32>("i32");
#elif PART == 2
    type<u64>("u64"), type<i64>("i64"), type<f32>("f32");
#else
    type<f64>("f64"), type<kfr::complex<f32>>("c64"), type<kfr::complex<f64>>("c128");
#endif
    return done();
}
