// C42: file readers, writers and adapters against a model of the bytes and of the position; injected short
// transfers and errors of the file below.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <kfr/io/file.hpp>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace kfr;
using namespace vk;

static std::string dir;

template <typename T>
struct el
{
    static constexpr size_t size = sizeof(T);
    using type                   = T;
};
template <>
struct el<void>
{
    static constexpr size_t size = 1;
    using type                   = unsigned char;
};
template <typename T>
using E = typename el<T>::type;

template <typename T>
static std::vector<E<T>> random_elements(Rng& r, size_t n)
{
    std::vector<E<T>> v(n);
    unsigned char* b = (unsigned char*)v.data();
    for (size_t i = 0; i < n * sizeof(E<T>); ++i)
        b[i] = (unsigned char)r.next();
    return v;
}
static size_t call_size(Rng& r)
{
    return r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.chance(0.1) ? r.below(9000) : r.below(60);
}
static std::string contents(const std::string& path)
{
    std::string s;
    if (FILE* f = fopen(path.c_str(), "rb"))
    {
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0)
            s.append(b, n);
        fclose(f);
    }
    return s;
}
static bool compare(const char* what, const std::string& file, const std::string& model)
{
    if (file.size() != model.size())
    {
        fail("%s: %zu bytes in the file instead of %zu", what, file.size(), model.size());
        return false;
    }
    for (size_t i = 0; i < file.size(); ++i)
        if (file[i] != model[i])
        {
            fail("%s: byte %zu of %zu differs", what, i, file.size());
            return false;
        }
    return true;
}

// ---------------------------------------------------------------------------- writing

template <typename T>
static bool write_some(Rng& r, abstract_writer<T>& w, std::string& model, size_t& pos, bool append)
{
    size_t n = call_size(r);
    auto v   = random_elements<T>(r, n);
    size_t got;
    if constexpr (std::is_void_v<T>)
        got = w.write(v.data(), n);
    else
    {
        switch (r.below(4))
        {
        case 0:
            got = w.write(v.data(), n);
            break;
        case 1:
        {
            univector<T> u(n);
            std::copy(v.begin(), v.end(), u.begin());
            got = w.write(u);
            break;
        }
        case 2:
        {
            const auto ref = make_univector((const T*)v.data(), n);
            got = w.write(ref.data(), ref.size());
            break;
        }
        default:
            n   = 1;
            v   = random_elements<T>(r, 1);
            got = w.write(v[0]) ? 1 : 0;
        }
    }
    if (got != n)
    {
        fail("write of %zu returned %zu", n, got);
        return false;
    }
    size_t bytes = n * el<T>::size;
    if (append)
        pos = model.size();
    if (n)
    {
        if (model.size() < pos + bytes)
            model.resize(pos + bytes, '\0');
        memcpy(&model[pos], v.data(), bytes);
        pos += bytes;
    }
    evals(1);
    return true;
}

template <typename T, typename W>
static bool position(const char* what, W& f, size_t pos)
{
    imax t = f.tell();
    if (t != (imax)pos)
    {
        fail("%s: tell() is %lld instead of %zu", what, (long long)t, pos);
        return false;
    }
    return true;
}

template <typename F>
static bool move_to(Rng& r, F& f, size_t size, size_t& pos)
{
    size_t target = r.chance(0.1) ? size + r.below(100) : r.below(size + 1);
    bool ok;
    seek_origin o;
    imax off;
    switch (r.below(3))
    {
    case 0:
        o = seek_origin::begin, off = (imax)target;
        break;
    case 1:
        o = seek_origin::current, off = (imax)target - (imax)pos;
        break;
    default:
        o = seek_origin::end, off = (imax)target - (imax)size;
    }
    ok = r.chance(0.5) ? f.seek(off, o) : f.abstract_seek(off, (int)o);
    if (!ok)
    {
        fail("seek to %zu of %zu refused", target, size);
        return false;
    }
    pos = target;
    // before the beginning: refused, the position stays
    if (r.chance(0.2) && f.seek(-(imax)size - 1 - (imax)r.below(10), seek_origin::end))
    {
        fail("seek before the beginning accepted");
        return false;
    }
    evals(1);
    return true;
}
template <typename T>
struct WBoth
{
    abstract_writer<T>& s;
    bool seek(imax o, seek_origin g) { return s.seek(o, g); }
    bool abstract_seek(imax o, int g) { return static_cast<abstract_stream<T>&>(s).seek(o, g); }
};
template <typename T>
struct RBoth
{
    abstract_reader<T>& s;
    bool seek(imax o, seek_origin g) { return s.seek(o, g); }
    bool abstract_seek(imax o, int g) { return static_cast<abstract_stream<T>&>(s).seek(o, g); }
};

// ---------------------------------------------------------------------------- reading

template <typename T>
static bool read_some(Rng& r, abstract_reader<T>& f, const std::string& model, size_t& pos)
{
    size_t n     = call_size(r);
    size_t left  = pos < model.size() ? model.size() - pos : 0;
    std::vector<E<T>> got;
    size_t count;
    int form = std::is_void_v<T> ? 0 : (int)r.below(4);
    if constexpr (std::is_void_v<T>)
    {
        Buf<E<T>> b(n);
        count = f.read(b.data(), n);
        if (!b.intact())
            return fail("read wrote outside its buffer"), false;
        got.assign(b.data(), b.data() + std::min(count, n));
    }
    else
        switch (form)
        {
        case 0:
        {
            Buf<T> b(n);
            count = f.read(b.data(), n);
            if (!b.intact())
                return fail("read wrote outside its buffer"), false;
            got.assign(b.data(), b.data() + std::min(count, n));
            break;
        }
        case 1:
        {
            univector<T> u(n);
            count = f.read(u);
            if (u.size() != n)
                return fail("read changed the size of the array"), false;
            got.assign(u.begin(), u.begin() + std::min(count, n));
            break;
        }
        case 2:
        {
            univector<T> u = f.read(n);
            count          = u.size();
            got.assign(u.begin(), u.end());
            break;
        }
        default:
        {
            n = 1;
            T x;
            count = f.read(x) ? 1 : 0;
            got.assign(count, x);
        }
        }
    size_t want = std::min(n, left / el<T>::size);
    if (count != want)
    {
        fail("read of %zu at %zu of %zu (form %d, element of %zu) returned %zu instead of %zu", n, pos, model.size(), form, el<T>::size, count, want);
        return false;
    }
    if (count && memcmp(got.data(), model.data() + pos, count * el<T>::size))
    {
        fail("read of %zu at %zu of %zu: wrong elements", n, pos, model.size());
        return false;
    }
    // a part of an element at the end may be taken
    if (n > want && pos + want * el<T>::size < model.size())
        pos = (size_t)f.tell();
    else
        pos += count * el<T>::size;
    evals(1), seen(pos * 1000 + n);
    return true;
}

template <typename T>
static void history(Rng& r)
{
    std::string path = dir + "/file.bin", model;
    ::unlink(path.c_str());
    if (open_file_for_reading<T>(path))
        return fail("a missing file was opened");
    if (open_file_for_writing<T>(dir + "/missing/file"))
        return fail("a file of a missing directory was opened");
    for (int session = 0; session < 4; ++session)
    {
        bool append = session > 0 && r.chance(0.5);
        if (session == 0 || append || r.chance(0.3))
        {
            if (!append)
                model.clear();
            size_t pos = 0;
            std::shared_ptr<abstract_writer<T>> w;
            if (append)
                w = open_file_for_appending<T>(path);
            else
                w = open_file_for_writing<T>(path);
            if (!w)
                return fail("can not be opened for writing");
            WBoth<T> both{ *w };
            for (int k = (int)r.below(20); k > 0; --k)
            {
                if (!write_some<T>(r, *w, model, pos, append))
                    return;
                if (!append || pos)
                    if (pos && !position<T>("writer", *w, pos))
                        return;
                if (!append && r.chance(0.2))
                {
                    if (!move_to(r, both, model.size(), pos) || !position<T>("writer after seek", *w, pos))
                        return;
                }
            }
            w.reset();
            if (!compare(append ? "appended" : "written", contents(path), model))
                return;
        }
        auto f = open_file_for_reading<T>(path);
        if (!f)
            return fail("can not be opened for reading");
        size_t pos = 0;
        RBoth<T> both{ *f };
        for (int k = (int)r.below(40); k > 0; --k)
        {
            if (!read_some<T>(r, *f, model, pos) || !position<T>("reader", *f, pos))
                return;
            if (r.chance(0.3) && (!move_to(r, both, model.size(), pos) || !position<T>("reader after seek", *f, pos)))
                return;
        }
    }
}

// ---------------------------------------------------------------------------- files that fail

struct Faulty
{
    std::string data;
    size_t pos = 0, capacity = 0; // bytes it takes
    unsigned seed = 0;
    bool closed   = false;
};
static size_t chunk(Faulty& f, size_t n)
{
    f.seed = f.seed * 1103515245 + 12345;
    return n ? 1 + (f.seed >> 16) % n : 0;
}
static ssize_t faulty_read(void* c, char* b, size_t n)
{
    Faulty& f = *(Faulty*)c;
    n         = std::min(chunk(f, n), f.data.size() - f.pos);
    memcpy(b, f.data.data() + f.pos, n);
    f.pos += n;
    return (ssize_t)n;
}
static ssize_t faulty_write(void* c, const char* b, size_t n)
{
    Faulty& f = *(Faulty*)c;
    n         = std::min(chunk(f, n), f.capacity - f.data.size());
    f.data.append(b, n);
    return (ssize_t)n; // 0 is an error
}
static int faulty_close(void* c)
{
    ((Faulty*)c)->closed = true;
    return 0;
}

template <typename T>
static void faults(Rng& r)
{
    // a pipe that delivers pieces of any size
    {
        Faulty f;
        f.seed = (unsigned)r.next();
        f.data.resize(r.below(5000));
        for (auto& c : f.data)
            c = (char)r.next();
        cookie_io_functions_t io = { faulty_read, nullptr, nullptr, faulty_close };
        FILE* h                  = fopencookie(&f, "rb", io);
        if (r.chance(0.5))
            setvbuf(h, nullptr, _IONBF, 0);
        {
            std::shared_ptr<abstract_reader<T>> rd = std::make_shared<file_reader<T>>(file_handle(h));
            std::vector<E<T>> all;
            for (int end = 0; end < 2;)
            {
                size_t n = 1 + call_size(r);
                Buf<E<T>> b(n);
                size_t got = rd->read(b.data(), n);
                if (got > n || !b.intact())
                    return fail("read of %zu returned %zu", n, got);
                all.insert(all.end(), b.data(), b.data() + got);
                if (got < n)
                    ++end;
            }
            if (all.size() != f.data.size() / el<T>::size || (!all.empty() && memcmp(all.data(), f.data.data(), all.size() * el<T>::size)))
                return fail("%zu elements of %zu bytes read in pieces", all.size(), f.data.size());
            evals(all.size());
            if (f.closed)
                return fail("closed early");
        }
        if (!f.closed)
            return fail("not closed");
    }
    // space runs out
    {
        Faulty f;
        f.seed                   = (unsigned)r.next();
        f.capacity               = r.below(3000);
        cookie_io_functions_t io = { nullptr, faulty_write, nullptr, faulty_close };
        FILE* h                  = fopencookie(&f, "wb", io);
        setvbuf(h, nullptr, _IONBF, 0);
        std::string model;
        size_t total = 0;
        {
            file_handle fh(h);
            file_handle moved(std::move(fh));
            std::shared_ptr<abstract_writer<T>> w = std::make_shared<file_writer<T>>(std::move(moved));
            if (f.closed)
                return fail("closed early");
            for (;;)
            {
                size_t n   = 1 + call_size(r);
                auto v     = random_elements<T>(r, n);
                size_t got = w->write(v.data(), n);
                if (got > n)
                    return fail("write of %zu returned %zu", n, got);
                model.append((const char*)v.data(), n * el<T>::size);
                total += got;
                if (got < n)
                    break;
            }
        }
        if (!f.closed)
            return fail("not closed");
        if (total != f.data.size() / el<T>::size)
            return fail("%zu elements told, %zu bytes taken", total, f.data.size());
        if (model.compare(0, f.data.size(), f.data))
            return fail("other bytes were written");
        evals(total);
    }
}

// ---------------------------------------------------------------------------- adapters

template <typename From, typename To>
static void adapters(Rng& r)
{
    std::string path = dir + "/adapter.bin", model;
    constexpr size_t unit = std::max(el<From>::size, el<To>::size) / el<To>::size; // whole elements of both
    {
        std::shared_ptr<abstract_writer<From>> w = open_file_for_writing<From>(path);
        writer_adapter<From, To> a(std::move(w));
        for (int k = (int)r.below(20); k > 0; --k)
        {
            size_t n   = call_size(r) * unit;
            auto v     = random_elements<To>(r, n);
            size_t got = static_cast<abstract_writer<To>&>(a).write(v.data(), n);
            if (got != n)
                return fail("adapter %zu to %zu: write of %zu returned %zu", el<From>::size, el<To>::size, n, got);
            model.append((const char*)v.data(), n * el<To>::size);
            if (a.tell() != (imax)model.size())
                return fail("adapter %zu to %zu: tell()", el<From>::size, el<To>::size);
            evals(1);
        }
    }
    if (!compare("adapter", contents(path), model))
        return;
    std::shared_ptr<abstract_reader<From>> f = open_file_for_reading<From>(path);
    reader_adapter<From, To> a(std::move(f));
    size_t pos = 0;
    for (int k = 0; k < 30; ++k)
    {
        size_t n = call_size(r) * unit;
        Buf<E<To>> b(n);
        size_t got  = static_cast<abstract_reader<To>&>(a).read(b.data(), n);
        size_t want = std::min(n, (model.size() - pos) / el<To>::size);
        if (!b.intact())
            return fail("adapter %zu to %zu: wrote outside the buffer", el<From>::size, el<To>::size);
        if (got != want)
            return fail("adapter %zu to %zu: read of %zu returned %zu instead of %zu", el<From>::size, el<To>::size, n, got, want);
        if (got && memcmp(b.data(), model.data() + pos, got * el<To>::size))
            return fail("adapter %zu to %zu: wrong elements", el<From>::size, el<To>::size);
        pos += got * el<To>::size;
        if (r.chance(0.2))
        {
            pos = r.below(model.size() / (unit * el<To>::size) + 1) * unit * el<To>::size;
            if (!a.seek((imax)pos, seek_origin::begin))
                return fail("adapter: seek refused");
        }
        evals(1), seen(pos * 1000 + n);
    }
}

template <typename T>
static void type(const char* name, size_t n)
{
    for (size_t k = 0; k < n; ++k)
    {
        if (begin("%s/history k=%zu", name, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 4; ++i)
                history<T>(r);
        }
        if (begin("%s/faults k=%zu", name, k))
        {
            Rng r = case_rng();
            for (int i = 0; i < 4; ++i)
                faults<T>(r);
        }
    }
}

int main(int argc, char** argv)
{
    init(argc, argv);
    dir      = scratch_dir();
    size_t n = thorough() ? 3000 : 200;
    type<void>("bytes", n), type<u8>("u8", n), type<i16>("i16", n), type<f32>("f32", n), type<f64>("f64", n), type<kfr::complex<f64>>("c128", n);
    for (size_t k = 0; k < n; ++k)
        if (begin("adapters k=%zu", k))
        {
            Rng r = case_rng();
            adapters<void, f32>(r), adapters<u8, f32>(r), adapters<f32, u8>(r), adapters<f32, void>(r), adapters<i16, f64>(r), adapters<f64, i16>(r), adapters<i32, f32>(r), adapters<u8, kfr::complex<f64>>(r);
        }
    return done();
}
