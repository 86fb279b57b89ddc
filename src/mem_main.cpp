// C30: aligned blocks: alignment, overlap, contents, reallocation, last owner, owners on several threads, owners in the library.
#include "vk.hpp"
#include <kfr/base.hpp>
#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <unordered_set>
using namespace kfr;
using namespace vk;
namespace cd = cometa::details;

static size_t live_blocks()
{
    auto& m = cd::get_memory_statistics();
    return m.allocation_count - m.deallocation_count;
}
static size_t live_bytes()
{
    auto& m = cd::get_memory_statistics();
    return m.allocation_size - m.deallocation_size;
}

// ---- histories of one thread --------------------------------------------------------------------------------
struct Block
{
    unsigned char* p;
    size_t size, align;
    unsigned tag;
    int refs;
};
static unsigned char at(const Block& b, size_t i) { return (unsigned char)(b.tag * 37 + i * 11 + (i >> 8) * 3); }

struct History
{
    Rng& r;
    std::vector<Block> live;
    std::map<uintptr_t, uintptr_t> spans; // of live blocks
    unsigned tags = 0;

    void put(Block& b)
    {
        for (size_t i = 0; i < b.size; ++i)
            b.p[i] = at(b, i);
    }
    bool holds(const Block& b, const char* when, size_t upto)
    {
        for (size_t i = 0; i < upto; ++i)
            if (b.p[i] != at(b, i))
                return fail("byte %zu of a block of %zu bytes aligned to %zu changed %s", i, b.size, b.align, when), false;
        return true;
    }
    void enter(const Block& b)
    {
        uintptr_t f = (uintptr_t)b.p, l = f + (b.size ? b.size : 1);
        if (f % b.align)
            fail("block of %zu bytes at %p is not aligned to %zu", b.size, (void*)b.p, b.align);
        auto it = spans.lower_bound(f);
        if (it != spans.end() && it->first < l)
            fail("block of %zu bytes overlaps a live one above it", b.size);
        if (it != spans.begin() && std::prev(it)->second > f)
            fail("block of %zu bytes overlaps a live one below it", b.size);
        spans[f] = l;
        if (cd::aligned_size(b.p) != b.size)
            fail("aligned_size() is %zu instead of %zu", cd::aligned_size(b.p), b.size);
    }
    void leave(const Block& b) { spans.erase((uintptr_t)b.p); }
    size_t rsize() { return r.chance(0.1) ? r.below(3) : r.chance(0.1) ? 1 + r.below(200000) : 1 + r.below(r.chance(0.5) ? 100 : 5000); }

    void step()
    {
        size_t what = live.empty() ? 0 : r.below(12);
        if (live.size() > 40)
            what = 9;
        if (what < 4)
        {
            Block b{ nullptr, rsize(), (size_t)1 << r.below(16), tags++, 1 };
            size_t n = live_blocks(), by = live_bytes();
            b.p      = (unsigned char*)cd::aligned_malloc(b.size, b.align);
            if (!b.p)
                return fail("no block of %zu bytes aligned to %zu", b.size, b.align);
            if (live_blocks() != n + 1 || live_bytes() != by + b.size)
                fail("a block of %zu bytes was counted as %zu blocks, %zu bytes", b.size, live_blocks() - n, live_bytes() - by);
            enter(b), put(b), live.push_back(b);
            return;
        }
        size_t i = r.below(live.size());
        Block& b = live[i];
        if (!holds(b, "while other blocks were used", b.size))
            put(b);
        if (what < 6)
        {
            size_t ns = rsize(), al = r.chance(0.5) ? b.align : (size_t)1 << r.below(16), old = b.size;
            bool shared = b.refs > 1;
            Block was   = b;
            if (!shared)
                leave(b);
            auto* np = (unsigned char*)cd::aligned_reallocate(b.p, ns, al);
            if (shared)
            {
                // the other owners keep the old block
                if (!holds(was, "when one of its owners reallocated it", was.size))
                    put(was);
                --b.refs;
                if (!ns)
                    return;
                Block nb{ np, ns, al, was.tag, 1 };
                if (!np)
                    return fail("reallocation failed");
                if (np == was.p)
                    return fail("a shared block was reallocated in place");
                enter(nb), holds(nb, "by reallocation", std::min(old, ns));
                nb.tag = tags++;
                put(nb), live.push_back(nb);
                return;
            }
            if (!ns)
            {
                if (np)
                    fail("reallocation to no bytes gave a block");
                live.erase(live.begin() + i);
                return;
            }
            if (!np)
                return fail("reallocation to %zu bytes failed", ns), (void)live.erase(live.begin() + i);
            b.p = np, b.size = ns, b.align = al;
            enter(b), holds(b, "by reallocation", std::min(old, ns)), put(b);
        }
        else if (what < 8)
            cd::aligned_add_ref(b.p), ++b.refs;
        else
        {
            size_t n = live_blocks(), by = live_bytes();
            bool last = b.refs == 1;
            if (last)
                leave(b);
            r.chance(0.5) ? cd::aligned_free(b.p) : cd::aligned_release(b.p);
            if (live_blocks() != n - last || live_bytes() != by - (last ? b.size : 0))
                fail("release by %s owner: %zu blocks and %zu bytes were freed", last ? "the last" : "one", n - live_blocks(), by - live_bytes());
            if (last)
                live.erase(live.begin() + i);
            else
                --b.refs, holds(b, "when one of its owners released it", b.size);
        }
    }
    void finish()
    {
        for (auto& b : live)
            for (; b.refs > 0; --b.refs)
                holds(b, "while other blocks were released", b.size), cd::aligned_release(b.p);
    }
};

// ---- objects of any type ------------------------------------------------------------------------------------
template <size_t Align, size_t Size>
struct alignas(Align) Item
{
    unsigned char bytes[Size];
};

template <typename T, typename P>
static void aligned_for(const char* what, P* p, size_t n)
{
    if ((uintptr_t)p % alignof(T) || (uintptr_t)p % 64)
        fail("%s of %zu elements of %zu bytes aligned to %zu is at %p", what, n, sizeof(T), alignof(T), (void*)p);
}

template <typename T>
static void typed(Rng& r)
{
    size_t n = r.below(r.chance(0.3) ? 3 : 70);
    {
        T* p = aligned_allocate<T>(n);
        aligned_for<T>("aligned_allocate()", p, n);
        std::memset((void*)p, 1, n * sizeof(T));
        aligned_deallocate(p);
        size_t al = std::max<size_t>(alignof(T), (size_t)1 << r.below(14));
        p         = aligned_allocate<T>(n, al);
        if ((uintptr_t)p % al)
            fail("aligned_allocate(%zu, %zu) gave %p", n, al, (void*)p);
        std::memset((void*)p, 1, n * sizeof(T));
        aligned_deallocate(p);
    }
    {
        autofree<T> a(n), b, c(r.below(10));
        aligned_for<T>("autofree", a.data(), n);
        std::memset((void*)a.data(), 2, n * sizeof(T));
        T* was = a.data();
        b      = std::move(a);
        c      = std::move(b);
        autofree<T> d(std::move(c));
        if (d.data() != was || a.data() || b.data() || c.data())
            fail("autofree was not moved");
    }
    {
        data_allocator<T> al;
        T* p = al.allocate(n);
        aligned_for<T>("data_allocator", p, n);
        std::memset((void*)p, 3, n * sizeof(T));
        al.deallocate(p, n);
    }
    if (n)
    {
        univector<T> v(n), w;
        aligned_for<T>("univector", v.data(), n);
        w = v;
        aligned_for<T>("copied univector", w.data(), n);
        w.resize(n * 3 + 1);
        aligned_for<T>("grown univector", w.data(), w.size());
        v = std::move(w);
        if (v.size() != n * 3 + 1)
            fail("univector was not moved");
    }
    if (n)
    {
        tensor<T, 1> t(shape<1>{ n });
        aligned_for<T>("tensor", t.data(), n);
        tensor<T, 1> u = t;
        t              = tensor<T, 1>(shape<1>{ n + 1 });
        std::memset((void*)u.data(), 4, n * sizeof(T));
        aligned_for<T>("tensor", t.data(), n + 1);
    }
    {
        size_t huge = SIZE_MAX / sizeof(T);
        for (size_t k : { huge, huge - 1, huge + 1, huge + 2, huge / 2 + 1, SIZE_MAX, SIZE_MAX - 1, ((size_t)1 << 63) + r.below(100) })
        {
            if (k <= ((size_t)1 << 50)) // SIZE_MAX + 1
                continue;
            if (T* p = aligned_allocate<T>(k))
            {
                fail("%zu elements of %zu bytes were allocated", k, sizeof(T));
                aligned_deallocate(p);
            }
            bool thrown = false;
            try
            {
                data_allocator<T> al;
                al.deallocate(al.allocate(k), k);
            }
            catch (std::bad_alloc&)
            {
                thrown = true;
            }
            if (!thrown)
                fail("data_allocator gave %zu elements of %zu bytes", k, sizeof(T));
        }
    }
}

struct Plain : aligned_new
{
    char c[17];
};
struct alignas(256) Wide : aligned_new
{
    double d[40];
};
struct Base : aligned_new
{
    virtual ~Base() {}
    int x = 1;
};
struct alignas(128) Derived : Base
{
    ~Derived() override { x = 0; }
    char c[300];
};
static void objects(Rng& r)
{
    std::vector<std::unique_ptr<Plain>> a;
    std::vector<std::unique_ptr<Wide>> b;
    std::vector<std::unique_ptr<Base>> c;
    for (size_t i = 0; i < 1 + r.below(8); ++i)
    {
        a.emplace_back(new Plain), b.emplace_back(new Wide), c.emplace_back(r.chance(0.5) ? new Derived : new Base);
        if ((uintptr_t)a.back().get() % 64 || (uintptr_t)b.back().get() % 256)
            fail("aligned_new object is not aligned");
        if (auto* d = dynamic_cast<Derived*>(c.back().get()))
            if ((uintptr_t)d % 128)
                fail("derived aligned_new object is not aligned");
    }
}

template <size_t Stack, typename T>
static void temp_buffer(Rng& r)
{
    size_t live = live_blocks();
    for (size_t n : { size_t(0), size_t(1), Stack - 1, Stack, Stack + 1, Stack + 2, 2 * Stack, r.below(3 * Stack), 5 * Stack + r.below(99) })
    {
        size_t calls = 0;
        call_with_temp<Stack, T>(n, [&](T* p) {
            ++calls;
            if ((uintptr_t)p % 64)
                fail("temporary of %zu elements is at %p", n, (void*)p);
            std::memset((void*)p, 7, n * sizeof(T));
        });
        if (calls != 1)
            fail("the function was called %zu times for %zu elements", calls, n);
        try
        {
            call_with_temp<Stack, T>(n, [&](T* p) {
                std::memset((void*)p, 7, n * sizeof(T));
                throw n;
            });
            fail("an exception did not leave call_with_temp");
        }
        catch (size_t m)
        {
            if (m != n)
                fail("the wrong exception left call_with_temp");
        }
        if (live_blocks() != live)
            return fail("temporary of %zu elements: %zu blocks remain", n, live_blocks() - live);
    }
}

// ---- several threads ----------------------------------------------------------------------------------------
struct Mailbox
{
    std::mutex m;
    std::vector<unsigned char*> v;
};
static std::atomic<size_t> handed{ 0 }, lasts{ 0 };

/// every thread owns references; it reads and writes its own byte of a shared block, passes references on, takes over others
static void owners(size_t threads, size_t rounds, uint64_t seed)
{
    std::vector<Mailbox> box(threads);
    size_t live = live_blocks(), bytes = live_bytes();
    std::atomic<size_t> ready{ 0 }, bad{ 0 };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            Rng r(seed * 31 + t);
            ++ready;
            while (ready < threads)
                std::this_thread::yield();
            std::vector<unsigned char*> mine;
            for (size_t k = 0; k < rounds; ++k)
            {
                size_t w = r.below(8);
                if (mine.empty() && w < 2)
                {
                    size_t n = 64 + r.below(3000), al = (size_t)1 << r.below(10);
                    auto* p  = (unsigned char*)cd::aligned_malloc(n, al);
                    if (r.chance(0.3))
                        p = (unsigned char*)cd::aligned_reallocate(p, n += 256, 64);
                    std::memset(p, 0, n);
                    p[threads] = (unsigned char)n; // known to everyone from now on
                    // one reference for each thread at once, or only mine
                    if (r.chance(0.6))
                    {
                        for (size_t u = 0; u < threads; ++u)
                            if (u != t)
                            {
                                cd::aligned_add_ref(p);
                                std::lock_guard<std::mutex> g(box[u].m);
                                box[u].v.push_back(p), ++handed;
                            }
                    }
                    mine.push_back(p);
                }
                else if (w < 4)
                {
                    std::lock_guard<std::mutex> g(box[t].m);
                    if (!box[t].v.empty())
                        mine.push_back(box[t].v.back()), box[t].v.pop_back();
                }
                if (mine.empty())
                    continue;
                size_t i = r.below(mine.size());
                auto* p  = mine[i];
                if (p[threads] != (unsigned char)cd::aligned_size(p))
                    ++bad;
                p[t] = (unsigned char)(p[t] + 1); // my byte: nobody else touches it
                if (w == 4)
                {
                    cd::aligned_add_ref(p), mine.push_back(p);
                }
                else if (w == 5)
                {
                    size_t u = r.below(threads);
                    cd::aligned_add_ref(p);
                    std::lock_guard<std::mutex> g(box[u].m);
                    box[u].v.push_back(p), ++handed;
                }
                else if (w >= 6)
                {
                    cd::aligned_release(p);
                    mine.erase(mine.begin() + i);
                }
            }
            for (auto* p : mine)
                cd::aligned_release(p);
        });
    for (auto& t : ts)
        t.join();
    for (auto& b : box)
        for (auto* p : b.v)
            cd::aligned_release(p);
    if (bad)
        fail("%zu times a shared block did not hold what was written", bad.load());
    if (live_blocks() != live || live_bytes() != bytes)
        fail("%zd blocks, %zd bytes remain after all owners of %zu threads released them", (ssize_t)(live_blocks() - live), (ssize_t)(live_bytes() - bytes), threads);
}

struct Counted
{
    KFR_CLASS_REFCOUNT(Counted)
public:
    Counted() { ++alive; }
    ~Counted() { --alive; }
    unsigned char bytes[64]{};
    static std::atomic<long> alive;
};
std::atomic<long> Counted::alive{ 0 };

/// all threads let go of the same object at the same moment
static void last_owner(size_t threads, size_t rounds)
{
    size_t live = live_blocks();
    std::vector<unsigned char*> blocks(rounds);
    std::vector<Counted*> objs(rounds);
    std::vector<std::vector<tensor<float, 1>>> ten(threads);
    std::vector<std::vector<std::shared_ptr<univector<float>>>> shared(threads);
    for (size_t i = 0; i < rounds; ++i)
    {
        blocks[i] = (unsigned char*)cd::aligned_malloc(100, 64);
        std::memset(blocks[i], 0, 100);
        objs[i] = new Counted;
        tensor<float, 1> t(shape<1>{ 50 });
        for (size_t k = 0; k < threads; ++k)
        {
            if (k)
                cd::aligned_add_ref(blocks[i]);
            objs[i]->addref();
            ten[k].push_back(t);
        }
    }
    std::atomic<size_t> ready{ 0 };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < threads)
                ;
            for (size_t i = 0; i < rounds; ++i)
            {
                blocks[i][t] = 1;
                cd::aligned_release(blocks[i]);
                objs[i]->bytes[t] = 1;
                objs[i]->release();
                ten[t][i].data()[t] = 1;
                ten[t][i] = tensor<float, 1>();
            }
        });
    for (auto& t : ts)
        t.join();
    if (Counted::alive)
        fail("%ld counted objects of %zu remain", Counted::alive.load(), rounds);
    if (live_blocks() != live)
        fail("%zd blocks of %zu remain after %zu threads released them at once", (ssize_t)(live_blocks() - live), 2 * rounds, threads);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    std::string part = opt("part");
    if (part == "threads")
    {
        size_t n = thorough() ? 1000 : 80;
        for (size_t k = 0; k < n; ++k)
        {
            size_t threads = 2 + k % 7;
            if (!begin("threads=%zu k=%zu", threads, k))
                continue;
            watchdog(120);
            Rng r = case_rng();
            owners(threads, 2500, r.next());
            last_owner(threads, 400);
            evals(2900), seen(k);
        }
        stat("references_handed_over", handed.load());
        return done();
    }
    size_t n = thorough() ? 20000 : 1500;
    for (size_t k = 0; k < n; ++k)
        if (begin("history k=%zu", k))
        {
            Rng r       = case_rng();
            size_t live = live_blocks(), bytes = live_bytes();
            History h{ r };
            for (int i = 0; i < 400; ++i)
                h.step();
            h.finish();
            if (live_blocks() != live || live_bytes() != bytes)
                fail("%zd blocks, %zd bytes remain", (ssize_t)(live_blocks() - live), (ssize_t)(live_bytes() - bytes));
            evals(400), seen(k);
        }
    for (size_t k = 0; k < n; ++k)
        if (begin("types k=%zu", k))
        {
            Rng r       = case_rng();
            size_t live = live_blocks(), bytes = live_bytes();
            typed<u8>(r), typed<i16>(r), typed<float>(r), typed<double>(r), typed<complex<double>>(r), typed<vec<float, 3>>(r), typed<vec<float, 8>>(r);
            typed<vec<double, 8>>(r), typed<vec<double, 16>>(r), typed<vec<double, 32>>(r), typed<Item<1, 3>>(r), typed<Item<128, 128>>(r), typed<Item<512, 1024>>(r), typed<Item<4, 12>>(r);
            objects(r);
            if (live_blocks() != live || live_bytes() != bytes)
                fail("%zd blocks, %zd bytes remain", (ssize_t)(live_blocks() - live), (ssize_t)(live_bytes() - bytes));
            evals(14), seen(k + 100000);
        }
    for (size_t k = 0; k < n / 4; ++k)
        if (begin("temp k=%zu", k))
        {
            Rng r = case_rng();
            temp_buffer<4096, u8>(r), temp_buffer<64, u8>(r), temp_buffer<16, double>(r), temp_buffer<1000, float>(r), temp_buffer<32, complex<float>>(r);
            evals(90), seen(k + 200000);
        }
    if (begin("limits"))
    {
        for (size_t al : { size_t(0), size_t(65536), size_t(1) << 20, SIZE_MAX })
            if (void* p = cd::aligned_malloc(10, al))
                if ((uintptr_t)p % std::max<size_t>(al, 1))
                    fail("alignment %zu was not refused", al);
        for (size_t sz : { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 63, SIZE_MAX - 79, SIZE_MAX - 80, SIZE_MAX - 1000, SIZE_MAX - 32768, SIZE_MAX / 2 + 1 })
            for (size_t al : { size_t(1), size_t(16), size_t(64), size_t(4096), size_t(32768) })
            {
                size_t live = live_blocks(), by = live_bytes();
                if (cd::aligned_malloc(sz, al))
                    fail("%zu bytes were allocated", sz);
                auto* p = (unsigned char*)cd::aligned_malloc(77, al);
                std::memset(p, 9, 77);
                if (cd::aligned_reallocate(p, sz, al))
                    fail("%zu bytes were allocated", sz);
                for (int i = 0; i < 77; ++i)
                    if (p[i] != 9)
                        fail("a failed reallocation changed the block");
                cd::aligned_release(p);
                if (live_blocks() != live || live_bytes() != by)
                    fail("a failed allocation of %zu bytes was counted", sz);
            }
        if (cd::aligned_reallocate(nullptr, 0, 64))
            fail("reallocation of nothing to nothing gave a block");
        if (void* p = cd::aligned_reallocate(nullptr, 10, 64))
            cd::aligned_release(p);
        else
            fail("reallocation of nothing failed");
    }
    return done();
}
