// C33: ring buffers against one-by-one transfer; the lock-free queue under one and two threads.
// With -DVK_SHIM the queue is compiled with an atomic type whose fences ThreadSanitizer understands (see below).
#include "vk.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <complex>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <shared_mutex>
#include <sstream>
#include <thread>
#include <tuple>
#include <vector>
#ifdef VK_SHIM
#include <sanitizer/tsan_interface.h>
#define VK_NOTSAN __attribute__((no_sanitize("thread"), noinline))
// ThreadSanitizer does not know atomic_thread_fence. This atomic does what the C++ standard says of fences: every store
// carries the clock its thread had at its last release fence (or now, for a release store), every load remembers that
// clock for the next acquire fence (or takes it now, for an acquire load). So a missing or misplaced fence is reported
// whatever the hardware and the compiler made of it.
namespace vkatomic
{
struct Clock // address of a ThreadSanitizer synchronisation object
{
    static constexpr size_t count = 1 << 14;
    char* at;
    size_t next = 0;
    char* fence = nullptr; // clock of the last release fence of this thread
    std::vector<char*> seen; // clocks of relaxed loads since the last acquire fence
    Clock() : at(new char[count * 8]) {}
    ~Clock() { delete[] at; }
    VK_NOTSAN char* fresh() { return at + 8 * (next++ % count); }
};
struct Record
{
    uint64_t value;
    char* clock;
};
// records and clocks live as long as the process: the shim is used in short bursts
static thread_local Clock* my_clock;
static thread_local Record* my_records;
static thread_local size_t my_record = 0, my_ops = 0, my_seed = 0;
static std::mutex keep_lock;
static std::vector<Clock*> keep_clocks;
static std::vector<Record*> keep_records;
static constexpr size_t records_per_block = 1 << 14;
static std::atomic<size_t> fences{ 0 }, stores{ 0 }, loads{ 0 };

VK_NOTSAN inline Clock& clock()
{
    if (!my_clock)
    {
        my_clock = new Clock;
        std::lock_guard<std::mutex> g(keep_lock);
        keep_clocks.push_back(my_clock);
    }
    return *my_clock;
}
VK_NOTSAN inline Record* record(uint64_t v, char* c)
{
    if (!my_records || my_record == records_per_block)
    {
        my_records = new Record[records_per_block];
        my_record  = 0;
        std::lock_guard<std::mutex> g(keep_lock);
        keep_records.push_back(my_records);
    }
    Record* r = &my_records[my_record++];
    r->value = v, r->clock = c;
    return r;
}
VK_NOTSAN inline void jitter()
{
    if (my_seed)
    {
        my_seed = my_seed * 6364136223846793005ull + 1442695040888963407ull;
        size_t k = my_seed >> 58;
        if (k == 0)
            std::this_thread::yield();
        else if (k == 1)
            for (volatile int i = 0; i < 300; i = i + 1)
                ;
    }
}
inline bool acq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }

VK_NOTSAN inline void fence(std::memory_order o)
{
    jitter();
    fences.fetch_add(1, std::memory_order_relaxed);
    Clock& c = clock();
    if (acq(o))
    {
        for (char* p : c.seen)
            __tsan_acquire(p);
        c.seen.clear();
    }
    if (rel(o))
    {
        c.fence = c.fresh();
        __tsan_release(c.fence);
    }
    jitter();
}
// plain accesses of the processor (x86): the compiler's atomics would be seen, and taken for synchronisation, by ThreadSanitizer
VK_NOTSAN inline Record* peek(Record* const* p)
{
    Record* r;
    asm volatile("movq %1, %0" : "=r"(r) : "m"(*p) : "memory");
    return r;
}
VK_NOTSAN inline void poke(Record** p, Record* r) { asm volatile("movq %1, %0" : "=m"(*p) : "r"(r) : "memory"); }
VK_NOTSAN inline bool swap_if(Record** p, Record*& e, Record* r)
{
    Record* was = e;
    asm volatile("lock cmpxchgq %2, %1" : "+a"(e), "+m"(*p) : "r"(r) : "memory");
    return e == was;
}
template <typename T>
class Atomic
{
    static_assert(sizeof(T) <= 8 && std::is_trivially_copyable<T>::value, "");
    Record first;
    Record* cur;

    VK_NOTSAN static uint64_t enc(T v)
    {
        uint64_t r = 0;
        *(T __attribute__((may_alias))*)&r = v;
        return r;
    }
    VK_NOTSAN static T dec(uint64_t v)
    {
        return *(T __attribute__((may_alias))*)&v;
    }
    VK_NOTSAN void sync(Record* r, std::memory_order o) const
    {
        char* k = r->clock;
        if (!k)
            return;
        if (acq(o))
            __tsan_acquire(k);
        else
        {
            Clock& c = clock();
            if (c.seen.empty() || c.seen.back() != k)
                c.seen.push_back(k);
            if (c.seen.size() > 4096) // older clocks of this thread's past: drop, keeps the monitor silent longer at worst
                c.seen.erase(c.seen.begin(), c.seen.begin() + 2048);
        }
    }
    VK_NOTSAN char* publish(std::memory_order o) const
    {
        Clock& c = clock();
        if (rel(o))
        {
            char* p = c.fresh();
            __tsan_release(p);
            return p;
        }
        return c.fence;
    }

public:
    using value_type = T;
    VK_NOTSAN Atomic() noexcept : first{ 0, nullptr }, cur(&first) {}
    VK_NOTSAN Atomic(T v) noexcept : first{ enc(v), nullptr }, cur(&first) {}
    Atomic(const Atomic&)            = delete;
    Atomic& operator=(const Atomic&) = delete;
    VK_NOTSAN T load(std::memory_order o = std::memory_order_seq_cst) const
    {
        jitter();
        loads.fetch_add(1, std::memory_order_relaxed);
        Record* r = peek(&cur);
        sync(r, o);
        T v = dec(r->value);
        jitter();
        return v;
    }
    VK_NOTSAN void store(T v, std::memory_order o = std::memory_order_seq_cst)
    {
        jitter();
        stores.fetch_add(1, std::memory_order_relaxed);
        poke(&cur, record(enc(v), publish(o)));
        jitter();
    }
    VK_NOTSAN bool compare_exchange_strong(T& e, T v, std::memory_order o = std::memory_order_seq_cst)
    {
        Record* r = peek(&cur);
        for (;;)
        {
            sync(r, o);
            if (r->value != enc(e))
                return e = dec(r->value), false;
            if (swap_if(&cur, r, record(enc(v), publish(o))))
                return true;
        }
    }
    bool compare_exchange_strong(T& e, T v, std::memory_order o, std::memory_order) { return compare_exchange_strong(e, v, o); }
    bool compare_exchange_weak(T& e, T v, std::memory_order o = std::memory_order_seq_cst) { return compare_exchange_strong(e, v, o); }
    bool compare_exchange_weak(T& e, T v, std::memory_order o, std::memory_order) { return compare_exchange_strong(e, v, o); }
    VK_NOTSAN T fetch_add(T d, std::memory_order o = std::memory_order_seq_cst)
    {
        T e = load(std::memory_order_relaxed);
        while (!compare_exchange_strong(e, (T)(e + d), o))
            ;
        return e;
    }
    T fetch_sub(T d, std::memory_order o = std::memory_order_seq_cst) { return fetch_add((T)(0 - d), o); }
    VK_NOTSAN T exchange(T v, std::memory_order o = std::memory_order_seq_cst)
    {
        T e = load(std::memory_order_relaxed);
        while (!compare_exchange_strong(e, v, o))
            ;
        return e;
    }
    operator T() const { return load(); }
    T operator=(T v) { return store(v), v; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return fetch_add(d) + d; }
    T operator-=(T d) { return fetch_sub(d) - d; }
};
} // namespace vkatomic
namespace std
{
template <typename T>
using vk_atomic = vkatomic::Atomic<T>;
using vk_atomic_size_t = vkatomic::Atomic<size_t>;
using vk_atomic_uintptr_t = vkatomic::Atomic<uintptr_t>;
using vk_atomic_uint = vkatomic::Atomic<unsigned>;
inline void vk_atomic_thread_fence(std::memory_order o) { vkatomic::fence(o); }
} // namespace std
#include <kfr/cometa/memory.hpp>
#include <kfr/base/handle.hpp>
#include <kfr/base/memory.hpp>
#define atomic vk_atomic
#define atomic_size_t vk_atomic_size_t
#define atomic_uintptr_t vk_atomic_uintptr_t
#define atomic_uint vk_atomic_uint
#define atomic_thread_fence vk_atomic_thread_fence
#include <kfr/base/univector.hpp>
#undef atomic
#undef atomic_size_t
#undef atomic_uintptr_t
#undef atomic_uint
#undef atomic_thread_fence
#else
#include <kfr/base.hpp>
#endif
using namespace kfr;
using namespace vk;

// ---- ring buffers -------------------------------------------------------------------------------------------
template <typename T>
static T element(Rng& r) { return (T)(long)(r.next() >> 44); }

template <typename T>
struct Model
{
    std::vector<T> data;
    void write(size_t& c, const T* p, size_t n)
    {
        for (size_t i = 0; i < n; ++i)
            data[c] = p[i], c = c + 1 == data.size() ? 0 : c + 1;
    }
    void read(size_t& c, T* p, size_t n) const
    {
        for (size_t i = 0; i < n; ++i)
            p[i] = data[c], c = c + 1 == data.size() ? 0 : c + 1;
    }
};

template <typename T, size_t N, typename V>
static void vec_ops(V& v, Model<T>& m, size_t& w, size_t& mw, size_t& rd, size_t& mrd, Rng& r)
{
    vec<T, N> x;
    for (size_t i = 0; i < N; ++i)
        x[i] = element<T>(r);
    T tmp[N];
    for (size_t i = 0; i < N; ++i)
        tmp[i] = x[i];
    if (r.chance(0.5))
    {
        v.ringbuf_write(w, x), m.write(mw, tmp, N);
        if (w != mw)
            fail("writing a vector of %zu elements to a ring of %zu: cursor %zu instead of %zu", N, m.data.size(), w, mw), w = mw;
    }
    else
    {
        v.ringbuf_read(rd, x), m.read(mrd, tmp, N);
        if (rd != mrd)
            fail("reading a vector of %zu elements from a ring of %zu: cursor %zu instead of %zu", N, m.data.size(), rd, mrd), rd = mrd;
        for (size_t i = 0; i < N; ++i)
            if (x[i] != tmp[i])
                return fail("reading a vector of %zu elements from a ring of %zu: element %zu differs", N, m.data.size(), i);
    }
}

template <typename T, typename V>
static void ring(V& v, Rng& r, bool large)
{
    const size_t size = v.size();
    Model<T> m;
    m.data.resize(size);
    for (size_t i = 0; i < size; ++i)
        v[i] = m.data[i] = element<T>(r);
    size_t w = r.below(size), mw = w, rd = r.below(size), mrd = rd;
    for (int step = 0; step < 60; ++step)
    {
        size_t n = r.chance(0.2) ? size : r.chance(0.3) ? size - std::min<size_t>(size, r.below(3)) : r.chance(0.3) ? size + r.below(3) : r.below(large ? 3 * size + 5 : size + 1);
        switch (r.below(7))
        {
        case 0:
        case 1:
        {
            Buf<T> src(n);
            for (size_t i = 0; i < n; ++i)
                src.data()[i] = element<T>(r);
            size_t from = w;
            v.ringbuf_write(w, src.data(), n), m.write(mw, src.data(), n);
            if (w != mw)
                fail("writing %zu elements at %zu to a ring of %zu: cursor %zu instead of %zu", n, from, size, w, mw), w = mw;
            break;
        }
        case 2:
        case 3:
        {
            Buf<T> dst(n);
            std::vector<T> ref(n);
            size_t from = rd;
            std::fill(dst.data(), dst.data() + n, (T)77);
            ((const V&)v).ringbuf_read(rd, dst.data(), n), m.read(mrd, ref.data(), n);
            if (rd != mrd)
                fail("reading %zu elements at %zu from a ring of %zu: cursor %zu instead of %zu", n, from, size, rd, mrd), rd = mrd;
            if (!dst.intact())
                fail("reading %zu elements at %zu from a ring of %zu wrote outside of them", n, from, size);
            for (size_t i = 0; i < n; ++i)
                if (dst.data()[i] != ref[i])
                {
                    fail("reading %zu elements at %zu from a ring of %zu: element %zu differs", n, from, size, i);
                    break;
                }
            break;
        }
        case 4:
        {
            T x = element<T>(r);
            if (r.chance(0.5))
                v.ringbuf_write(w, x), m.write(mw, &x, 1);
            else
            {
                T y;
                v.ringbuf_read(rd, x), m.read(mrd, &y, 1);
                if (x != y)
                    fail("reading one element from a ring of %zu differs", size);
            }
            if (w != mw || rd != mrd)
                fail("one element of a ring of %zu: wrong cursor", size), w = mw, rd = mrd;
            break;
        }
        case 5:
        {
            size_t s = r.below(large ? 3 * size : size + 1), from = w;
            v.ringbuf_step(w, s);
            mw = (mw + s) % size;
            if (w != mw)
                fail("stepping by %zu at %zu in a ring of %zu: cursor %zu instead of %zu", s, from, size, w, mw), w = mw;
            break;
        }
        default:
            switch (r.below(4))
            {
            case 0:
                vec_ops<T, 1>(v, m, w, mw, rd, mrd, r);
                break;
            case 1:
                if (large || size >= 4)
                    vec_ops<T, 4>(v, m, w, mw, rd, mrd, r);
                break;
            case 2:
                if (large || size >= 3)
                    vec_ops<T, 3>(v, m, w, mw, rd, mrd, r);
                break;
            default:
                if (large || size >= 16)
                    vec_ops<T, 16>(v, m, w, mw, rd, mrd, r);
            }
        }
        for (size_t i = 0; i < size; ++i)
            if (v[i] != m.data[i])
            {
                fail("element %zu of a ring of %zu differs after step %d", i, size, step);
                v[i] = m.data[i];
            }
        evals(1);
    }
}

template <typename T, size_t N>
static void fixed_ring(Rng& r)
{
    univector<T, N> v;
    ring<T>(v, r, true);
}
template <typename T>
static void rings(Rng& r)
{
    size_t n = r.chance(0.3) ? 1 + r.below(5) : 1 + r.below(r.chance(0.7) ? 40 : 300);
    univector<T> v(n);
    ring<T>(v, r, true);
    Buf<T> mem(n);
    univector<T, 0> ref = make_univector(mem.data(), n);
    ring<T>(ref, r, true);
    if (!mem.intact())
        fail("a ring of %zu elements was written outside", n);
    fixed_ring<T, 1>(r), fixed_ring<T, 2>(r), fixed_ring<T, 7>(r), fixed_ring<T, 16>(r);
    seen((uint64_t)n);
}

// ---- the queue ----------------------------------------------------------------------------------------------
struct Wide // torn elements show
{
    uint64_t n;
    uint32_t a;
    uint64_t sum;
};
template <typename T>
struct Coder
{
    static T make(uint64_t n) { return (T)n; }
    static bool is(const T& x, uint64_t n) { return x == (T)n; }
};
template <>
struct Coder<Wide>
{
    static Wide make(uint64_t n) { return { n, (uint32_t)(n * 3), ~n }; }
    static bool is(const Wide& x, uint64_t n) { return x.n == n && x.a == (uint32_t)(n * 3) && x.sum == ~n; }
};

template <typename T>
static void queue_history(Rng& r, size_t cap)
{
    lockfree_ring_buffer<T> q;
    univector<T> buf(cap);
    uint64_t in = 0, out = 0;
    for (int step = 0; step < 200; ++step)
    {
        size_t n = r.chance(0.1) ? 0 : r.below(r.chance(0.8) ? cap + 2 : 3 * cap + 3), used = in - out;
        bool partial = r.chance(0.5);
        if (r.chance(0.5))
        {
            Buf<T> src(n);
            for (size_t i = 0; i < n; ++i)
                src.data()[i] = Coder<T>::make(in + i);
            size_t room = cap - used, want = n <= room ? n : partial ? room : 0;
            size_t got  = q.try_enqueue(src.data(), n, buf, partial);
            if (got != want)
                return fail("enqueuing %zu elements%s with room for %zu of %zu reported %zu", n, partial ? " at most" : "", room, cap, got);
            in += got;
        }
        else
        {
            Buf<T> dst(n);
            size_t want = n <= used ? n : partial ? used : 0;
            size_t got  = q.try_dequeue(dst.data(), n, buf, partial);
            if (got != want)
                return fail("dequeuing %zu elements%s of %zu reported %zu", n, partial ? " at most" : "", used, got);
            if (!dst.intact())
                fail("dequeuing %zu elements wrote outside of them", n);
            for (size_t i = 0; i < got; ++i)
                if (!Coder<T>::is(dst.data()[i], out + i))
                    return fail("element %zu of %zu dequeued from a queue of %zu is not number %llu", i, n, cap, (unsigned long long)(out + i));
            out += got;
        }
        if (q.size() != in - out)
            return fail("size() is %zu with %zu elements in the queue", q.size(), (size_t)(in - out));
        evals(1);
    }
}

static std::atomic<uint64_t> t_full{ 0 }, t_empty{ 0 }, t_elems{ 0 }, t_calls{ 0 }, t_switches{ 0 };

/// one producer and one consumer; the values are the numbers 0, 1, 2, ..., so what comes out decides
template <typename T>
static void queue_threads(uint64_t seed, size_t cap, uint64_t total, int style)
{
    lockfree_ring_buffer<T> q;
    univector<T> buf(cap);
    std::atomic<int> ready{ 0 };
    std::atomic<bool> stop{ false };
    std::string perr, cerr_;
    std::atomic<uint64_t> accepted{ 0 };
    auto pause = [](Rng& r, int st) {
        if (st == 1 && r.chance(0.05))
            std::this_thread::yield();
        else if (st == 2 && r.chance(0.02))
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(30)));
    };
    std::thread prod([&] {
        Rng r(seed * 2 + 1);
#ifdef VK_SHIM
        vkatomic::my_seed = seed * 77 + 5;
#endif
        std::vector<T> src(2 * cap + 3);
        uint64_t n = 0, full = 0, calls = 0;
        ++ready;
        while (ready < 2)
            ;
        while (n < total && !stop)
        {
            size_t k     = std::min<uint64_t>(total - n, 1 + r.below(style == 3 ? 1 : r.chance(0.8) ? cap : 2 * cap));
            bool partial = r.chance(0.5);
            for (size_t i = 0; i < k; ++i)
                src[i] = Coder<T>::make(n + i);
            size_t got = q.try_enqueue(src.data(), k, buf, partial);
            ++calls, full += got < k;
            if (got > k || (!partial && got && got != k))
            {
                perr = "enqueued " + std::to_string(got) + " of " + std::to_string(k) + (partial ? " (partial)" : "");
                stop = true;
                break;
            }
            if (q.size() > cap)
                perr = "the producer saw " + std::to_string(q.size()) + " elements in a queue of " + std::to_string(cap), stop = true;
            for (size_t i = 0; i < k; ++i) // the caller's buffer is its own again
                src[i] = Coder<T>::make(~0ull);
            n += got;
            if (!got)
                std::this_thread::yield();
            pause(r, style);
        }
        accepted = n;
        t_full += full, t_calls += calls, t_elems += n;
    });
    std::thread cons([&] {
        Rng r(seed * 2 + 2);
#ifdef VK_SHIM
        vkatomic::my_seed = seed * 91 + 3;
#endif
        std::vector<T> dst(2 * cap + 3);
        uint64_t n = 0, empty = 0, calls = 0;
        ++ready;
        while (ready < 2)
            ;
        auto began = std::chrono::steady_clock::now();
        while (n < total && !stop)
        {
            size_t k     = std::min<uint64_t>(total - n, 1 + r.below(style == 3 ? 1 : r.chance(0.8) ? cap : 2 * cap));
            bool partial = r.chance(0.5);
            size_t got   = q.try_dequeue(dst.data(), k, buf, partial);
            ++calls, empty += got < k;
            if (got > k || (!partial && got && got != k))
                cerr_ = "dequeued " + std::to_string(got) + " of " + std::to_string(k) + (partial ? " (partial)" : ""), stop = true;
            for (size_t i = 0; i < got && !stop; ++i)
                if (!Coder<T>::is(dst[i], n + i))
                    cerr_ = "element " + std::to_string(n + i) + " of " + std::to_string(total) + " was lost, repeated, reordered or torn (" + std::to_string(i) + " of " + std::to_string(got) + " in its call)", stop = true;
            if (q.size() > cap)
                cerr_ = "the consumer saw " + std::to_string(q.size()) + " elements in a queue of " + std::to_string(cap), stop = true;
            n += got;
            if (!got)
            {
                std::this_thread::yield();
                if (calls % 1024 == 0 && std::chrono::steady_clock::now() - began > std::chrono::seconds(60))
                    cerr_ = "only " + std::to_string(n) + " of " + std::to_string(total) + " elements arrived", stop = true;
            }
            pause(r, style);
        }
        t_empty += empty, t_calls += calls;
    });
    prod.join(), cons.join();
    if (!perr.empty())
        fail("%s", perr.c_str());
    if (!cerr_.empty())
        fail("queue of %zu: %s", cap, cerr_.c_str());
    if (perr.empty() && cerr_.empty() && q.size())
        fail("%zu elements remain in the queue", q.size());
    evals(total / 8 + 1);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    std::string part = opt("part");
    if (part == "threads")
    {
#ifdef VK_SHIM
        const size_t cases = thorough() ? 200 : 40;
        const uint64_t total = 12000;
#else
        const size_t cases = thorough() ? 600 : 120;
        const uint64_t total = thorough() ? 2000000 : 200000;
#endif
        const size_t caps[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 256, 1000 };
        for (size_t k = 0; k < cases; ++k)
        {
            size_t cap = caps[k % 13];
            int style  = (int)(k / 13 % 4);
            if (!begin("queue cap=%zu style=%d k=%zu", cap, style, k))
                continue;
            watchdog(200);
            Rng r      = case_rng();
            uint64_t n = cap < 8 || style == 2 ? total / 8 : total;
            switch (r.below(3))
            {
            case 0:
                queue_threads<uint8_t>(r.next(), cap, n, style);
                break;
            case 1:
                queue_threads<double>(r.next(), cap, n, style);
                break;
            default:
                queue_threads<Wide>(r.next(), cap, n, style);
            }
            seen(k);
        }
        stat("elements_passed", t_elems.load()), stat("calls", t_calls.load()), stat("calls_on_full", t_full.load()), stat("calls_on_empty", t_empty.load());
#ifdef VK_SHIM
        stat("fences_modelled", vkatomic::fences.load()), stat("atomic_stores_modelled", vkatomic::stores.load()), stat("atomic_loads_modelled", vkatomic::loads.load());
#endif
        return done();
    }
    size_t n = thorough() ? 3000 : 400;
    for (size_t k = 0; k < n; ++k)
        if (begin("ring k=%zu", k))
        {
            Rng r = case_rng();
            rings<float>(r), rings<double>(r), rings<i16>(r), rings<u8>(r), rings<i64>(r);
        }
    for (size_t k = 0; k < n; ++k)
        if (begin("queue k=%zu", k))
        {
            Rng r      = case_rng();
            size_t cap = k % 50 == 49 ? 0 : 1 + r.below(r.chance(0.5) ? 8 : 200);
            queue_history<uint8_t>(r, cap), queue_history<double>(r, cap), queue_history<Wide>(r, cap);
            seen(cap + 1000);
        }
    return done();
}
