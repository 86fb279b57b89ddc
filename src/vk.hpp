// Common part of every monitor binary: case bookkeeping, random inputs, reporting.
// Deliberately independent of kfr: nothing here may be affected by a change in /repo.
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

#ifndef VK_SAN
#define VK_SAN "none"
#endif
#ifndef VK_ARCH
#define VK_ARCH "?"
#endif

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VK_SANITIZED 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif

namespace vk
{
using u64 = uint64_t;
using i64 = int64_t;
using ld  = long double;

inline u64 splitmix(u64& s)
{
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 0x100000001b3ull;
    u64 t = h;
    return splitmix(t);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { return splitmix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); } // inclusive
    double unit() { return (next() >> 11) * 0x1p-53; } // [0,1)
    double sym() { return unit() * 2 - 1; } // [-1,1)
    double normal()
    {
        double u = unit(), v = unit();
        return std::sqrt(-2 * std::log(1 - u)) * std::cos(6.283185307179586 * v);
    }
    bool chance(double p) { return unit() < p; }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
};

struct State
{
    u64 seed      = 1;
    bool thorough = false;
    u64 shard = 0, nshards = 1;
    std::string only, hashes, scratch;
    std::map<std::string, std::string> opt;
    u64 index = 0;
    char cur[512];
    std::map<std::string, i64> stats;
    std::unordered_set<u64> distinct;
    std::map<std::string, int> viols;
    int nviol    = 0;
    int nsamples = 0;
    std::atomic<u64> beat{ 0 };
    std::atomic<int> limit{ 0 };
};
inline State& st()
{
    static State* s = new State;
    return *s;
}

inline void flush_stats()
{
    for (auto& p : st().stats)
        printf("@STAT %s %lld\n", p.first.c_str(), (long long)p.second);
    st().stats.clear();
    fflush(stdout);
    if (!st().hashes.empty())
    {
        if (FILE* f = fopen(st().hashes.c_str(), "wb"))
        {
            for (u64 h : st().distinct)
                fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
}
inline void crash_note(const char* what)
{
    static std::atomic<bool> once{ false };
    if (once.exchange(true))
        return;
    printf("\n@CRASH %s\t%s\n", st().cur, what);
    flush_stats();
}
inline void death_cb() { crash_note("sanitizer report"); }
inline void on_signal(int sig)
{
    static char b[64];
    snprintf(b, sizeof b, "signal %d", sig);
    crash_note(b);
    _exit(98);
}
inline void on_terminate()
{
    const char* what = "uncaught exception";
    static std::string w;
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (std::exception& x)
        {
            w    = std::string("uncaught exception: ") + x.what();
            what = w.c_str();
        }
        catch (...)
        {
        }
    }
    crash_note(what);
    _exit(98);
}

inline void init(int argc, char** argv)
{
    auto& s = st();
    strcpy(s.cur, "startup");
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val      = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            s.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier")
            s.thorough = val() == "thorough";
        else if (a == "--shard")
            s.shard = strtoull(val().c_str(), 0, 10);
        else if (a == "--nshards")
            s.nshards = strtoull(val().c_str(), 0, 10);
        else if (a == "--only")
            s.only = val();
        else if (a == "--hashes")
            s.hashes = val();
        else if (a == "--scratch")
            s.scratch = val();
        else if (a.size() > 2 && a.substr(0, 2) == "--")
            s.opt[a.substr(2)] = val();
    }
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
#ifdef __AVX512F__
    if (!__builtin_cpu_supports("avx512f") || !__builtin_cpu_supports("avx512bw"))
    {
        printf("@STAT skipped_no_avx512 1\n@DONE\n");
        fflush(stdout);
        _exit(0);
    }
#endif
    std::set_terminate(on_terminate);
#ifdef VK_SANITIZED
    __sanitizer_set_death_callback(death_cb);
    signal(SIGABRT, on_signal);
#else
    for (int sig : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT })
        signal(sig, on_signal);
#endif
}
inline std::string opt(const char* name, const char* def = "")
{
    auto it = st().opt.find(name);
    return it == st().opt.end() ? def : it->second;
}
inline const char* scratch_dir()
{
    mkdir(st().scratch.c_str(), 0777);
    return st().scratch.c_str();
}
inline bool thorough() { return st().thorough; }

inline void stat(const char* name, i64 n = 1) { st().stats[name] += n; }
inline void evals(i64 n = 1) { st().stats["evaluations"] += n; }

/// Start a case. Returns false when this shard (or --only) does not run it.
/// The case is the key of every violation reported until the next one.
__attribute__((format(printf, 1, 2))) inline bool begin(const char* fmt, ...)
{
    auto& s = st();
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    u64 idx = s.index++;
    if (!s.only.empty())
    {
        if (s.only != buf)
            return false;
        if (s.shard != 0)
            return false;
    }
    else if (idx % s.nshards != s.shard)
        return false;
    memcpy(s.cur, buf, sizeof buf);
    s.beat++;
    return true;
}
/// A generator that depends only on the seed and the current case.
inline Rng case_rng(u64 salt = 0) { return Rng(hash_bytes(st().cur, strlen(st().cur), st().seed * 0x9E3779B97F4A7C15ull + salt + 1)); }
inline const char* cur() { return st().cur; }

/// Count one evaluation of the current case; `what` makes it distinct.
inline void seen(u64 h = 0)
{
    evals();
    if (st().distinct.size() < 300000) // counts at least these
        st().distinct.insert(hash_bytes(st().cur, strlen(st().cur), h + 0x51ull));
}

__attribute__((format(printf, 1, 2))) inline void sample(const char* fmt, ...)
{
    if (st().nsamples++ >= 4)
        return;
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char* p = buf; *p; ++p)
        if (*p == '\n')
            *p = ' ';
    printf("@SAMPLE %s\n", buf);
}
__attribute__((format(printf, 1, 2))) inline void fail(const char* fmt, ...)
{
    auto& s = st();
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char* p = buf; *p; ++p)
        if (*p == '\n' || *p == '\t')
            *p = ' ';
    // one report per case is enough, and a bounded number per shard
    if (s.viols[s.cur]++ == 0 && s.nviol++ < 60)
        printf("@VIOL %s\t%s\n", s.cur, buf);
}
inline bool failed() { return st().viols.count(st().cur) != 0; }

/// A watchdog: a case which does not end in `seconds` is a hang.
inline void watchdog(int seconds)
{
    st().limit = seconds;
    std::thread(
        []
        {
            u64 last = st().beat;
            int idle = 0;
            for (;;)
            {
                std::this_thread::sleep_for(std::chrono::seconds(1));
                u64 b = st().beat;
                idle  = b == last ? idle + 1 : 0;
                last  = b;
                if (idle > st().limit)
                {
                    crash_note("the case did not end (hang)");
                    _exit(97);
                }
            }
        })
        .detach();
}

inline int done()
{
    flush_stats();
    printf("@DONE\n");
    fflush(stdout);
    return 0;
}

/// Heap buffer of exactly n elements with red zones: canaries without a sanitizer, ASan does the rest.
template <typename T>
struct Buf
{
    static constexpr size_t pad = 64;
    unsigned char* raw;
    T* p;
    size_t n;
    bool exact;
    explicit Buf(size_t n, unsigned char fill = 0xA5) : n(n)
    {
#ifdef VK_SANITIZED
        // exact allocation: the byte after the last element is a red zone
        raw     = nullptr;
        void* q = nullptr;
        if (posix_memalign(&q, 64, n * sizeof(T) ? n * sizeof(T) : 1))
            abort();
        p = (T*)q;
        memset((void*)p, fill, n * sizeof(T));
#else
        void* q = nullptr;
        if (posix_memalign(&q, 64, n * sizeof(T) + 2 * pad))
            abort();
        raw = (unsigned char*)q;
        memset(raw, 0xC3, n * sizeof(T) + 2 * pad);
        p = (T*)(raw + pad);
        memset((void*)p, fill, n * sizeof(T));
#endif
    }
    Buf(const Buf&) = delete;
    ~Buf() { free(raw ? (void*)raw : (void*)p); }
    T& operator[](size_t i) { return p[i]; }
    const T& operator[](size_t i) const { return p[i]; }
    T* data() { return p; }
    /// true if nothing outside [0, n) was written
    bool intact() const
    {
        if (!raw)
            return true;
        for (size_t i = 0; i < pad; ++i)
            if (raw[i] != 0xC3 || raw[pad + n * sizeof(T) + i] != 0xC3)
                return false;
        return true;
    }
};

template <typename T>
constexpr ld eps()
{
    return (ld)std::numeric_limits<T>::epsilon();
}
} // namespace vk
