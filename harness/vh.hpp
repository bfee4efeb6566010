// Shared harness framework: exhaustive case enumeration, sharding, replay, reporting.
// It knows nothing about lexy.
#ifndef VH_HPP
#define VH_HPP
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh
{
struct Mismatch
{
    uint64_t    id;
    std::string desc, detail;
};
struct State
{
    uint64_t shard = 0, nshards = 1;
    bool     thorough = false;
    bool     replay   = false;
    uint64_t replay_id = 0;
    uint64_t counter   = 0; // cases enumerated so far
    uint64_t executed  = 0; // cases this process ran
    uint64_t transitions = 0, traces = 0;
    std::unordered_set<uint64_t> outcomes;
    std::vector<Mismatch>        mismatches;
    std::vector<std::string>     samples;
    std::vector<std::string>     known;
    std::vector<std::string>     known_hit;
    volatile uint64_t*           prog = nullptr; // [0] current case + 1, [1] heartbeat
    uint64_t                     dummy[2] = {0, 0};
    std::string                  out;
    int                          hang_s = 30;
    uint64_t                     next_sample = 1;
    const void*                  desc_obj = nullptr;
    std::string (*desc_fn)(const void*)   = nullptr;
    size_t                       max_mismatches = 3;
};
inline State& S()
{
    static State s;
    return s;
}
inline bool thorough()
{
    return S().thorough;
}

inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
inline void outcome(uint64_t h)
{
    if (S().outcomes.size() < 4000000)
        S().outcomes.insert(h);
}
inline void outcome(const std::string& s)
{
    outcome(hash(s));
}
inline void transitions(uint64_t n)
{
    S().transitions += n;
}
inline void traces(uint64_t n)
{
    S().traces += n;
}
inline void beat()
{
    if (S().prog)
        S().prog[1] = S().prog[1] + 1;
}

inline std::string esc(const std::string& s)
{
    std::string r;
    char        buf[16];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        }
        else
            r += char(c);
    }
    return r;
}
inline void write_result()
{
    auto& s = S();
    FILE* f = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
    if (!f)
        _exit(98);
    fprintf(f, "{\"enumerated\":%llu,\"executed\":%llu,\"transitions\":%llu,\"traces\":%llu,"
               "\"outcomes\":%llu,",
            (unsigned long long)s.counter, (unsigned long long)s.executed,
            (unsigned long long)s.transitions, (unsigned long long)s.traces,
            (unsigned long long)s.outcomes.size());
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
    fprintf(f, "],\"known\":[");
    for (size_t i = 0; i < s.known_hit.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.known_hit[i]).c_str());
    fprintf(f, "],\"mismatches\":[");
    for (size_t i = 0; i < s.mismatches.size(); ++i)
        fprintf(f, "%s{\"id\":%llu,\"desc\":\"%s\",\"detail\":\"%s\"}", i ? "," : "",
                (unsigned long long)s.mismatches[i].id, esc(s.mismatches[i].desc).c_str(),
                esc(s.mismatches[i].detail).c_str());
    fprintf(f, "]}\n");
    fflush(f);
    if (f != stdout)
        fclose(f);
}
} // namespace vh
extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // only when built for coverage
namespace vh
{
[[noreturn]] inline void finish()
{
    write_result();
    if (__llvm_profile_write_file)
        __llvm_profile_write_file();
    _exit(S().mismatches.empty() ? 0 : 10);
}

inline std::string cur_desc()
{
    return S().desc_fn ? S().desc_fn(S().desc_obj) : std::string();
}
// Record a mismatch for the current case.
inline void fail(const std::string& detail)
{
    auto& s    = S();
    auto  desc = cur_desc();
    for (auto& k : s.known)
        if (desc == k)
        {
            for (auto& h : s.known_hit)
                if (h == k)
                    return;
            s.known_hit.push_back(k);
            return;
        }
    if (!s.mismatches.empty() && s.mismatches.back().id == s.counter - 1)
        return; // one per case
    s.mismatches.push_back({s.counter - 1, desc, detail.substr(0, 4000)});
    if (s.mismatches.size() >= s.max_mismatches)
        finish();
}
inline void eq(const char* what, const std::string& expected, const std::string& actual)
{
    if (expected != actual)
        fail(std::string(what) + ": expected " + expected + " actual " + actual);
}
inline void check(bool b, const char* what)
{
    if (!b)
        fail(what);
}

// One case of the enumeration.  Desc: () -> std::string, Body: () -> void.
template <typename Desc, typename Body>
inline void step(Desc&& desc, Body&& body)
{
    auto& s  = S();
    auto  id = s.counter++;
    if (s.replay ? id != s.replay_id : id % s.nshards != s.shard)
        return;
    s.prog[0] = id + 1;
    s.prog[1] = s.prog[1] + 1;
    using D    = std::remove_reference_t<Desc>;
    s.desc_obj = static_cast<const void*>(&desc);
    s.desc_fn  = [](const void* p) -> std::string { return (*static_cast<const D*>(p))(); };
    if (s.replay)
    {
        fprintf(stderr, "CASE %llu: %s\n", (unsigned long long)id, cur_desc().c_str());
        fflush(stderr);
    }
    ++s.executed;
    if (s.executed == s.next_sample && s.samples.size() < 6)
    {
        s.samples.push_back(cur_desc());
        s.next_sample = s.next_sample * 7 + 1;
    }
    body();
    s.desc_fn = nullptr;
    if (s.replay)
        finish();
}

inline void watchdog()
{
    auto last = S().prog[1];
    int  same = 0;
    while (true)
    {
        std::this_thread::sleep_for(std::chrono::seconds(1));
        auto cur = S().prog[1];
        if (cur == last)
        {
            if (++same >= S().hang_s)
            {
                fprintf(stderr, "HANG\n");
                _exit(97);
            }
        }
        else
            same = 0;
        last = cur;
    }
}

// Block of memory that ends (or starts) exactly at an inaccessible page.
struct Guard
{
    char*  base = nullptr;
    size_t pages = 0;
    explicit Guard(size_t bytes = 1 << 16)
    {
        pages = (bytes + 4095) / 4096;
        base  = static_cast<char*>(mmap(nullptr, (pages + 2) * 4096, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED)
            _exit(98);
        mprotect(base, 4096, PROT_NONE);
        mprotect(base + (pages + 1) * 4096, 4096, PROT_NONE);
    }
    ~Guard()
    {
        munmap(base, (pages + 2) * 4096);
    }
    Guard(const Guard&)            = delete;
    Guard& operator=(const Guard&) = delete;
    // memory of n bytes whose end touches the trailing guard page
    template <typename T = char>
    T* tail(size_t n)
    {
        return reinterpret_cast<T*>(base + (pages + 1) * 4096) - n;
    }
    char* head()
    {
        return base + 4096;
    }
};

inline int main_impl(int argc, char** argv, void (*run)())
{
    auto&       s = S();
    std::string prog, known;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard")
        {
            auto v    = next();
            s.shard   = strtoull(v.c_str(), nullptr, 10);
            s.nshards = strtoull(v.c_str() + v.find('/') + 1, nullptr, 10);
        }
        else if (a == "--tier")
            s.thorough = next() == "thorough";
        else if (a == "--case")
        {
            s.replay    = true;
            s.replay_id = strtoull(next().c_str(), nullptr, 10);
        }
        else if (a == "--out")
            s.out = next();
        else if (a == "--prog")
            prog = next();
        else if (a == "--known")
            known = next();
        else if (a == "--hang")
            s.hang_s = atoi(next().c_str());
    }
    if (!known.empty())
        if (FILE* f = fopen(known.c_str(), "r"))
        {
            char line[8192];
            while (fgets(line, sizeof line, f))
            {
                std::string l = line;
                while (!l.empty() && l.back() == '\n')
                    l.pop_back();
                if (!l.empty())
                    s.known.push_back(l);
            }
            fclose(f);
        }
    s.prog = s.dummy;
    if (!prog.empty())
    {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 16) == 0)
        {
            auto p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED)
                s.prog = static_cast<volatile uint64_t*>(p);
        }
    }
    std::thread(watchdog).detach();
    run();
    finish();
}
} // namespace vh

#define VH_MAIN(RUN)                                                                               \
    int main(int argc, char** argv)                                                                \
    {                                                                                              \
        return vh::main_impl(argc, argv, RUN);                                                     \
    }
#endif
