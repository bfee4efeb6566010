// C22: reading a file or standard input yields the whole content or an error.
// The system calls of the library are replaced by ones that ask a controller what happens; every
// sequence of outcomes (up to a number of faults) is explored for every size class.
#include "parts.hpp"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <lexy/input/file.hpp>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

//=== the controller ===//
namespace ctl
{
inline bool             active = false;
inline std::vector<int> script;           // outcome chosen at each call
inline std::vector<int> width;            // number of outcomes at each call
inline std::vector<std::string> log;
inline int              faults = 0, max_faults = 2;
inline std::set<int>    fds;
inline std::map<void*, std::size_t> maps;
inline std::string      problem;
inline int              open_errno = 0; // errno of the failed open, if any

// next outcome out of n (0: normal)
inline int choose(int n)
{
    if (faults >= max_faults)
        n = 1;
    auto i = width.size();
    width.push_back(n);
    int c = i < script.size() ? script[i] : 0;
    if (c >= n)
        c = 0;
    if (c != 0)
        ++faults;
    return c;
}
inline const int open_errors[] = {ENOENT, EACCES, EPERM, ENOTDIR, ELOOP, EMFILE, EIO, ENOMEM, EINTR, ENAMETOOLONG};
} // namespace ctl

#if PART == 0
extern "C"
{
    int     __real_open(const char*, int, ...);
    off_t   __real_lseek(int, off_t, int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_pread(int, void*, size_t, off_t);
    void*   __real_mmap(void*, size_t, int, int, int, off_t);
    int     __real_munmap(void*, size_t);
    int     __real_close(int);

    int __wrap_open(const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int mode = va_arg(ap, int);
        va_end(ap);
        if (!ctl::active)
            return __real_open(path, flags, mode);
        int c = ctl::choose(1 + int(sizeof ctl::open_errors / sizeof(int)));
        if (c != 0)
        {
            errno = ctl::open_errno = ctl::open_errors[c - 1];
            ctl::log.push_back("open fails with errno " + std::to_string(errno));
            return -1;
        }
        int fd = __real_open(path, flags, mode);
        if (fd >= 0)
            ctl::fds.insert(fd);
        else
            ctl::open_errno = errno;
        return fd;
    }
    off_t __wrap_lseek(int fd, off_t off, int whence)
    {
        if (!ctl::active)
            return __real_lseek(fd, off, whence);
        int c = ctl::choose(2);
        if (c == 1)
        {
            ctl::log.push_back("lseek fails");
            errno = EIO;
            return -1;
        }
        return __real_lseek(fd, off, whence);
    }
    static ssize_t do_read(int fd, void* p, size_t n, off_t off)
    {
        int c = ctl::choose(9);
        // 0: all; errors; short counts
        if (c >= 1 && c <= 3)
        {
            errno = c == 1 ? EIO : c == 2 ? EINTR : EAGAIN;
            ctl::log.push_back("read fails with errno " + std::to_string(errno));
            return -1;
        }
        size_t m = n;
        if (c == 4)
            m = 1;
        else if (c == 5)
            m = n / 2;
        else if (c == 6)
            m = n - 1;
        else if (c == 7)
            m = 0;
        else if (c == 8)
            m = n > 4096 ? 4096 : n / 3;
        if (n == 0)
            m = 0;
        if (c != 0)
            ctl::log.push_back("read of " + std::to_string(n) + " gives " + std::to_string(m));
        return off < 0 ? __real_read(fd, p, m) : __real_pread(fd, p, m, off);
    }
    ssize_t __wrap_read(int fd, void* p, size_t n)
    {
        return ctl::active ? do_read(fd, p, n, -1) : __real_read(fd, p, n);
    }
    ssize_t __wrap_pread(int fd, void* p, size_t n, off_t off)
    {
        return ctl::active ? do_read(fd, p, n, off) : __real_pread(fd, p, n, off);
    }
    void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
    {
        if (!ctl::active)
            return __real_mmap(a, n, prot, flags, fd, off);
        int c = ctl::choose(3);
        if (c != 0)
        {
            errno = c == 1 ? ENOMEM : ENODEV;
            ctl::log.push_back("mmap fails");
            return MAP_FAILED;
        }
        auto p = __real_mmap(a, n, prot, flags, fd, off);
        if (p != MAP_FAILED)
            ctl::maps[p] = n;
        return p;
    }
    int __wrap_munmap(void* p, size_t n)
    {
        if (ctl::active)
        {
            auto it = ctl::maps.find(p);
            if (it == ctl::maps.end() || it->second != n)
                ctl::problem = "munmap of memory that is not mapped like that";
            else
                ctl::maps.erase(it);
        }
        return __real_munmap(p, n);
    }
    int __wrap_close(int fd)
    {
        if (!ctl::active)
            return __real_close(fd);
        if (ctl::fds.erase(fd) == 0)
            ctl::problem = "close of a descriptor that is not open";
        int c = ctl::choose(2);
        int r = __real_close(fd);
        if (c == 1)
        {
            ctl::log.push_back("close reports an error");
            errno = EIO;
            return -1;
        }
        return r;
    }
}
#endif

namespace
{
using Bytes = std::string;
struct Res
{
    std::map<void*, std::size_t> live;
    std::string                  problem;
    void*                        allocate(std::size_t n, std::size_t)
    {
        auto p  = std::malloc(n);
        live[p] = n;
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t)
    {
        auto it = live.find(p);
        if (it == live.end() || it->second != n)
            problem = "bad release";
        else
            live.erase(it);
        std::free(p);
    }
    friend bool operator==(const Res& a, const Res& b)
    {
        return &a == &b;
    }
};
enum Order
{
    little,
    big,
    bom
};
// the units the content denotes; false: it is not a whole number of units
template <typename E>
bool expected(const Bytes& b, Order o, std::vector<unsigned long>& r)
{
    constexpr std::size_t w = sizeof(typename E::char_type);
    if (b.size() % w != 0)
        return false;
    std::size_t at      = 0;
    bool        le      = o == little;
    bool        unicode = w > 1 || std::is_same_v<E, lexy::utf8_encoding> || std::is_same_v<E, lexy::utf8_char_encoding>;
    if (o == bom && unicode)
    {
        auto starts = [&](const char* p, std::size_t n) { return b.size() >= n && b.compare(0, n, p, n) == 0; };
        if (w == 1 && starts("\xEF\xBB\xBF", 3))
            at = 3;
        else if (w == 2 && starts("\xFE\xFF", 2))
            at = 2;
        else if (w == 2 && starts("\xFF\xFE", 2))
            at = 2, le = true;
        else if (w == 4 && starts("\0\0\xFE\xFF", 4))
            at = 4;
        else if (w == 4 && starts("\xFF\xFE\0\0", 4))
            at = 4, le = true;
    }
    for (; at < b.size(); at += w)
    {
        unsigned long v = 0;
        for (unsigned i = 0; i < w; ++i)
            v += (unsigned long)((unsigned char)(b[at + (le ? i : w - 1 - i)])) << (8 * i);
        r.push_back(v);
    }
    return true;
}

// The result is exactly the content, or an error.  Returns whether it is the content.
template <typename E, typename Result>
bool judge(const Result& r, const Bytes& content, Order o, const std::string& what)
{
    using C = typename E::char_type;
    std::vector<unsigned long> want;
    bool                       whole = expected<E>(content, o, want);
    if (!r)
    {
        auto e = r.error();
        if (e != lexy::file_error::os_error && e != lexy::file_error::file_not_found
            && e != lexy::file_error::permission_denied)
            vh::fail(what + ": an error of no kind");
        return false;
    }
    if (!whole)
    {
        vh::fail(what + ": the content is not a whole number of code units, but reading it succeeded");
        return true;
    }
    auto& b  = r.buffer();
    bool  ok = b.size() == want.size();
    for (std::size_t i = 0; ok && i < want.size(); ++i)
        if ((unsigned long)(std::make_unsigned_t<C>(b.data()[i])) != want[i])
        {
            ok = false;
            vh::fail(what + ": unit " + std::to_string(i) + " of " + std::to_string(want.size()) + " is wrong");
        }
    if (!ok)
        vh::fail(what + ": " + std::to_string(b.size()) + " units instead of " + std::to_string(want.size()));
    return true;
}

Bytes make(std::size_t n, unsigned prefix)
{
    static const Bytes P[] = {Bytes(), Bytes("\xEF\xBB\xBF"), Bytes("\xFE\xFF"), Bytes("\xFF\xFE"),
                              Bytes("\0\0\xFE\xFF", 4), Bytes("\xFF\xFE\0\0", 4)};
    Bytes b = P[prefix];
    for (std::size_t i = b.size(); i < n; ++i)
        b.push_back(char(i * 37 + i / 256 * 11 + 1));
    b.resize(n);
    return b;
}

//=== scratch directory ===//
struct Scratch
{
    std::string dir;
    Scratch()
    {
        char t[] = "/tmp/c22.XXXXXX";
        dir      = mkdtemp(t);
    }
    void clean()
    {
        if (auto d = opendir(dir.c_str()))
        {
            while (auto e = readdir(d))
            {
                auto p = dir + "/" + e->d_name;
                if (std::string(e->d_name) == "sub")
                    rmdir(p.c_str());
                else
                    unlink(p.c_str());
            }
            closedir(d);
        }
        rmdir(dir.c_str());
    }
};
// created on first use; its files are gone when the case ends, whatever happens in it
struct File
{
    std::string path;
    Scratch     s;
    explicit File(const Bytes& b)
    {
        path   = s.dir + "/f";
        auto f = fopen(path.c_str(), "wb");
        if (!f || fwrite(b.data(), 1, b.size(), f) != b.size())
            _exit(98);
        fclose(f);
    }
    ~File()
    {
        s.clean();
    }
};

int open_fds()
{
    int n = 0;
    if (auto d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}

template <typename E, lexy::encoding_endianness L>
void read_once(const char* path, const Bytes& content, Order o, bool must_succeed, const std::string& what)
{
    ctl::width.clear();
    ctl::log.clear();
    ctl::faults     = 0;
    ctl::open_errno = 0;
    ctl::fds.clear();
    ctl::maps.clear();
    ctl::problem.clear();
    Res res;
    {
        ctl::active = true;
        auto r      = lexy::read_file<E, L>(path, &res);
        ctl::active = false;
        std::string how = what;
        for (auto& l : ctl::log)
            how += "; " + l;
        bool ok = judge<E>(r, content, o, how);
        std::vector<unsigned long> dummy;
        if (must_succeed && ctl::faults == 0 && !ok && expected<E>(content, o, dummy))
            vh::fail(how + ": reading failed without a fault");
        if (!ok && !r)
        {
            auto e    = r.error();
            auto want = lexy::file_error::os_error;
            // only the last open counts
            switch (ctl::open_errno)
            {
            case ENOENT:
            case ENOTDIR:
            case ELOOP:
                want = lexy::file_error::file_not_found;
                break;
            case EACCES:
            case EPERM:
                want = lexy::file_error::permission_denied;
                break;
            }
            if (e != want)
                vh::fail(how + ": error kind " + std::to_string(int(e)) + " instead of "
                         + std::to_string(int(want)));
        }
        if (ok)
        {
            // the buffer can be taken out
            auto b = std::move(r).buffer();
            (void)b;
        }
    }
    if (!ctl::fds.empty())
    {
        vh::fail(what + ": a descriptor was left open");
        for (int fd : ctl::fds)
            ::close(fd);
    }
    if (!ctl::maps.empty())
        vh::fail(what + ": memory was left mapped");
    if (!ctl::problem.empty())
        vh::fail(what + ": " + ctl::problem);
    if (!res.live.empty() || !res.problem.empty())
        vh::fail(what + ": memory of the resource is unbalanced");
    vh::transitions(ctl::width.size());
    vh::traces(1);
}

// all outcome sequences
template <typename E, lexy::encoding_endianness L>
void explore(const char* path, const Bytes& content, Order o, int max_faults)
{
    ctl::max_faults = max_faults;
    ctl::script.clear();
    int before = open_fds();
    while (true)
    {
        read_once<E, L>(path, content, o, true, std::to_string(content.size()) + " bytes");
        vh::beat();
        auto w = ctl::width;
        ctl::script.resize(w.size(), 0);
        int i = int(w.size()) - 1;
        for (; i >= 0; --i)
        {
            if (ctl::script[std::size_t(i)] + 1 < w[std::size_t(i)])
                break;
        }
        if (i < 0)
            break;
        ++ctl::script[std::size_t(i)];
        ctl::script.resize(std::size_t(i) + 1);
    }
    ctl::script.clear();
    if (open_fds() != before)
        vh::fail("descriptors were left open");
}

template <typename E, lexy::encoding_endianness L>
void plain(const char* path, const Bytes& content, Order o)
{
    ctl::script.clear();
    ctl::max_faults = 0;
    read_once<E, L>(path, content, o, true, std::to_string(content.size()) + " bytes");
    // default resource
    auto r = lexy::read_file<E, L>(path);
    judge<E>(r, content, o, "default resource");
    vh::traces(1);
}
template <typename E>
void plain_all(const char* path, const Bytes& content)
{
    plain<E, lexy::encoding_endianness::little>(path, content, little);
    plain<E, lexy::encoding_endianness::big>(path, content, big);
    plain<E, lexy::encoding_endianness::bom>(path, content, bom);
}

//=== standard input ===//
struct Source
{
    Bytes       content;
    std::size_t pos = 0;
    std::size_t chunk;
    long        fail_at = -1; // index of the read that fails
    long        eof_at  = -1; // index of the read that reports the end early
    long        reads   = 0;
    bool        failed  = false, ended = false;
    std::size_t seen = 0; // content before the (early) end
};
ssize_t src_read(void* c, char* buf, size_t n)
{
    auto& s = *static_cast<Source*>(c);
    auto  i = s.reads++;
    vh::transitions(1);
    if (i == s.fail_at)
    {
        s.failed = true;
        errno    = EIO;
        return -1;
    }
    if (i == s.eof_at)
    {
        if (!s.ended)
            s.seen = s.pos;
        s.ended = true;
        return 0;
    }
    auto m = std::min({n, s.chunk, s.content.size() - s.pos});
    std::memcpy(buf, s.content.data() + s.pos, m);
    s.pos += m;
    if (m == 0 && !s.ended)
    {
        s.ended = true;
        s.seen  = s.pos;
    }
    return ssize_t(m);
}
template <typename E, lexy::encoding_endianness L>
void stdin_once(Source& s, Order o, int buffering, const std::string& what)
{
    cookie_io_functions_t fn = {src_read, nullptr, nullptr, nullptr};
    auto                  f  = fopencookie(&s, "r", fn);
    if (buffering == 0)
        setvbuf(f, nullptr, _IONBF, 0);
    else if (buffering > 1)
        setvbuf(f, nullptr, _IOFBF, std::size_t(buffering));
    auto old = stdin;
    stdin    = f;
    Res res;
    {
        auto r  = lexy::read_stdin<E, L>(&res);
        stdin   = old;
        auto c  = s.content.substr(0, s.ended ? s.seen : s.content.size());
        bool ok = judge<E>(r, c, o, what);
        if (ok && s.failed && s.seen != s.content.size())
            vh::fail(what + ": reading failed, but gave a result");
        if (ok && s.failed)
            vh::fail(what + ": reading failed, but gave a result");
        if (!ok && r.error() != lexy::file_error::os_error)
            vh::fail(what + ": wrong kind of error");
        std::vector<unsigned long> dummy;
        if (!ok && !s.failed && expected<E>(c, o, dummy))
            vh::fail(what + ": an error without a failure");
    }
    if (!res.live.empty() || !res.problem.empty())
        vh::fail(what + ": memory of the resource is unbalanced");
    fclose(f);
    vh::traces(1);
}
} // namespace

#include <algorithm>
namespace
{
std::vector<std::size_t> around(std::initializer_list<std::size_t> bases, std::size_t d, std::size_t upto)
{
    std::vector<std::size_t> r;
    for (std::size_t n = 0; n <= upto; ++n)
        r.push_back(n);
    for (auto b : bases)
        for (std::size_t n = b - d; n <= b + d; ++n)
            if (n > upto)
                r.push_back(n);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

void run()
{
    bool th = vh::thorough();
    using lexy::encoding_endianness;
    // every size, encoding, byte order and mark; no faults
    for (auto n : around({1024, 4096, 8192, 16384, 32768, 65536, 131072, 1u << 20}, th ? 40 : 9, th ? 400 : 70))
        for (unsigned prefix = 0; prefix < 6; ++prefix)
        {
            if (n > 200000 && prefix > 0 && !th)
                continue;
            vh::step([&] { return "file of " + std::to_string(n) + " bytes, prefix " + std::to_string(prefix); },
                     [&] {
                         auto b = make(n, prefix);
                         File f(b);
                         auto p = f.path.c_str();
                         plain_all<lexy::utf8_encoding>(p, b);
                         plain_all<lexy::utf16_encoding>(p, b);
                         plain_all<lexy::utf32_encoding>(p, b);
                         plain<lexy::utf8_char_encoding, encoding_endianness::bom>(p, b, bom);
                         plain<lexy::default_encoding, encoding_endianness::bom>(p, b, bom);
                         plain<lexy::ascii_encoding, encoding_endianness::bom>(p, b, bom);
                         plain<lexy::byte_encoding, encoding_endianness::bom>(p, b, bom);
                         vh::outcome("f" + std::to_string(n) + "." + std::to_string(prefix));
                     });
        }
    // every sequence of outcomes of the system calls
    for (auto n : around({4096, 8192, 32768, 40000, 65536}, th ? 6 : 1, th ? 20 : 4))
        for (int e = 0; e < 3; ++e)
            vh::step([&] { return "file of " + std::to_string(n) + " bytes with faults, encoding " + std::to_string(e); },
                     [&] {
                         auto b = make(n, e == 0 ? 1 : e == 1 ? 3 : 4);
                         File f(b);
                         int  k = th ? 3 : 2;
                         if (e == 0)
                             explore<lexy::utf8_encoding, encoding_endianness::bom>(f.path.c_str(), b, bom, k);
                         else if (e == 1)
                             explore<lexy::utf16_encoding, encoding_endianness::bom>(f.path.c_str(), b, bom, k);
                         else
                             explore<lexy::default_encoding, encoding_endianness::bom>(f.path.c_str(), b, bom, k);
                         vh::outcome("x" + std::to_string(n) + "." + std::to_string(e));
                     });
    // things that are not readable files
    for (int kind = 0; kind < 8; ++kind)
        vh::step([&] { return "path of kind " + std::to_string(kind); },
                 [&] {
                     Scratch s;
                     auto    f = fopen((s.dir + "/f").c_str(), "wb");
                     fputs("abc", f);
                     fclose(f);
                     mkdir((s.dir + "/sub").c_str(), 0700);
                     symlink("nothing", (s.dir + "/dangling").c_str());
                     symlink("loop", (s.dir + "/loop").c_str());
                     symlink("f", (s.dir + "/link").c_str());
                     std::string paths[8] = {s.dir + "/none",     s.dir + "/f/x",  s.dir + "/dangling",
                                             s.dir + "/loop",     s.dir + "/link", s.dir + "/sub",
                                             s.dir + "/" + std::string(5000, 'a'), ""};
                     auto        path     = paths[kind];
                     int         before   = open_fds();
                     ctl::max_faults      = 0;
                     auto r               = lexy::read_file<lexy::utf8_encoding>(path.c_str());
                     auto is = [&](lexy::file_error e) { return !r && r.error() == e; };
                     bool ok = true;
                     if (kind <= 3 || kind == 7)
                         ok = is(lexy::file_error::file_not_found);
                     else if (kind == 4)
                         ok = r && r.buffer().size() == 3 && r.buffer().data()[1] == 'b';
                     else
                         ok = is(lexy::file_error::os_error);
                     if (!ok)
                         vh::fail("wrong result for " + path.substr(0, 60));
                     if (open_fds() != before)
                         vh::fail("a descriptor was left open");
                     s.clean();
                     vh::traces(1);
                     vh::transitions(1);
                 });
    // standard input
    auto name = [](std::size_t n, std::size_t chunk, long fail, long eof, int buffering) {
        return "stdin of " + std::to_string(n) + " bytes in chunks of " + std::to_string(chunk) + ", failure at read "
               + std::to_string(fail) + ", end at read " + std::to_string(eof) + ", buffering "
               + std::to_string(buffering);
    };
    auto in = [&](std::size_t n, std::size_t chunk, long fail, long eof, int buffering) {
        vh::step([&] { return name(n, chunk, fail, eof, buffering); },
                 [&] {
                     auto d  = name(n, chunk, fail, eof, buffering);
                     auto go = [&](auto enc, auto endian, Order o, unsigned prefix) {
                         Source s;
                         s.content = make(n, prefix);
                         s.chunk   = chunk;
                         s.fail_at = fail;
                         s.eof_at  = eof;
                         stdin_once<decltype(enc), decltype(endian)::value>(s, o, buffering, d);
                         return s.reads;
                     };
                     using B = std::integral_constant<encoding_endianness, encoding_endianness::bom>;
                     using L = std::integral_constant<encoding_endianness, encoding_endianness::little>;
                     go(lexy::default_encoding{}, B{}, bom, 0);
                     go(lexy::utf8_encoding{}, B{}, bom, 1);
                     go(lexy::utf16_encoding{}, B{}, bom, 2);
                     go(lexy::utf16_encoding{}, L{}, little, 0);
                     go(lexy::utf32_encoding{}, B{}, bom, 5);
                     vh::outcome(d);
                 });
    };
    for (auto n : around({1000, 1024, 2000, 2048, 4000, 4096, 8000, 16000, 32000, 64000, 128000}, th ? 30 : 5,
                         th ? 300 : 40))
    {
        for (int buffering : {0, 1, 64, 4096})
            for (std::size_t chunk : {std::size_t(1) << 30, std::size_t(1000), std::size_t(999), std::size_t(1001),
                                      std::size_t(4096), std::size_t(7)})
            {
                if (chunk == 7 && n > 5000)
                    continue;
                in(n, chunk, -1, -1, buffering);
            }
        // a failure or an early end at every read
        for (std::size_t chunk : {std::size_t(100), std::size_t(1000), std::size_t(1) << 30})
        {
            auto reads = long(n / std::min(chunk, std::size_t(4096))) + 2;
            if (reads > 60)
                continue;
            for (long k = 0; k <= reads; ++k)
                for (int buffering : {0, 1})
                {
                    in(n, chunk, k, -1, buffering);
                    in(n, chunk, -1, k, buffering);
                }
        }
    }
    for (std::size_t n = 0; n <= (th ? 4200u : 2100u); n += 1)
        in(n, std::size_t(1) << 30, -1, -1, 1);
}
} // namespace
VH_MAIN(run)
