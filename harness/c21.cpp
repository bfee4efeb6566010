// C21: raw bytes become code units with the right byte order and byte order mark.
#include "parts.hpp"
#include <lexy/input/buffer.hpp>
#include <string>
#include <vector>
namespace
{
using Bytes = std::vector<unsigned char>;
std::string hex(const Bytes& b)
{
    std::string r;
    char        x[4];
    for (std::size_t i = 0; i < b.size() && i < 24; ++i)
        snprintf(x, sizeof x, "%02X ", b[i]), r += x;
    return r + (b.size() > 24 ? ".." : "") + "#" + std::to_string(b.size());
}
struct Res
{
    long live = 0, bytes = 0;
    void* allocate(std::size_t n, std::size_t)
    {
        ++live;
        bytes += long(n);
        auto p = std::malloc(n);
        std::memset(p, 0x5A, n);
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t)
    {
        --live;
        bytes -= long(n);
        std::free(p);
    }
    friend bool operator==(const Res& a, const Res& b)
    {
        return &a == &b;
    }
};

enum Order
{
    little,
    big,
    bom
};
// what the bytes denote: units of w bytes
std::vector<unsigned long> expected(const Bytes& b, unsigned w, bool unicode, Order o)
{
    std::size_t at = 0;
    bool        le = o == little;
    if (o == bom && unicode)
    {
        auto starts = [&](std::initializer_list<int> l) {
            if (b.size() < l.size())
                return false;
            std::size_t i = 0;
            for (int x : l)
                if (b[i++] != x)
                    return false;
            return true;
        };
        if (w == 1 && starts({0xEF, 0xBB, 0xBF}))
            at = 3;
        else if (w == 2 && starts({0xFE, 0xFF}))
            at = 2;
        else if (w == 2 && starts({0xFF, 0xFE}))
            at = 2, le = true;
        else if (w == 4 && starts({0, 0, 0xFE, 0xFF}))
            at = 4;
        else if (w == 4 && starts({0xFF, 0xFE, 0, 0}))
            at = 4, le = true;
    }
    std::vector<unsigned long> r;
    for (; at < b.size(); at += w)
    {
        unsigned long v = 0;
        for (unsigned i = 0; i < w; ++i)
            v += (unsigned long)(b[at + (le ? i : w - 1 - i)]) << (8 * i);
        r.push_back(v);
    }
    return r;
}
vh::Guard& guard()
{
    static vh::Guard g(1 << 18);
    return g;
}

template <typename E, lexy::encoding_endianness L, bool Unicode>
void one(const Bytes& b, Order o)
{
    using C = typename E::char_type;
    vh::transitions(1);
    auto want = expected(b, sizeof(C), Unicode, o);
    auto cmp  = [&](const auto& buf, const char* how) {
        bool ok = buf.size() == want.size();
        for (std::size_t i = 0; ok && i < want.size(); ++i)
            ok = (unsigned long)(std::make_unsigned_t<C>(buf.data()[i])) == want[i];
        if (ok)
        {
            // and reading it gives the same units
            auto r = buf.reader();
            for (auto w : want)
            {
                if (E::to_int_type(C(w)) == E::eof())
                    break; // a unit that is the encoding's end marker
                ok &= r.peek() == E::to_int_type(C(w));
                r.bump();
            }
            ok &= r.peek() == E::eof();
        }
        if (!ok)
        {
            std::string g;
            for (std::size_t i = 0; i < buf.size() && i < 16; ++i)
                g += std::to_string((unsigned long)(std::make_unsigned_t<C>(buf.data()[i]))) + " ";
            vh::fail(std::string(how) + ": byte order " + (o == little ? "little" : o == big ? "big" : "bom")
                     + ", unit size " + std::to_string(sizeof(C)) + ": " + hex(b) + " became " + g + "#"
                     + std::to_string(buf.size()));
        }
    };
    // the bytes end at an inaccessible page (and are unaligned when their size is odd)
    auto p = guard().template tail<unsigned char>(b.size());
    if (!b.empty())
        std::memcpy(p, b.data(), b.size());
    Res  res;
    bool aligned = reinterpret_cast<std::uintptr_t>(p) % alignof(C) == 0;
    (void)aligned;
    {
        auto buf = lexy::make_buffer_from_raw<E, L>(static_cast<const void*>(p), b.size(), &res);
        static_assert(std::is_same_v<typename decltype(buf)::encoding, E>);
        cmp(buf, "with resource");
    }
    if (res.live != 0 || res.bytes != 0)
        vh::fail("memory of the resource is unbalanced");
    // in front of an inaccessible page
    auto q = reinterpret_cast<unsigned char*>(guard().head());
    if (!b.empty())
        std::memmove(q, b.data(), b.size());
    cmp(lexy::make_buffer_from_raw<E, L>(q, b.size()), "default");
    vh::traces(2);
}
template <typename E, bool Unicode>
void orders(const Bytes& b)
{
    one<E, lexy::encoding_endianness::little, Unicode>(b, little);
    one<E, lexy::encoding_endianness::big, Unicode>(b, big);
    if constexpr (Unicode)
        one<E, lexy::encoding_endianness::bom, Unicode>(b, bom);
}
// encodings without a BOM in the library: default, ascii, bytes
template <typename E>
constexpr bool has_bom = false;

void all_encodings(const Bytes& b, int which)
{
    if (which == 0)
    {
        orders<lexy::utf8_encoding, true>(b);
        orders<lexy::utf8_char_encoding, true>(b);
        orders<lexy::default_encoding, false>(b);
        orders<lexy::ascii_encoding, false>(b);
        orders<lexy::byte_encoding, false>(b);
    }
    else if (which == 1)
        orders<lexy::utf16_encoding, true>(b);
    else
        orders<lexy::utf32_encoding, true>(b);
}

// all byte strings of the given length over the alphabet
template <typename F>
void strings(const std::vector<int>& alphabet, std::size_t n, F f)
{
    Bytes b(n);
    auto  go = [&](auto& self, std::size_t i) -> void {
        if (i == n)
        {
            f(b);
            return;
        }
        for (int a : alphabet)
        {
            b[i] = (unsigned char)a;
            self(self, i + 1);
        }
    };
    go(go, 0);
}

void run()
{
    bool th    = vh::thorough();
    auto batch = [&](std::string what, int which, auto enumerate) {
        vh::step([&] { return what; },
                 [&] {
                     std::size_t k = 0;
                     enumerate([&](const Bytes& b) {
                         if (++k % 4096 == 0)
                             vh::beat();
                         all_encodings(b, which);
                     });
                     vh::outcome(what);
                 });
    };
    std::vector<int> all;
    for (int i = 0; i < 256; ++i)
        all.push_back(i);
    // every byte string of up to 3 bytes (split by the first byte)
    for (std::size_t n = 0; n <= 2; ++n)
        batch("every " + std::to_string(n) + " bytes", 0, [&](auto f) { strings(all, n, f); });
    for (int a = 0; a < 256; ++a)
    {
        // every triple whose first byte may start a mark; for others the boundary bytes
        std::vector<int> rest = all;
        if (a != 0xEF && !th)
            rest = {0, 1, 0x7F, 0x80, 0xBB, 0xBF, 0xEF, 0xFE, 0xFF};
        batch("every 3 bytes starting " + std::to_string(a), 0, [&](auto f) {
            strings(rest, 2, [&](Bytes b) {
                b.insert(b.begin(), (unsigned char)a);
                f(b);
            });
        });
    }
    batch("0 bytes in units of 2", 1, [&](auto f) { f(Bytes()); });
    batch("0 bytes in units of 4", 2, [&](auto f) { f(Bytes()); });
    batch("every unit of 2 bytes", 1, [&](auto f) { strings(all, 2, f); });
    // marks followed by anything, everything followed by boundary bytes
    std::vector<int> near = {0, 1, 0x7F, 0x80, 0xBB, 0xBE, 0xBF, 0xC0, 0xEE, 0xEF, 0xF0, 0xFD, 0xFE, 0xFF};
    std::vector<int> core = {0, 1, 0x80, 0xFE, 0xFF};
    batch("every 2 units of 2 bytes over boundary bytes", 1, [&](auto f) { strings(near, 4, f); });
    batch("a unit of 4 bytes over boundary bytes", 2, [&](auto f) { strings(near, 4, f); });
    for (std::size_t pos = 0; pos < 4; ++pos)
        for (int m = 0; m < 2; ++m)
            batch("a 4-byte mark with two bytes changed " + std::to_string(pos) + std::to_string(m), 2,
                  [&](auto f) {
                      const Bytes mark = m ? Bytes{0, 0, 0xFE, 0xFF} : Bytes{0xFF, 0xFE, 0, 0};
                      for (std::size_t k = 0; k < 4; ++k)
                          for (int x : all)
                              for (int y : all)
                              {
                                  auto b   = mark;
                                  b[pos]   = (unsigned char)x;
                                  b[k]     = (unsigned char)y;
                                  f(b);
                              }
                  });
    batch("4, 5 and 6 bytes over the mark's bytes", 0, [&](auto f) {
        for (std::size_t n = 4; n <= 6; ++n)
            strings({0, 0xEF, 0xBB, 0xBF, 0xFE, 0xFF}, n, f);
    });
    for (int a : core)
        batch("3 units of 2 bytes starting " + std::to_string(a), 1, [&](auto f) {
            strings(th ? near : std::vector<int>{0, 1, 0x80, 0xFD, 0xFE, 0xFF}, 5, [&](Bytes b) {
                b.insert(b.begin(), (unsigned char)a);
                f(b);
            });
        });
    for (int a : core)
        batch("2 units of 4 bytes starting " + std::to_string(a), 2, [&](auto f) {
            strings(core, 7, [&](Bytes b) {
                b.insert(b.begin(), (unsigned char)a);
                f(b);
            });
        });
    // every length, with and without mark, with each mark twice, content with every byte value
    for (int which = 0; which < 3; ++which)
        for (int prefix = 0; prefix < 8; ++prefix)
            batch("every length, prefix " + std::to_string(prefix) + " unit kind " + std::to_string(which),
                  which, [&](auto f) {
                      static const Bytes P[8] = {{},
                                                 {0xEF, 0xBB, 0xBF},
                                                 {0xFE, 0xFF},
                                                 {0xFF, 0xFE},
                                                 {0, 0, 0xFE, 0xFF},
                                                 {0xFF, 0xFE, 0, 0},
                                                 {0xEF, 0xBB, 0xBF, 0xEF, 0xBB, 0xBF},
                                                 {0xFE, 0xFF, 0xFE, 0xFF}};
                      unsigned    w = which == 0 ? 1 : which == 1 ? 2 : 4;
                      std::size_t max = th ? 700 : 200;
                      auto        at  = [&](std::size_t n) {
                          if (n % w != 0)
                              return;
                          for (unsigned salt = 0; salt < 4; ++salt)
                          {
                              Bytes b = P[prefix];
                              for (std::size_t i = b.size(); i < n; ++i)
                                  b.push_back((unsigned char)(i * 37 + salt * 71 + i / 256));
                              b.resize(n);
                              f(b);
                          }
                      };
                      for (std::size_t n = 0; n <= max; ++n)
                          at(n);
                      for (std::size_t base : {1024u, 4096u, 8192u, 65536u})
                          for (std::size_t n = base - 9; n <= base + 9; ++n)
                              at(n);
                  });
}
} // namespace
VH_MAIN(run)
