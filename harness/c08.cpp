// C08: decoding one code point, for (almost) every sequence of code units.
#include "vh.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/match.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <forward_list>
namespace dsl = lexy::dsl;

//=== oracle: Unicode standard, table 3-7 and D90-D92 ===//
struct Dec
{
    int      len = 0; // 0: ill-formed
    uint32_t cp  = 0;
};
static Dec dec8(const unsigned char* p, size_t n)
{
    if (n == 0)
        return {};
    unsigned a = p[0];
    if (a <= 0x7F)
        return {1, a};
    auto cont = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xBF) {
        return i < n && p[i] >= lo && p[i] <= hi;
    };
    if (a >= 0xC2 && a <= 0xDF)
        return cont(1) ? Dec{2, (a - 0xC0) * 64 + (p[1] - 0x80u)} : Dec{};
    if (a >= 0xE0 && a <= 0xEF)
    {
        unsigned lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
        return cont(1, lo, hi) && cont(2)
                   ? Dec{3, (a - 0xE0) * 4096 + (p[1] - 0x80u) * 64 + (p[2] - 0x80u)}
                   : Dec{};
    }
    if (a >= 0xF0 && a <= 0xF4)
    {
        unsigned lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
        return cont(1, lo, hi) && cont(2) && cont(3)
                   ? Dec{4, (a - 0xF0) * 262144 + (p[1] - 0x80u) * 4096 + (p[2] - 0x80u) * 64
                                + (p[3] - 0x80u)}
                   : Dec{};
    }
    return {};
}
static Dec dec16(const char16_t* p, size_t n)
{
    if (n == 0)
        return {};
    uint32_t a = p[0];
    if (a < 0xD800 || a > 0xDFFF)
        return {1, a};
    if (a > 0xDBFF || n < 2 || p[1] < 0xDC00 || p[1] > 0xDFFF)
        return {};
    return {2, 0x10000 + (a - 0xD800) * 1024 + (p[1] - 0xDC00u)};
}
static Dec dec32(const char32_t* p, size_t n)
{
    if (n == 0 || p[0] > 0x10FFFF || (p[0] >= 0xD800 && p[0] <= 0xDFFF))
        return {};
    return {1, p[0]};
}
static Dec decA(const char* p, size_t n)
{
    if (n == 0 || (unsigned char)(p[0]) > 0x7F)
        return {};
    return {1, uint32_t(p[0])};
}
template <typename Enc, typename C>
static Dec oracle(const C* p, size_t n)
{
    if constexpr (std::is_same_v<Enc, lexy::ascii_encoding>)
        return decA(p, n);
    else if constexpr (sizeof(C) == 1)
        return dec8(reinterpret_cast<const unsigned char*>(p), n);
    else if constexpr (sizeof(C) == 2)
        return dec16(p, n);
    else
        return dec32(p, n);
}

//=== observation ===//
static uint32_t seen_cp;
struct Spy
{
    static constexpr auto name()
    {
        return "spy";
    }
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (!__builtin_is_constant_evaluated())
            seen_cp = cp.value();
        return true;
    }
};
static long        err_count, err_off;
static const char* err_name;
static const void* base_p;
struct ErrCb
{
    struct S
    {
        using return_type = std::size_t;
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            ++err_count;
            err_name = e.name();
            if constexpr (std::is_pointer_v<decltype(e.position())>)
                err_off = e.position() - static_cast<decltype(e.position())>(base_p);
        }
        template <typename Ctx, typename Error>
        void operator()(const Ctx&, const Error&)
        {
            err_count += 1000;
        }
        std::size_t finish() &&
        {
            return std::size_t(err_count);
        }
    };
    auto sink() const
    {
        return S{};
    }
};
template <typename It>
struct Span
{
    It b, e;
};
struct ToSpan
{
    using return_type = long;
    template <typename L>
    constexpr long operator()(L l) const
    {
        return long(l.end() - l.begin());
    }
};
struct P
{
    static constexpr auto rule  = dsl::capture(dsl::code_point);
    static constexpr auto value = lexy::callback<long>([](auto l) { return long(l.end() - l.begin()); });
};
struct PSpy
{
    static constexpr auto rule = dsl::code_point.if_<Spy>() + dsl::position;
    static constexpr auto value
        = lexy::callback<long>([](auto p) { return long(p - static_cast<decltype(p)>(base_p)); });
};
struct POpt
{
    static constexpr auto rule  = dsl::opt(dsl::capture(dsl::code_point)) + dsl::position;
    static constexpr auto value = lexy::callback<long>(
        [](auto l, auto p) { return l.end() == p ? long(l.end() - l.begin()) : -7; },
        [](lexy::nullopt, auto p) { return p == static_cast<decltype(p)>(base_p) ? 0l : -9; });
};
// all code points of the input
struct PAll
{
    static constexpr auto rule  = dsl::while_(dsl::code_point) + dsl::position;
    static constexpr auto value = lexy::callback<long>(
        [](auto p) { return long(p - static_cast<decltype(p)>(base_p)); });
};
template <typename C>
static std::string hexs(const C* p, size_t n)
{
    std::string s;
    char        b[16];
    for (size_t i = 0; i < n; ++i)
    {
        snprintf(b, sizeof b, "%s%X", i ? " " : "", unsigned(std::make_unsigned_t<C>(p[i])));
        s += b;
    }
    return "[" + s + "]";
}

template <typename Enc, typename C>
static void one(const C* p, size_t n, bool full)
{
    auto d  = oracle<Enc>(p, n);
    base_p  = p;
    auto in = lexy::string_input<Enc>(p, n);
    err_count = 0, err_off = -1, seen_cp = 0xDEAD0000;
    auto r = lexy::parse<P>(in, ErrCb{});
    vh::traces(1);
    long got = r.has_value() ? r.value() : 0;
    auto bad = [&](const char* what) {
        vh::fail(std::string(what) + ": " + hexs(p, n) + " expected length " + std::to_string(d.len)
                 + " got " + std::to_string(got));
    };
    if (got != d.len || r.is_success() != (d.len > 0))
        return bad("capture(code_point)");
    if (d.len == 0)
    {
        if (err_count != 1 || err_off != 0 || std::strcmp(err_name, "code-point") != 0)
            return bad("error of code_point");
    }
    else if (err_count != 0)
        return bad("error although matched");
    if (!full && d.len == 0)
        return;
    err_count = 0;
    auto s    = lexy::parse<PSpy>(in, ErrCb{});
    got       = s.has_value() ? s.value() : 0;
    if (got != d.len)
        return bad("code_point.if_");
    if (d.len)
    {
        // ASCII may be decided by table lookup
        if (seen_cp != d.cp && !(d.cp < 0x80 && seen_cp == 0xDEAD0000))
            return vh::fail("decoded value of " + hexs(p, n) + ": expected " + std::to_string(d.cp)
                            + " got " + std::to_string(seen_cp));
    }
    else if (std::strcmp(err_name, "spy") != 0)
        return bad("error of code_point.if_");
    if (!full)
        return;
    auto o = lexy::parse<POpt>(in, ErrCb{});
    got    = o.has_value() ? o.value() : -1;
    if (got != d.len)
        return bad("opt(code_point)");
    // the longest well-formed prefix
    size_t k = 0;
    while (k < n)
    {
        auto x = oracle<Enc>(p + k, n - k);
        if (!x.len)
            break;
        k += size_t(x.len);
    }
    auto a = lexy::parse<PAll>(in, ErrCb{});
    if (!a.has_value() || a.value() != long(k))
        return vh::fail("while_(code_point) on " + hexs(p, n) + ": expected "
                        + std::to_string(k) + " got "
                        + std::to_string(a.has_value() ? a.value() : -1));
    // other inputs
    auto buf = lexy::buffer<Enc>(p, n);
    base_p   = buf.data();
    err_count = 0, err_off = -1;
    auto b   = lexy::parse<P>(buf, ErrCb{});
    got      = b.has_value() ? b.value() : 0;
    if (got != d.len || err_count != (d.len == 0) || (d.len == 0 && err_off != 0))
        return bad("capture(code_point) in a buffer");
    seen_cp = 0xDEAD0000;
    auto bs = lexy::parse<PSpy>(buf, ErrCb{});
    got     = bs.has_value() ? bs.value() : 0;
    if (got != d.len || (d.len && d.cp >= 0x80 && seen_cp != d.cp))
        return bad("code_point.if_ in a buffer");
    a = lexy::parse<PAll>(buf, ErrCb{});
    if (!a.has_value() || a.value() != long(k))
        return bad("while_(code_point) in a buffer");
    vh::traces(6);
}

static vh::Guard& guard()
{
    static vh::Guard g;
    return g;
}
template <typename Enc>
static void utf8()
{
    using C = typename Enc::char_type;
    // every sequence of length 0..2, every length-3 sequence
    vh::step([] { return std::string("empty input"); }, [] {
        one<Enc>(guard().tail<C>(0), 0, true);
    });
    for (unsigned a = 0; a < 256; ++a)
        vh::step([&] { return "utf8 lead " + std::to_string(a) + ", length 1 and 2"; }, [&] {
            auto p = guard().tail<C>(1);
            p[0]   = C(a);
            one<Enc>(p, 1, true);
            p    = guard().tail<C>(2);
            p[0] = C(a);
            for (unsigned b = 0; b < 256; ++b)
            {
                p[1] = C(b);
                one<Enc>(p, 2, true);
                vh::outcome(a * 1000 + uint64_t(oracle<Enc>(p, 2).len));
            }
            vh::transitions(257);
        });
    static const unsigned char edge[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF,
                                         0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF};
    for (unsigned a = 0; a < 256; ++a)
        vh::step([&] { return "utf8 lead " + std::to_string(a) + ", length 3"; }, [&] {
            auto p = guard().tail<C>(3);
            p[0]   = C(a);
            for (unsigned b = 0; b < 256; ++b)
                for (unsigned c = 0; c < 256; ++c)
                {
                    p[1] = C(b), p[2] = C(c);
                    one<Enc>(p, 3, (b % 16 == 15 || b % 32 == 0) && (c % 16 == 15 || c % 32 == 0));
                }
            vh::transitions(65536);
            vh::outcome(hexs(p, 3));
        });
    for (unsigned a = 0xE0; a < 256; ++a)
        for (unsigned b = 0; b < 256; ++b)
            vh::step([&] { return "utf8 lead " + std::to_string(a) + " " + std::to_string(b)
                                  + ", length 4"; },
                     [&] {
                         auto p = guard().tail<C>(4);
                         p[0] = C(a), p[1] = C(b);
                         bool all = vh::thorough() || (a >= 0xF0 && a <= 0xF5 && b >= 0x80 && b < 0xC0);
                         for (unsigned c = 0; c < 256; ++c)
                         {
                             p[2] = C(c);
                             if (all && (a >= 0xF0 || vh::thorough()))
                                 for (unsigned d = 0; d < 256; ++d)
                                 {
                                     p[3] = C(d);
                                     one<Enc>(p, 4, false);
                                 }
                             else
                                 for (auto d : edge)
                                 {
                                     p[3] = C(d);
                                     one<Enc>(p, 4, false);
                                 }
                             vh::transitions(all ? 256 : sizeof edge);
                         }
                         for (auto c : edge)
                             for (auto d : edge)
                             {
                                 p[2] = C(c), p[3] = C(d);
                                 one<Enc>(p, 4, true);
                             }
                         vh::outcome(a * 65536 + b);
                         vh::beat();
                     });
    // length 5: what follows a sequence does not matter
    for (unsigned a = 0xC0; a < 256; ++a)
        vh::step([&] { return "utf8 lead " + std::to_string(a) + ", length 5"; }, [&] {
            auto p = guard().tail<C>(5);
            p[0]   = C(a);
            for (auto b : edge)
                for (auto c : edge)
                    for (auto d : edge)
                        for (auto e : edge)
                        {
                            p[1] = C(b), p[2] = C(c), p[3] = C(d), p[4] = C(e);
                            one<Enc>(p, 5, false);
                        }
            vh::transitions(83521);
        });
}
static void utf16()
{
    using Enc = lexy::utf16_encoding;
    vh::step([] { return std::string("empty utf16 input"); }, [] {
        one<Enc>(guard().tail<char16_t>(0), 0, true);
    });
    static const char16_t edge[] = {0, 0x41, 0x7F, 0x80, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF,
                                    0xE000, 0xFFFE, 0xFFFF};
    for (unsigned hi = 0; hi < 256; ++hi)
        vh::step([&] { return "utf16 first unit " + std::to_string(hi) + "xx"; }, [&] {
            for (unsigned lo = 0; lo < 256; ++lo)
            {
                auto p = guard().tail<char16_t>(1);
                p[0]   = char16_t(hi * 256 + lo);
                one<Enc>(p, 1, true);
                p    = guard().tail<char16_t>(2);
                p[0] = char16_t(hi * 256 + lo);
                for (auto e : edge)
                {
                    p[1] = e;
                    one<Enc>(p, 2, true);
                }
                vh::transitions(13);
                vh::outcome(hi * 256 + lo);
            }
        });
    for (unsigned a = 0xD7FF; a <= 0xE000; ++a)
        vh::step([&] { return "utf16 first unit " + std::to_string(a); }, [&] {
            auto p = guard().tail<char16_t>(2);
            p[0]   = char16_t(a);
            for (unsigned b = vh::thorough() || a % 64 == 0 ? 0 : 0xDB00; b <= (vh::thorough() || a % 64 == 0 ? 0xFFFFu : 0xE0FF); ++b)
            {
                p[1] = char16_t(b);
                one<Enc>(p, 2, false);
                vh::transitions(1);
            }
            vh::beat();
        });
}
static void utf32()
{
    using Enc = lexy::utf32_encoding;
    vh::step([] { return std::string("empty utf32 input"); }, [] {
        one<Enc>(guard().tail<char32_t>(0), 0, true);
    });
    uint64_t end = vh::thorough() ? 0x100000000ull : 0x200000ull;
    for (uint64_t blk = 0; blk < end; blk += 0x10000)
        vh::step([&] { return "utf32 block " + std::to_string(blk); }, [&] {
            auto p = guard().tail<char32_t>(1);
            for (uint64_t i = 0; i < 0x10000; ++i)
            {
                p[0] = char32_t(blk + i);
                one<Enc>(p, 1, i % 0x1000 >= 0xFFE || i % 0x1000 < 2 || (i & 0xFF) == 0x7F || (i & 0xFF) == 0x80);
            }
            vh::transitions(0x10000);
            vh::outcome(blk);
            vh::beat();
        });
    // every value with a bit above the codespace set and an arbitrary low/high boundary
    for (int bit = 21; bit < 32; ++bit)
        vh::step([&] { return "utf32 bit " + std::to_string(bit); }, [&] {
            auto p = guard().tail<char32_t>(1);
            for (uint32_t lo = 0; lo < 0x110000; lo += 0x11)
            {
                p[0] = char32_t((1u << bit) | lo);
                one<Enc>(p, 1, false);
            }
            vh::transitions(0x10000);
            p = guard().tail<char32_t>(2);
            for (uint32_t lo = 0; lo < 0x110000; lo += 0x1001)
            {
                p[0] = lo;
                p[1] = char32_t((1u << bit) | lo);
                one<Enc>(p, 2, true);
            }
        });
}
static void ascii()
{
    using Enc = lexy::ascii_encoding;
    for (unsigned a = 0; a < 256; ++a)
        vh::step([&] { return "ascii first " + std::to_string(a); }, [&] {
            auto p = guard().tail<char>(1);
            p[0]   = char(a);
            one<Enc>(p, 1, true);
            p    = guard().tail<char>(2);
            p[0] = char(a);
            for (unsigned b = 0; b < 256; ++b)
            {
                p[1] = char(b);
                one<Enc>(p, 2, true);
            }
            vh::transitions(257);
            vh::outcome(a);
        });
}

//=== classification ===//
struct PA
{
    static constexpr auto rule = dsl::code_point.ascii();
};
struct PB
{
    static constexpr auto rule = dsl::code_point.bmp();
};
struct PN
{
    static constexpr auto rule = dsl::code_point.noncharacter();
};
template <char32_t A, char32_t B>
struct PR
{
    static constexpr auto rule = dsl::code_point.range<A, B>();
};
struct PS
{
    static constexpr auto rule = dsl::code_point.set<U'a', 0x7F, 0x80, 0xFFFF, 0x10000, 0x10FFFF>();
};
struct PCc
{
    static constexpr auto rule = dsl::code_point.general_category<lexy::code_point::Cc>();
};
struct PCo
{
    static constexpr auto rule = dsl::code_point.general_category<lexy::code_point::Co>();
};
static void classify()
{
    for (uint64_t blk = 0; blk < (vh::thorough() ? 0x100000000ull : 0x400000ull); blk += 0x10000)
        vh::step([&] { return "classification block " + std::to_string(blk); }, [&] {
            for (uint64_t i = 0; i < 0x10000; ++i)
            {
                auto v  = uint32_t(blk + i);
                auto cp = lexy::code_point(char32_t(v));
                bool sur = v >= 0xD800 && v <= 0xDFFF, valid = v <= 0x10FFFF;
                bool ok  = cp.value() == v && cp.is_ascii() == (v < 128) && cp.is_bmp() == (v < 65536)
                          && cp.is_valid() == valid && cp.is_surrogate() == sur
                          && cp.is_scalar() == (valid && !sur)
                          && cp.is_control() == (v < 32 || (v >= 0x7F && v <= 0x9F))
                          && cp.is_private_use()
                                 == ((v >= 0xE000 && v <= 0xF8FF) || (v >= 0xF0000 && v <= 0xFFFFD)
                                     || (v >= 0x100000 && v <= 0x10FFFD))
                          && cp == lexy::code_point(char32_t(v)) && !(cp != lexy::code_point(char32_t(v)))
                          && cp != lexy::code_point(char32_t(v ^ 1)) && !(cp == lexy::code_point(char32_t(v ^ 0x10000)));
                bool non = (v >= 0xFDD0 && v <= 0xFDEF) || v % 0x10000 >= 0xFFFE;
                if (valid && cp.is_noncharacter() != non)
                    ok = false;
                if (!ok)
                    return vh::fail("classification of " + std::to_string(v));
                if (valid && !sur)
                {
                    char32_t c32 = v;
                    auto     in  = lexy::string_input<lexy::utf32_encoding>(&c32, 1);
                    auto     m   = [&](auto p) { return lexy::match<decltype(p)>(in); };
                    if (m(PA{}) != (v < 128) || m(PB{}) != (v < 65536) || m(PN{}) != non
                        || m(PCc{}) != cp.is_control() || m(PCo{}) != cp.is_private_use()
                        || m(PR<0x20, 0x7E>{}) != (v >= 0x20 && v <= 0x7E)
                        || m(PR<0x7F, 0x80>{}) != (v == 0x7F || v == 0x80)
                        || m(PR<0xFFFF, 0x10000>{}) != (v == 0xFFFF || v == 0x10000)
                        || m(PR<0xE000, 0x10FFFF>{}) != (v >= 0xE000)
                        || m(PS{})
                               != (v == 'a' || v == 0x7F || v == 0x80 || v == 0xFFFF || v == 0x10000
                                   || v == 0x10FFFF))
                        return vh::fail("class rule on " + std::to_string(v));
                    vh::traces(10);
                }
            }
            vh::transitions(0x10000);
            vh::beat();
        });
    vh::step([] { return std::string("default code point"); }, [] {
        lexy::code_point d;
        vh::check(!d.is_valid() && !d.is_ascii() && !d.is_bmp() && !d.is_scalar() && !d.is_surrogate(), "default constructed code point is invalid");
    });
}
static void run()
{
    ascii();
    utf8<lexy::utf8_encoding>();
    utf8<lexy::utf8_char_encoding>();
    utf16();
    utf32();
    classify();
}
VH_MAIN(run)
