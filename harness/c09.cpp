// C09: encoding code points, and decoding them back.
#include "vh.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <memory>
namespace dsl = lexy::dsl;

// oracle
template <typename S>
static void enc(S& out, uint32_t c)
{
    using C = typename S::value_type;
    if constexpr (sizeof(C) == 4)
        out.push_back(C(c));
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000)
            out.push_back(C(c));
        else
        {
            out.push_back(C(0xD7C0 + c / 1024));
            out.push_back(C(0xDC00 + c % 1024));
        }
    }
    else
    {
        if (c < 0x80)
            out.push_back(C(c));
        else if (c < 0x800)
            out.push_back(C(192 + c / 64)), out.push_back(C(128 + c % 64));
        else if (c < 0x10000)
            out.push_back(C(224 + c / 4096)), out.push_back(C(128 + c / 64 % 64)),
                out.push_back(C(128 + c % 64));
        else
            out.push_back(C(240 + c / 262144)), out.push_back(C(128 + c / 4096 % 64)),
                out.push_back(C(128 + c / 64 % 64)), out.push_back(C(128 + c % 64));
    }
}
template <typename S>
static S enc1(uint32_t c)
{
    S s;
    enc(s, c);
    return s;
}
template <typename S>
static std::string show(const S& s)
{
    std::string r;
    char        b[16];
    for (auto c : s)
    {
        snprintf(b, sizeof b, "%X ", unsigned(std::make_unsigned_t<typename S::value_type>(c)));
        r += b;
    }
    return "[" + r + "]";
}

static std::vector<uint32_t>* spy_out;
struct Spy
{
    static constexpr auto name()
    {
        return "spy";
    }
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (!__builtin_is_constant_evaluated())
            spy_out->push_back(cp.value());
        return true;
    }
};
struct PCount
{
    static constexpr auto rule  = dsl::list(dsl::capture(dsl::code_point)) + dsl::eof;
    static constexpr auto value = lexy::fold_inplace<std::vector<int>>(
        std::initializer_list<int>{}, [](std::vector<int>& v, auto lex) { v.push_back(int(lex.end() - lex.begin())); });
};
struct PSpy
{
    static constexpr auto rule = dsl::while_(dsl::code_point.if_<Spy>()) + dsl::eof;
};
// an escape with the number of the code point
template <typename S, typename Enc>
struct PEsc
{
    static constexpr auto rule = [] {
        auto esc = dsl::escape(dsl::lit_c<'\\'>).rule(dsl::lit_c<'u'> >> dsl::code_point_id<6>);
        return dsl::delimited(dsl::lit_c<'"'>)(dsl::code_point, esc);
    }();
    static constexpr auto value = lexy::as_string<S, Enc>;
};
template <typename S>
static S text(const char* s)
{
    S r;
    for (; *s; ++s)
        r.push_back(typename S::value_type(*s));
    return r;
}

template <typename S, typename Enc>
static void one(uint32_t c)
{
    using C   = typename Enc::char_type;
    auto want = enc1<S>(c);
    auto cp   = lexy::code_point(char32_t(c));
    auto bad  = [&](const char* what, const S& got) {
        vh::fail(std::string(what) + " of " + std::to_string(c) + ": expected " + show(want) + " got "
                 + show(got));
    };
    constexpr auto cb = lexy::as_string<S, Enc>;
    {
        S got = cb(cp);
        if (got != want)
            return bad("as_string", got);
        S got2 = cb(typename S::allocator_type(), cp);
        if (got2 != want)
            return bad("as_string with allocator", got2);
        auto sink = cb.sink();
        sink(cp);
        S got3 = LEXY_MOV(sink).finish();
        if (got3 != want)
            return bad("as_string sink", got3);
    }
    auto in = lexy::string_input<Enc>(want.data(), want.size());
    std::vector<uint32_t> dec;
    spy_out = &dec;
    if (!lexy::match<PSpy>(in) || (c >= 0x80 && (dec.empty() || dec.back() != c)))
        return vh::fail("decoding " + show(want) + " does not give " + std::to_string(c));
    auto r = lexy::parse<PCount>(in, lexy::noop);
    if (!r.has_value() || r.value().size() != 1 || r.value()[0] != int(want.size()))
        return vh::fail("decoding " + show(want) + " is not one code point");
    vh::traces(5);
    if (c % 16 == 0 || c % 256 >= 254 || c < 0x900)
    {
        char buf[32];
        snprintf(buf, sizeof buf, "\"a\\u%06Xb\"", c);
        auto t   = text<std::basic_string<C>>(buf);
        auto res = lexy::parse<PEsc<S, Enc>>(lexy::string_input<Enc>(t.data(), t.size()), lexy::noop);
        S    w   = text<S>("a") + want + text<S>("b");
        if (!res.has_value() || res.value() != w)
            return bad("escape", res.has_value() ? res.value() : S());
        vh::traces(1);
    }
}
template <typename S, typename Enc>
static void sweep(const char* what, uint32_t end)
{
    for (uint32_t blk = 0; blk < end; blk += 0x400)
        vh::step([&] { return std::string(what) + " block " + std::to_string(blk); }, [&] {
            for (uint32_t i = blk; i < blk + 0x400 && i < end; ++i)
                if (i < 0xD800 || i > 0xDFFF)
                    one<S, Enc>(i);
            vh::transitions(0x400);
            vh::outcome(std::string(what) + std::to_string(blk));
        });
}

static const uint32_t edge[] = {0,      'a',    0x7F,   0x80,    0x7FF,   0x800,   0xD7FF,
                                0xE000, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0x10FFFF};

// sequences through a sink, every element pushed in one of several ways
template <typename S, typename Enc>
static void sequences(const char* what, unsigned maxcp, int maxlen)
{
    std::vector<uint32_t> cps;
    for (auto e : edge)
        if (e <= maxcp)
            cps.push_back(e);
    using C = typename Enc::char_type;
    std::vector<size_t> idx;
    auto                run = [&](auto&& self) -> void {
        if (!idx.empty())
            vh::step(
                [&] {
                    std::string d = std::string(what) + " sequence";
                    for (auto i : idx)
                        d += " " + std::to_string(cps[i]);
                    return d;
                },
                [&] {
                    S want;
                    for (auto i : idx)
                        enc(want, cps[i]);
                    for (unsigned mode = 0; mode < (1u << (2 * idx.size())); ++mode)
                    {
                        auto                 sink = lexy::as_string<S, Enc>.sink();
                        std::vector<std::basic_string<C>> keep;
                        keep.reserve(8);
                        for (size_t k = 0; k < idx.size(); ++k)
                        {
                            auto c = cps[idx[k]];
                            switch ((mode >> (2 * k)) & 3)
                            {
                            case 0:
                                sink(lexy::code_point(char32_t(c)));
                                break;
                            case 1: {
                                keep.push_back(enc1<std::basic_string<C>>(c));
                                auto& s  = keep.back();
                                auto  in = lexy::string_input<Enc>(s.data(), s.size());
                                sink(lexy::lexeme_for<decltype(in)>(s.data(), s.data() + s.size()));
                                break;
                            }
                            case 2:
                                for (auto u : enc1<S>(c))
                                    sink(u);
                                break;
                            case 3:
                                sink(enc1<S>(c));
                                break;
                            }
                        }
                        S got = LEXY_MOV(sink).finish();
                        if (got != want)
                            return vh::fail("mode " + std::to_string(mode) + ": expected " + show(want)
                                            + " got " + show(got));
                    }
                    // decoding gives the sequence back
                    auto in = lexy::string_input<Enc>(want.data(), want.size());
                    auto r  = lexy::parse<PCount>(in, lexy::noop);
                    std::vector<int> lens;
                    for (auto i : idx)
                        lens.push_back(int(enc1<S>(cps[i]).size()));
                    if (!r.has_value() || r.value() != lens)
                        return vh::fail("sequence does not decode to its code points: " + show(want));
                    auto buf = lexy::buffer<Enc>(reinterpret_cast<const C*>(want.data()), want.size());
                    auto r2  = lexy::parse<PCount>(buf, lexy::noop);
                    if (!r2.has_value() || r2.value() != lens)
                        return vh::fail("sequence in a buffer does not decode to its code points: "
                                        + show(want));
                    std::vector<uint32_t> dec;
                    spy_out = &dec;
                    lexy::match<PSpy>(in);
                    std::vector<uint32_t> want_dec;
                    for (auto i : idx)
                        want_dec.push_back(cps[i]);
                    auto strip = [](std::vector<uint32_t>& v) {
                        std::erase_if(v, [](uint32_t x) { return x < 0x80; });
                    };
                    strip(dec), strip(want_dec);
                    if (dec != want_dec)
                        return vh::fail("decoded values differ for " + show(want));
                    vh::traces(4 + (1u << (2 * idx.size())));
                    vh::transitions(idx.size() << (2 * idx.size()));
                    vh::outcome(show(want));
                });
        if (int(idx.size()) == maxlen)
            return;
        for (size_t i = 0; i < cps.size(); ++i)
        {
            idx.push_back(i);
            self(self);
            idx.pop_back();
        }
    };
    run(run);
}

// literals given as code points
template <char32_t... C>
struct PLit
{
    static constexpr auto rule = dsl::lit_cp<C...> + dsl::eof;
};
template <typename S, typename Enc, char32_t... C>
static void literal()
{
    S lit;
    (enc(lit, C), ...);
    vh::step([&] { return "literal " + show(lit); }, [&] {
        for (auto a : edge)
            for (auto b : edge)
                for (int n = 0; n < 3; ++n)
                {
                    S t;
                    if (n > 0)
                        enc(t, a);
                    if (n > 1)
                        enc(t, b);
                    if (lexy::match<PLit<C...>>(lexy::string_input<Enc>(t.data(), t.size()))
                        != (t == lit))
                        return vh::fail("lit_cp on " + show(t));
                    vh::traces(1);
                }
        vh::outcome("lit" + show(lit));
    });
}
template <typename S, typename Enc>
static void literals()
{
    literal<S, Enc, 0>();
    literal<S, Enc, 0x7F>();
    literal<S, Enc, 0x80>();
    literal<S, Enc, 0x7FF>();
    literal<S, Enc, 0x800>();
    literal<S, Enc, 0xD7FF>();
    literal<S, Enc, 0xE000>();
    literal<S, Enc, 0xFFFF>();
    literal<S, Enc, 0x10000>();
    literal<S, Enc, 0x1FFFF>();
    literal<S, Enc, 0x20000>();
    literal<S, Enc, 0x10FFFF>();
    literal<S, Enc, 'a', 0x10FFFF>();
    literal<S, Enc, 0x800, 0x80>();
    literal<S, Enc, 0x10000, 'a'>();
}

static void run()
{
    using namespace lexy;
    constexpr uint32_t all = 0x110000;
    sweep<std::string, ascii_encoding>("ascii", 0x80);
    sweep<std::u8string, utf8_encoding>("utf8", all);
    sweep<std::string, utf8_encoding>("utf8 in char", all);
    sweep<std::string, utf8_char_encoding>("utf8-char", all);
    sweep<std::u16string, utf16_encoding>("utf16", all);
    sweep<std::u32string, utf32_encoding>("utf32", all);
    int l = vh::thorough() ? 4 : 3;
    sequences<std::string, ascii_encoding>("ascii", 0x7F, 4);
    sequences<std::u8string, utf8_encoding>("utf8", all, l);
    sequences<std::string, utf8_char_encoding>("utf8-char", all, l);
    sequences<std::u16string, utf16_encoding>("utf16", all, l);
    sequences<std::u32string, utf32_encoding>("utf32", all, l);
    literals<std::u8string, utf8_encoding>();
    literals<std::string, utf8_char_encoding>();
    literals<std::u16string, utf16_encoding>();
    literals<std::u32string, utf32_encoding>();
}
VH_MAIN(run)
