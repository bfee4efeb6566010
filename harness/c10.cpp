// C10: every code point against the Unicode 15.0 character database (Perl's copy of it).
#include "parts.hpp"
#include "../data/ucd15.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <map>
namespace dsl = lexy::dsl;

static bool in(const uint32_t* l, uint32_t c)
{
    // inversion list: count the boundaries <= c
    unsigned lo = 0, hi = 0;
    while (l[hi] != 0xFFFFFFFF)
        ++hi;
    while (lo < hi)
    {
        auto mid = (lo + hi) / 2;
        if (l[mid] <= c)
            lo = mid + 1;
        else
            hi = mid;
    }
    return lo % 2 == 1;
}
struct Row
{
    char     gc[3];
    bool     upper, lower, alpha, space, xids, xidc, join;
    uint32_t fold;
};
static std::vector<Row>& table()
{
    static std::vector<Row> t = [] {
        std::vector<Row> t(0x110000);
        size_t           g = 0;
        for (uint32_t c = 0; c < 0x110000; ++c)
        {
            while (ucd::Gc[g + 1].from <= c)
                ++g;
            auto& r = t[c];
            std::memcpy(r.gc, ucd::Gc[g].gc, 3);
            r.upper = in(ucd::Uppercase, c), r.lower = in(ucd::Lowercase, c);
            r.alpha = in(ucd::Alphabetic, c), r.space = in(ucd::White_Space, c);
            r.xids = in(ucd::XID_Start, c), r.xidc = in(ucd::XID_Continue, c);
            r.join = in(ucd::Join_Control, c);
            r.fold = c;
        }
        for (auto* s = ucd::Scf; s->from != 0xFFFFFFFF; ++s)
            for (auto c = s->from; c <= s->to; ++c)
                t[c].fold = s->fold + (c - s->from);
        return t;
    }();
    return t;
}
static bool gc(const Row& r, const char* s)
{
    return r.gc[0] == s[0] && (!s[1] || r.gc[1] == s[1]);
}

template <typename R>
struct PM
{
    static constexpr auto rule = R{} + dsl::eof;
};
template <typename R>
struct PI
{
    static constexpr auto rule  = dsl::identifier(R{}) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](auto lex, auto pos) {
        return lex.end() == pos ? long(lex.end() - lex.begin()) : -7;
    });
};
template <typename R>
struct PE
{
    static constexpr auto rule  = R{} + dsl::position;
    static constexpr auto value = lexy::noop;
};
template <typename S>
static S enc1(uint32_t c)
{
    using C = typename S::value_type;
    S out;
    if constexpr (sizeof(C) == 4)
        out.push_back(C(c));
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000)
            out.push_back(C(c));
        else
            out.push_back(C(0xD7C0 + c / 1024)), out.push_back(C(0xDC00 + c % 1024));
    }
    else if (c < 0x80)
        out.push_back(C(c));
    else if (c < 0x800)
        out.push_back(C(192 + c / 64)), out.push_back(C(128 + c % 64));
    else if (c < 0x10000)
        out.push_back(C(224 + c / 4096)), out.push_back(C(128 + c / 64 % 64)),
            out.push_back(C(128 + c % 64));
    else
        out.push_back(C(240 + c / 262144)), out.push_back(C(128 + c / 4096 % 64)),
            out.push_back(C(128 + c / 64 % 64)), out.push_back(C(128 + c % 64));
    return out;
}
struct NameCb
{
    static inline std::string last;
    struct S
    {
        using return_type = std::size_t;
        std::size_t n     = 0;
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            last = e.name();
            ++n;
        }
        template <typename Ctx, typename Error>
        void operator()(const Ctx&, const Error&)
        {
            last = "other";
            ++n;
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    auto sink() const
    {
        return S{};
    }
};

// One class: R the rule, want the membership.
template <typename R, typename Fn>
static void cls(const char* name, Fn want, bool all_encodings)
{
    auto& t = table();
    for (uint32_t blk = 0; blk < 0x110000; blk += 0x2000)
        vh::step([&] { return std::string(name) + " block " + std::to_string(blk); }, [&] {
            for (uint32_t c = blk; c < blk + 0x2000; ++c)
            {
                if (c >= 0xD800 && c <= 0xDFFF)
                    continue;
                bool w   = want(c, t[c]);
                auto bad = [&](const char* e) {
                    vh::fail(std::string(e) + ": code point " + std::to_string(c) + " expected "
                             + (w ? "match" : "no match"));
                };
                auto m = [&]<typename Enc>(Enc) {
                    auto s = enc1<std::basic_string<typename Enc::char_type>>(c);
                    vh::traces(1);
                    return lexy::match<PM<R>>(lexy::string_input<Enc>(s.data(), s.size())) == w;
                };
                if (!m(lexy::utf32_encoding{}))
                    return bad("utf32");
                if (all_encodings || c % 64 == 0 || c < 0x300 || t[c].gc[1] != t[c ? c - 1 : 0].gc[1])
                {
                    if (!m(lexy::utf8_encoding{}))
                        return bad("utf8");
                    if (!m(lexy::utf8_char_encoding{}))
                        return bad("utf8 char");
                    if (!m(lexy::utf16_encoding{}))
                        return bad("utf16");
                    if (c < 128 && !m(lexy::ascii_encoding{}))
                        return bad("ascii");
                }
            }
            vh::transitions(0x2000);
            vh::outcome(std::string(name) + std::to_string(blk));
        });
    // error name
    vh::step([&] { return std::string(name) + " error"; }, [&] {
        auto r = lexy::parse<PE<R>>(lexy::string_input<lexy::utf8_char_encoding>("", std::size_t(0)), NameCb{});
        vh::check(r.error_count() == 1, "exactly one error");
        vh::eq("class name", name, NameCb::last);
    });
}
// runs of characters in a buffer are scanned a word at a time
template <typename R, typename Fn>
static void runs(const char* name, Fn want)
{
    auto& t = table();
    static const uint32_t others[] = {0x80, 0x85, 0x9F, 0xA0, 0xAA, 0xB5, 0xC0, 0xE0, 0xFF, 0x2B0, 0x300, 0x660,
                                      0x1680, 0x2003, 0x200C, 0x2028, 0x2029, 0x2040, 0x4E00, 0xAC00, 0xE000, 0xFFFF, 0x10000, 0x1D400, 0x1D7CE, 0x10FFFF};
    std::vector<uint32_t> probe;
    for (uint32_t c = 0; c < 128; ++c)
        probe.push_back(c);
    for (auto o : others)
        probe.push_back(o);
    std::vector<uint32_t> fill; // members of the class
    for (uint32_t c = 0; c < 128 && fill.size() < 40; ++c)
        if (want(c, t[c]))
            fill.push_back(c);
    if (fill.empty())
        for (auto o : others)
            if (want(o, t[o]))
                fill.push_back(o);
    if (fill.empty())
        return;
    for (auto p : probe)
        vh::step([&] { return std::string(name) + " run with " + std::to_string(p); }, [&] {
            auto go = [&]<typename Enc>(Enc) {
                using S = std::basic_string<typename Enc::char_type>;
                for (int len : {0, 1, 3, 7, 8, 9, 15, 17})
                    for (int pos = 0; pos <= len; ++pos)
                    {
                        S    s;
                        long end = -1;
                        for (int i = 0; i < len + 1; ++i)
                        {
                            uint32_t c = i == pos ? p : fill[size_t(i * 7 + pos) % fill.size()];
                            if (end < 0 && !want(c, t[c]))
                                end = long(s.size());
                            s += enc1<S>(c);
                        }
                        if (end < 0)
                            end = long(s.size());
                        auto buf = lexy::buffer<Enc>(s.data(), s.size());
                        auto r   = lexy::parse<PI<R>>(buf, lexy::noop);
                        long got = r.has_value() ? r.value() : 0;
                        vh::traces(1);
                        if (got != end)
                            return vh::fail("length " + std::to_string(len) + " position "
                                            + std::to_string(pos) + ": expected end " + std::to_string(end)
                                            + " got " + std::to_string(got));
                    }
            };
            go(lexy::utf8_encoding{});
            go(lexy::utf8_char_encoding{});
            go(lexy::utf16_encoding{});
            go(lexy::utf32_encoding{});
            vh::transitions(4 * 60);
        });
}

#define CLS(ID, RULE, NAME, EXPR)                                                                  \
    static int reg##ID = parts::add<ID>([](auto) {                                                       \
        auto want = [](uint32_t c, const Row& r) -> bool { return EXPR; };                         \
        using R   = std::decay_t<decltype(RULE)>;                                                  \
        cls<R>(NAME, want, vh::thorough() || ID < 20);                                             \
        runs<R>(NAME, want);                                                                       \
    });
namespace u = dsl::unicode;
#define BLANK (gc(r, "Zs") || c == '\t')
#define WORD (r.alpha || gc(r, "Nd") || gc(r, "M") || gc(r, "Pc") || r.join)
#define GRAPH (!r.space && !gc(r, "Cc") && !gc(r, "Cs") && !gc(r, "Cn"))
CLS(0, u::control, "code-point.control", gc(r, "Cc"))
CLS(1, -u::control, "code-point.non-control", !gc(r, "Cc"))
CLS(2, u::blank, "code-point.blank", BLANK)
CLS(3, u::newline, "code-point.newline",
    c == '\r' || c == '\n' || c == 0x85 || c == 0x2028 || c == 0x2029)
CLS(4, u::other_space, "code-point.other-space", c == '\f' || c == '\v')
CLS(5, u::space, "code-point.whitespace", r.space)
CLS(6, u::digit, "code-point.decimal-number", gc(r, "Nd"))
CLS(7, u::lower, "code-point.lowercase", r.lower)
CLS(8, u::upper, "code-point.uppercase", r.upper)
CLS(9, u::alpha, "code-point.alphabetic", r.alpha)
CLS(10, u::alpha_digit, "code-point.alphabetic-decimal", r.alpha || gc(r, "Nd"))
CLS(11, u::alnum, "code-point.alphabetic-decimal", r.alpha || gc(r, "Nd"))
CLS(12, u::word, "code-point.word", WORD)
CLS(13, u::graph, "code-point.graph", GRAPH)
CLS(14, u::print, "code-point.print", (GRAPH || BLANK) && !gc(r, "Cc"))
CLS(15, u::character, "code-point.character", !gc(r, "Cn"))
CLS(16, u::xid_start, "code-point.XID-start", r.xids)
CLS(17, u::xid_start_underscore, "code-point.XID-start-underscore", r.xids || c == '_')
CLS(18, u::xid_continue, "code-point.XID-continue", r.xidc)
#define GCAT(ID, X, NAME)                                                                          \
    CLS(ID, dsl::code_point.general_category<lexy::code_point::X>(), "code-point." NAME, gc(r, #X))
GCAT(20, Lu, "uppercase-letter")
GCAT(21, Ll, "lowercase-letter")
GCAT(22, Lt, "titlecase-letter")
GCAT(23, Lm, "modifier-letter")
GCAT(24, Lo, "other-letter")
GCAT(25, Mn, "nonspacing-mark")
GCAT(26, Mc, "combining-mark")
GCAT(27, Me, "enclosing-mark")
GCAT(28, Nd, "decimal-number")
GCAT(29, Nl, "letter-number")
GCAT(30, No, "other-number")
GCAT(31, Pc, "connector-punctuation")
GCAT(32, Pd, "dash-punctuation")
GCAT(33, Ps, "open-punctuation")
GCAT(34, Pe, "close-punctuation")
GCAT(35, Pi, "initial-quote-punctuation")
GCAT(36, Pf, "final-quote-punctuation")
GCAT(37, Po, "other-punctuation")
GCAT(38, Sm, "math-symbol")
GCAT(39, Sc, "currency-symbol")
GCAT(40, Sk, "modifier-symbol")
GCAT(41, So, "other-symbol")
GCAT(42, Zs, "space-separator")
GCAT(43, Zl, "line-separator")
GCAT(44, Zp, "paragraph-separator")
GCAT(45, Cc, "control")
GCAT(46, Cf, "format")
GCAT(48, Co, "private-use")
GCAT(49, Cn, "not-assigned")
GCAT(50, L, "letter")
GCAT(51, M, "mark")
GCAT(52, N, "number")
GCAT(53, P, "punctuation")
GCAT(54, S, "symbol")
GCAT(55, Z, "separator")
GCAT(56, C, "other")
CLS(57, dsl::code_point.general_category<lexy::code_point::LC>(), "code-point.cased-letter",
    gc(r, "Lu") || gc(r, "Ll") || gc(r, "Lt"))
CLS(58, dsl::code_point.general_category<lexy::code_point::letter>(), "code-point.letter", gc(r, "L"))

// the functions
struct PF8
{
    static constexpr auto rule  = dsl::capture(dsl::any);
    static constexpr auto value = lexy::as_string<std::u8string>.case_folding(dsl::unicode::simple_case_folding);
};
struct PF16
{
    static constexpr auto rule  = dsl::capture(dsl::any);
    static constexpr auto value = lexy::as_string<std::u16string>.case_folding(dsl::unicode::simple_case_folding);
};
struct PF32
{
    static constexpr auto rule  = dsl::capture(dsl::any);
    static constexpr auto value = lexy::as_string<std::u32string>.case_folding(dsl::unicode::simple_case_folding);
};
static int regf = parts::add<60>([](auto) {
    using cp = lexy::code_point;
    std::map<std::string, cp::general_category_t> cat{
        {"Lu", cp::Lu}, {"Ll", cp::Ll}, {"Lt", cp::Lt}, {"Lm", cp::Lm}, {"Lo", cp::Lo},
        {"Mn", cp::Mn}, {"Mc", cp::Mc}, {"Me", cp::Me}, {"Nd", cp::Nd}, {"Nl", cp::Nl},
        {"No", cp::No}, {"Pc", cp::Pc}, {"Pd", cp::Pd}, {"Ps", cp::Ps}, {"Pe", cp::Pe},
        {"Pi", cp::Pi}, {"Pf", cp::Pf}, {"Po", cp::Po}, {"Sm", cp::Sm}, {"Sc", cp::Sc},
        {"Sk", cp::Sk}, {"So", cp::So}, {"Zs", cp::Zs}, {"Zl", cp::Zl}, {"Zp", cp::Zp},
        {"Cc", cp::Cc}, {"Cf", cp::Cf}, {"Cs", cp::Cs}, {"Co", cp::Co}, {"Cn", cp::Cn}};
    auto& t = table();
    for (uint32_t blk = 0; blk < 0x110000; blk += 0x1000)
        vh::step([&] { return "properties of block " + std::to_string(blk); }, [&] {
            for (uint32_t c = blk; c < blk + 0x1000; ++c)
            {
                auto p   = cp(char32_t(c));
                auto g   = p.general_category();
                auto bad = [&](const char* w) { vh::fail(std::string(w) + " of " + std::to_string(c)); };
                if (g != cat[t[c].gc])
                    return bad("general category");
                auto& r = t[c];
                if ((g == cp::L) != gc(r, "L") || (g == cp::M) != gc(r, "M") || (g == cp::N) != gc(r, "N")
                    || (g == cp::P) != gc(r, "P") || (g == cp::S) != gc(r, "S")
                    || (g == cp::Z) != gc(r, "Z") || (g == cp::C) != gc(r, "C")
                    || (g == cp::LC) != (gc(r, "Lu") || gc(r, "Ll") || gc(r, "Lt"))
                    || (cp::cased_letter != g) == (g == cp::LC) || (g != cp::other) == gc(r, "C"))
                    return bad("category group");
                if (lexy::simple_case_fold(p).value() != r.fold)
                    return bad("simple case folding");
                if (c >= 0xD800 && c <= 0xDFFF)
                    continue;
                auto fold = [&]<typename P, typename Enc>(P, Enc) {
                    using S = std::basic_string<typename Enc::char_type>;
                    auto s  = enc1<S>(c) + enc1<S>('A') + enc1<S>(c);
                    auto res = lexy::parse<P>(lexy::string_input<Enc>(s.data(), s.size()), lexy::noop);
                    vh::traces(1);
                    return res.has_value()
                           && res.value() == enc1<S>(r.fold) + enc1<S>('a') + enc1<S>(r.fold);
                };
                if (!fold(PF8{}, lexy::utf8_encoding{}) || !fold(PF16{}, lexy::utf16_encoding{})
                    || !fold(PF32{}, lexy::utf32_encoding{}))
                    return bad("case folding of a string");
            }
            vh::transitions(0x1000);
            vh::outcome("block" + std::to_string(blk));
        });
    vh::step([&] { return std::string("beyond the codespace"); }, [&] {
        for (uint32_t c : {0x110000u, 0x110041u, 0x1FFFFFu, 0x200041u, 0x7FFFFFFFu, 0x80000041u, 0xFFFFFFFFu})
        {
            vh::check(cp(char32_t(c)).general_category() == cp::Cn, "invalid code points are unassigned");
            vh::check(lexy::simple_case_fold(cp(char32_t(c))).value() == c, "invalid code points fold to themselves");
        }
    });
});
PARTS_MAIN
