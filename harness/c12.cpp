// C12: literals, literal sets, keywords, follow restrictions, case folding, symbol tables.
#include "parts.hpp"
#include "uenc.hpp"
#include "../data/ucd15.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <map>
namespace dsl = lexy::dsl;
using uenc::Text;
using uenc::u32;

//=== the model ===//
static u32 ufold(u32 c)
{
    static std::map<u32, u32> m = [] {
        std::map<u32, u32> m;
        for (auto* s = ucd::Scf; s->from != 0xFFFFFFFF; ++s)
            for (auto c = s->from; c <= s->to; ++c)
                m[c] = s->fold + (c - s->from);
        return m;
    }();
    auto it = m.find(c);
    return it == m.end() ? c : it->second;
}
static u32 fold(int kind, u32 c)
{
    if (kind == 1)
        return c >= 'A' && c <= 'Z' ? c + 32 : c;
    if (kind == 2)
        return ufold(c);
    return c;
}
static Text foldt(int kind, Text t)
{
    for (auto& c : t)
        c = char32_t(fold(kind, u32(c)));
    return t;
}
using Cls = bool (*)(u32);
static bool alpha(u32 c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
static bool alnum(u32 c)
{
    return alpha(c) || (c >= '0' && c <= '9');
}
static bool eqs(u32 c)
{
    return c == '=';
}
static bool bc(u32 c)
{
    return c == 'b' || c == 'c';
}
static bool none(u32)
{
    return false;
}
struct Item
{
    Text text;
    int  fold = 0; // 0 none, 1 ASCII, 2 simple Unicode
    char kind = 'l'; // l literal, k keyword, n not followed, f followed
    Cls  cls  = none; // follow class / trailing class
    Cls  lead = none; // leading class of the identifier
};
// number of characters matched, or -1
static long matches(const Item& i, const Text& in, int f)
{
    auto t = foldt(f, in);
    if (t.compare(0, i.text.size(), i.text) != 0)
        return -1;
    auto n    = i.text.size();
    bool next = n < t.size() && i.cls(u32(t[n]));
    if (i.kind == 'k' || i.kind == 'n')
        return next ? -1 : long(n);
    if (i.kind == 'f')
        return next || n == t.size() ? long(n) : -1; // = not_followed_by(lit, -cls)
    return long(n);
}

//=== observing lexy ===//
struct Err
{
    std::string kind;
    Text        str;   // ASCII literals only
    long        begin = -1, end = -1, index = -1, length = -1;
};
inline std::vector<Err>& errs()
{
    static std::vector<Err> v;
    return v;
}
inline const char* g_base;
inline size_t      g_size;
struct Cb
{
    struct S
    {
        using return_type = std::size_t;
        std::size_t n     = 0;
        template <typename It>
        static long at(It it)
        {
            return long((reinterpret_cast<const char*>(&*it) - g_base) / long(g_size));
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_literal>& e)
        {
            Err r;
            r.kind = "literal", r.begin = at(e.position()), r.index = long(e.index()), r.length = long(e.length());
            for (std::size_t i = 0; i < e.length(); ++i)
                r.str.push_back(char32_t(lexy::_detail::make_uchar(e.string()[i])));
            errs().push_back(r);
            ++n;
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_keyword>& e)
        {
            Err r;
            r.kind = "keyword", r.begin = at(e.begin()), r.end = at(e.end()), r.length = long(e.length());
            for (std::size_t i = 0; i < e.length(); ++i)
                r.str.push_back(char32_t(lexy::_detail::make_uchar(e.string()[i])));
            errs().push_back(r);
            ++n;
        }
        template <typename Ctx, typename Reader, typename Tag>
        void operator()(const Ctx&, const lexy::error<Reader, Tag>& e)
        {
            Err r;
            if constexpr (std::is_same_v<Tag, lexy::expected_char_class>)
                r.kind = e.name(), r.begin = r.end = at(e.position());
            else
                r.kind = e.message(), r.begin = at(e.begin()), r.end = at(e.end());
            errs().push_back(r);
            ++n;
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
template <typename R>
struct P
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::capture(R{}) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](auto l, auto pos) { return l.end() == pos ? long(l.size()) : -9; });
};
template <typename R>
struct PB
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::opt(dsl::capture(R{})) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](lexy::nullopt, auto) { return -1l; },
                                                       [](auto l, auto pos) { return l.end() == pos ? long(l.size()) : -9; });
};
struct Seen
{
    bool             ok = false;
    long             len = -1, blen = -1;
    std::vector<Err> errs;
};
template <typename R, bool Branch, typename Input>
static Seen observe_in(const Input& in, const void* base, size_t size)
{
    Seen s;
    g_base = static_cast<const char*>(base) + size; // behind the ^
    g_size = size;
    errs().clear();
    auto r = lexy::parse<P<R>>(in, Cb{});
    s.ok   = r.is_success();
    s.len  = r.has_value() ? r.value() : -1;
    s.errs = errs();
    vh::traces(1);
    if constexpr (Branch)
    {
        auto b = lexy::parse<PB<R>>(in, Cb{});
        s.blen = b.has_value() && b.is_success() ? b.value() : -7;
    }
    return s;
}
template <typename R, bool Branch, typename Enc>
static Seen observe(const std::basic_string<typename Enc::char_type>& t, bool buffer)
{
    using C = typename Enc::char_type;
    auto full = std::basic_string<C>(1, C('^')) + t;
    if (buffer)
    {
        auto b = lexy::buffer<Enc>(full.data(), full.size());
        return observe_in<R, Branch>(b, b.data(), sizeof(C));
    }
    return observe_in<R, Branch>(lexy::string_input<Enc>(full.data(), full.size()), full.data(), sizeof(C));
}
static std::string describe(const Seen& s)
{
    std::string r = "len " + std::to_string(s.len) + " branch " + std::to_string(s.blen);
    for (auto& e : s.errs)
        r += " " + e.kind + " " + uenc::show(e.str) + "[" + std::to_string(e.begin) + "," + std::to_string(e.end) + ") index "
             + std::to_string(e.index) + "/" + std::to_string(e.length);
    return r;
}

// single: one literal-like rule; otherwise a set
template <typename R, typename Enc, bool Branch = true>
static bool check(const std::vector<Item>& items, bool set, const Text& in, bool buffer, const char* what)
{
    using C   = typename Enc::char_type;
    int f     = 0;
    for (auto& i : items)
        f = std::max(f, i.fold);
    long best = -1;
    for (auto& i : items)
        best = std::max(best, matches(i, in, f));
    auto t  = uenc::to<C>(in);
    auto s  = observe<R, Branch, Enc>(t, buffer);
    auto ex = best < 0 ? -1 : uenc::units<C>(in, size_t(best));
    auto bad = [&](std::string m) {
        vh::fail(std::string(what) + (buffer ? " buffer " : " string ") + uenc::show(in) + ": " + m + "; got " + describe(s));
        return false;
    };
    if (Branch && s.blen != ex)
        return bad("branch: expected " + std::to_string(ex));
    if (ex >= 0)
    {
        if (!s.ok || s.len != ex)
            return bad("expected length " + std::to_string(ex));
        return true;
    }
    if (s.len != -1 || s.errs.size() != 1)
        return bad("expected one error");
    auto& e = s.errs[0];
    if (set)
        return e.kind == "expected literal set" && e.begin == 0 && e.end == 0 ? true : bad("expected a set error");
    auto& i   = items[0];
    auto  ft  = foldt(f, in);
    auto  lit = uenc::to<C>(i.text);
    Text  litu;
    for (auto c : lit)
        litu.push_back(char32_t(lexy::_detail::make_uchar(c)));
    if (i.kind == 'k')
    {
        // the whole identifier
        size_t n = 0;
        if (!ft.empty() && i.lead(u32(ft[0])))
            for (n = 1; n < ft.size() && i.cls(u32(ft[n]));)
                ++n;
        return e.kind == "keyword" && e.begin == 0 && e.end == uenc::units<C>(in, n) && e.str == litu ? true : bad("expected a keyword error");
    }
    if (i.kind != 'l' && ft.compare(0, i.text.size(), i.text) == 0)
    {
        auto n = uenc::units<C>(in, i.text.size());
        return e.kind == "follow restriction" && e.begin == n && e.end == n ? true : bad("expected a follow restriction error");
    }
    if (e.kind != "literal" || e.begin != 0 || e.str != litu)
        return bad("expected a literal error");
    auto   fu = uenc::to<C>(ft);
    size_t n  = 0;
    while (n < fu.size() && n < lit.size() && fu[n] == lit[n])
        ++n;
    if (i.fold < 2 || sizeof(C) == 4 || (uenc::ascii(in) && uenc::ascii(i.text)))
        if (e.index != long(n))
            return bad("expected index " + std::to_string(n));
    return true;
}
template <typename R, bool Branch = true>
static bool everywhere(const std::vector<Item>& items, bool set, const Text& in)
{
    return check<R, lexy::utf8_char_encoding, Branch>(items, set, in, false, "utf8_char") && check<R, lexy::utf8_char_encoding, Branch>(items, set, in, true, "utf8_char")
           && check<R, lexy::utf32_encoding, Branch>(items, set, in, true, "utf32") && check<R, lexy::utf16_encoding, Branch>(items, set, in, false, "utf16");
}
template <typename R>
static bool more(const std::vector<Item>& items, bool set, const Text& in)
{
    bool a = uenc::ascii(in);
    for (auto& i : items)
        a = a && uenc::ascii(i.text);
    return check<R, lexy::utf8_encoding>(items, set, in, true, "utf8") && check<R, lexy::utf16_encoding>(items, set, in, true, "utf16")
           && check<R, lexy::utf32_encoding>(items, set, in, false, "utf32")
           && (!a || check<R, lexy::ascii_encoding>(items, set, in, true, "ascii"));
}
// every near miss of the literal: truncated, continued, one or two characters changed
template <typename F>
static void near(const Text& lit, const Text& chars, F f)
{
    for (size_t n = 0; n <= lit.size(); ++n)
        f(lit.substr(0, n));
    for (auto c : chars)
        f(lit + Text(1, c)), f(lit + Text(9, c));
    for (size_t i = 0; i < lit.size(); ++i)
        for (auto c : chars)
        {
            auto t = lit;
            t[i]   = c;
            f(t);
            f(t + U"z");
            f(t.substr(0, i + 1));
            for (size_t j = i + 1; j < lit.size(); j += 3)
            {
                auto u = t;
                u[j]   = c;
                f(u);
            }
        }
}

//=== single literals ===//
template <typename R>
static void single(const char* text, std::vector<Item> items, const Text& alphabet, int len, const Text& dev)
{
    vh::step([&] { return std::string(text) + " on all strings"; }, [&] {
        bool go = true;
        uenc::all(alphabet, len, [&](const Text& t) { go = go && everywhere<R>(items, false, t); });
        vh::transitions(100);
        vh::outcome(text);
    });
    vh::step([&] { return std::string(text) + " on near misses"; }, [&] {
        bool go = true;
        near(items[0].text, dev, [&](const Text& t) { go = go && everywhere<R>(items, false, t) && more<R>(items, false, t); });
        vh::transitions(100);
        vh::outcome(std::string(text) + "near");
    });
}
constexpr auto id_  = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit);
#define SINGLE(ID, RULE, ALPHA, LEN, DEV, ...)                                                     \
    static int s##ID = parts::add<ID>([](auto) {                                                   \
        using R = std::decay_t<decltype(RULE)>;                                                    \
        single<R>(#RULE, {Item __VA_ARGS__}, ALPHA, LEN, DEV);                                     \
    });
SINGLE(1, LEXY_LIT("a"), U"ab\u00e4", 3, U"bA\u0161", {U"a"})
SINGLE(2, LEXY_LIT("ab"), U"ab\u00e4", 3, U"bA\u0161", {U"ab"})
SINGLE(3, LEXY_LIT("aba"), U"abc", 5, U"bA\u0161", {U"aba"})
SINGLE(4, LEXY_LIT("abcdefg"), U"a", 3, U"bG\u0161", {U"abcdefg"})
SINGLE(5, LEXY_LIT("abcdefgh"), U"a", 3, U"bH\u0161", {U"abcdefgh"})
SINGLE(6, LEXY_LIT("abcdefghi"), U"a", 3, U"bI\u0161", {U"abcdefghi"})
SINGLE(7, LEXY_LIT("aaaaaaaaaaaaaaa"), U"a", 20, U"bA\u0161", {U"aaaaaaaaaaaaaaa"})
SINGLE(8, LEXY_LIT("abcdefghijklmnop"), U"a", 3, U"bA\u0161", {U"abcdefghijklmnop"})
SINGLE(9, LEXY_LIT("abcdefghijklmnopqrs"), U"a", 3, U"bA\u0161", {U"abcdefghijklmnopqrs"})
SINGLE(10, dsl::lit_c<'a'>, U"ab\u00e4", 3, U"bA\u0161", {U"a"})
SINGLE(11, (dsl::lit_b<'a', 'b', 'c'>), U"abc", 4, U"bA\u0161", {U"abc"})
SINGLE(12, dsl::lit_cp<0xE4>, U"a\u00e4\u00e5\u0161", 3, U"b\u00e5\u0124\u20e4\U000100e4", {U"\u00e4"})
SINGLE(13, (dsl::lit_cp<0x20AC, 'a', 0x1F642>), U"a\u20ac\U0001f642", 4, U"b\u20ad\u10ac\U0001f643\U0001e642", {U"\u20aca\U0001f642"})
SINGLE(14, (dsl::lit_cp<0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF>), U"a\u0080", 2, U"b\u0081\U00010001", {U"\x7f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff"})
SINGLE(16, dsl::ascii::case_folding(LEXY_LIT("az_`{[@1")), U"aA", 2, U"aAzZ_`{[@1\x1a\x7f\u00e1\u0141", {U"az_`{[@1", 1})
SINGLE(17, dsl::ascii::case_folding(LEXY_LIT("abcdefghij")), U"aA", 2, U"aAbBjJ\u00e1\u0141", {U"abcdefghij", 1})
SINGLE(18, dsl::ascii::case_folding(LEXY_LIT("ab")), U"abAB", 4, U"aA\u00e1", {U"ab", 1})
SINGLE(19, (dsl::ascii::case_folding(dsl::lit_cp<'k', 0xE4>)), U"kK\u00e4\u00c4\u212a", 3, U"K\u00c4", {U"k\u00e4", 1})
SINGLE(20, dsl::unicode::simple_case_folding(LEXY_LIT("ks")), U"ksKS\u212a\u017f\u00e4", 4, U"K\u212aS\u017f\u1e9b", {U"ks", 2})
SINGLE(21, (dsl::unicode::simple_case_folding(dsl::lit_cp<0xE5, 'k', 0x3C9, 0x10428>)), U"k\u00e5", 2, U"\u00c5\u212bK\u212a\u03a9\u2126\U00010400\U00010428\u00e5\u03c9", {U"\u00e5k\u03c9\U00010428", 2})
SINGLE(22, (dsl::unicode::simple_case_folding(dsl::lit_cp<0x2C65, 0x23A>)), U"\u2c65\u023a", 3, U"\u023a", {U"\u2c65\u023a", 2})
SINGLE(23, (dsl::unicode::simple_case_folding(LEXY_LIT("abcdefghijk"))), U"aA", 2, U"aAkK\u212a", {U"abcdefghijk", 2})
// follow restrictions
SINGLE(30, (dsl::not_followed_by(LEXY_LIT("="), dsl::lit_c<'='>)), U"=a\u00e4", 4, U"=a", {U"=", 0, 'n', eqs})
SINGLE(31, (dsl::not_followed_by(LEXY_LIT("a"), dsl::ascii::alpha)), U"abB1\u00e4", 4, U"A1b", {U"a", 0, 'n', alpha})
SINGLE(32, (dsl::followed_by(LEXY_LIT("a"), dsl::ascii::alpha)), U"abB1\u00e4", 4, U"A1b", {U"a", 0, 'f', alpha})
SINGLE(33, (dsl::not_followed_by(LEXY_LIT("abcdefgh"), dsl::lit_c<'b'> / dsl::lit_c<'c'>)), U"abc", 2, U"abc\u00e4", {U"abcdefgh", 0, 'n', bc})
SINGLE(34, (dsl::followed_by(LEXY_LIT("ab"), dsl::lit_c<'b'> / dsl::lit_c<'c'>)), U"abcC", 4, U"abC\u00e4", {U"ab", 0, 'f', bc})
SINGLE(35, (dsl::not_followed_by(dsl::ascii::case_folding(LEXY_LIT("ab")), dsl::lit_c<'b'> / dsl::lit_c<'c'>)), U"abcABC", 3, U"ABC\u00e4", {U"ab", 1, 'n', bc})
SINGLE(36, (dsl::ascii::case_folding(dsl::not_followed_by(LEXY_LIT("ab"), dsl::lit_c<'b'> / dsl::lit_c<'c'>))), U"abcABC", 3, U"ABC\u00e4", {U"ab", 1, 'n', bc})
SINGLE(37, (dsl::followed_by(dsl::ascii::case_folding(LEXY_LIT("ab")), dsl::lit_c<'b'> / dsl::lit_c<'c'>)), U"abcABC", 3, U"ABC\u00e4", {U"ab", 1, 'f', bc})
SINGLE(38, (dsl::unicode::simple_case_folding(dsl::not_followed_by(LEXY_LIT("k"), dsl::lit_c<'b'> / dsl::lit_c<'c'>))), U"kKbB\u212a\u00e4", 3, U"KBC\u212a", {U"k", 2, 'n', bc})
SINGLE(39, (dsl::not_followed_by(dsl::unicode::simple_case_folding(dsl::lit_cp<0xE5>), dsl::lit_c<'b'> / dsl::lit_c<'c'>)), U"\u00e5\u00c5\u212bbBa", 3, U"bBC\u00c5\u212b", {U"\u00e5", 2, 'n', bc})
// keywords
SINGLE(40, LEXY_KEYWORD("a", id_), U"ab1A\u00e4 ", 3, U"1A\u00e4", {U"a", 0, 'k', alnum, alpha})
SINGLE(41, LEXY_KEYWORD("ab", id_), U"ab1A\u00e4", 4, U"1A\u00e4", {U"ab", 0, 'k', alnum, alpha})
SINGLE(42, LEXY_KEYWORD("abcdefghij", id_), U"a", 2, U"1A\u00e4 ", {U"abcdefghij", 0, 'k', alnum, alpha})
SINGLE(43, dsl::ascii::case_folding(LEXY_KEYWORD("ab", id_)), U"ab1AB\u00e4", 4, U"1A\u00e4", {U"ab", 1, 'k', alnum, alpha})
SINGLE(44, LEXY_KEYWORD("abcdefgh", id_), U"a", 2, U"1A\u00e4 ", {U"abcdefgh", 0, 'k', alnum, alpha})
SINGLE(45, dsl::unicode::simple_case_folding(LEXY_KEYWORD("ks", id_)), U"ksKS1\u00e4", 3, U"1A\u00e4", {U"ks", 2, 'k', alnum, alpha})

// punctuators
#define PUNCT(ID, NAME, TEXT) SINGLE(ID, NAME, U".,:;-_/\\$%&#@(", 2, U".:a", {U##TEXT})
PUNCT(50, dsl::period, ".")
PUNCT(51, dsl::comma, ",")
PUNCT(52, dsl::colon, ":")
PUNCT(53, dsl::semicolon, ";")
PUNCT(54, dsl::hyphen, "-")
PUNCT(55, dsl::slash, "/")
PUNCT(56, dsl::backslash, "\\")
PUNCT(57, dsl::apostrophe, "'")
PUNCT(58, dsl::hash_sign, "#")
PUNCT(59, dsl::dollar_sign, "$")
PUNCT(60, dsl::at_sign, "@")

//=== literal sets and symbol tables: every ordered choice of up to three of these ===//
template <int F, int I>
static constexpr auto elem()
{
    constexpr auto mk = [](auto l) {
        if constexpr (F == 1)
            return dsl::ascii::case_folding(l);
        else if constexpr (F == 2)
            return dsl::unicode::simple_case_folding(l);
        else
            return l;
    };
    if constexpr (I == 0)
        return mk(LEXY_LIT("a"));
    else if constexpr (I == 1)
        return mk(LEXY_LIT("ab"));
    else if constexpr (I == 2)
        return mk(LEXY_LIT("aba"));
    else if constexpr (I == 3)
        return mk(LEXY_LIT("b"));
    else if constexpr (I == 4)
        return mk(LEXY_LIT("bb"));
    else if constexpr (I == 5)
        return mk(dsl::lit_cp<'a', 0xE5>);
    else if constexpr (I == 6)
        return mk(LEXY_KEYWORD("abb", id_));
    else
        return mk(dsl::not_followed_by(LEXY_LIT("ac"), dsl::lit_c<'b'> / dsl::lit_c<'c'>));
}
static Item item(int f, int i)
{
    static const Text ts[] = {U"a", U"ab", U"aba", U"b", U"bb", U"a\u00e5", U"abb", U"ac"};
    Item              it;
    it.text = ts[i], it.fold = f;
    if (i == 6)
        it.kind = 'k', it.cls = alnum, it.lead = alpha;
    if (i == 7)
        it.kind = 'n', it.cls = bc;
    return it;
}
template <int F, int... I>
static void set()
{
    using R = decltype(dsl::literal_set(elem<F, I>()...));
    std::vector<Item> items{item(F, I)...};
    vh::step(
        [&] {
            std::string r = "literal_set fold " + std::to_string(F) + " of";
            for (auto& i : items)
                r += " " + uenc::show(i.text) + i.kind;
            return r;
        },
        [&] {
            bool go = true;
            Text al = F == 0 ? U"abc\u00e5" : F == 1 ? U"aABc\u00c5" : U"aAB\u00c5\u00e5";
            if (((I == 6) || ...))
                al += U'1'; // not a letter, but part of an identifier
            uenc::all(al, F == 0 && vh::thorough() ? 5 : 4, [&](const Text& t) {
                go = go && check<R, lexy::utf8_char_encoding>(items, true, t, false, "utf8_char");
                if (sizeof...(I) < 3 || vh::thorough())
                    go = go && check<R, lexy::utf16_encoding>(items, true, t, false, "utf16");
            });
            vh::transitions(341);
            for (auto& i : items)
                vh::outcome(uenc::show(i.text) + std::to_string(F));
        });
}
template <int F, int A, int B>
static void triples()
{
    [&]<int... C>(std::integer_sequence<int, C...>) {
        ([&] {
            if constexpr (C != A && C != B)
                set<F, A, B, C>();
        }(),
         ...);
    }(std::make_integer_sequence<int, 8>{});
}
template <int F, int A>
static void pairs()
{
    set<F, A>();
    [&]<int... C>(std::integer_sequence<int, C...>) {
        ([&] {
            if constexpr (C != A)
            {
                set<F, A, C>();
                if constexpr (F == 0)
                    triples<F, A, C>();
            }
        }(),
         ...);
    }(std::make_integer_sequence<int, 8>{});
}
#define PAIRS(ID, F, A) static int q##ID = parts::add<ID>([](auto) { pairs<F, A>(); });
PAIRS(100, 0, 0) PAIRS(101, 0, 1) PAIRS(102, 0, 2) PAIRS(103, 0, 3) PAIRS(104, 0, 4) PAIRS(105, 0, 5) PAIRS(106, 0, 6) PAIRS(107, 0, 7)
PAIRS(110, 1, 0) PAIRS(111, 1, 1) PAIRS(112, 1, 2) PAIRS(113, 1, 3) PAIRS(114, 1, 4) PAIRS(115, 1, 5) PAIRS(116, 1, 6) PAIRS(117, 1, 7)
PAIRS(120, 2, 0) PAIRS(121, 2, 1) PAIRS(122, 2, 2) PAIRS(123, 2, 3) PAIRS(124, 2, 4) PAIRS(125, 2, 5) PAIRS(126, 2, 6) PAIRS(127, 2, 7)

template <typename R>
static void setrule(const char* text, std::vector<Item> items, const Text& alphabet, int len, std::vector<Text> extra = {})
{
    vh::step([&] { return std::string(text); }, [&] {
        bool go = true;
        uenc::all(alphabet, len, [&](const Text& t) { go = go && everywhere<R>(items, true, t) && more<R>(items, true, t); });
        for (auto& x : extra)
            near(x, U"aA\u00e5", [&](const Text& t) { go = go && everywhere<R>(items, true, t); });
        vh::transitions(300);
        vh::outcome(text);
    });
}
static constexpr auto tab0 = lexy::symbol_table<int>.map(LEXY_LIT("a"), 1).map(LEXY_LIT("abc"), 2).map(LEXY_LIT("b"), 3).map(LEXY_LIT("ca"), 4);
static constexpr auto tab1 = tab0.case_folding(dsl::ascii::case_folding);
static constexpr auto tab2 = tab0.case_folding(dsl::unicode::simple_case_folding);
static constexpr auto tab3 = lexy::symbol_table<int>.map(LEXY_LIT("abcdefgh"), 1).map(LEXY_LIT("abcdefghijkl"), 2).map<'x'>(3).map<LEXY_SYMBOL("abx")>(4);
static int z1 = parts::add<130>([](auto) {
    std::vector<Item> abc{{U"a"}, {U"ab"}, {U"abcab"}, {U"ca"}};
#define SR(RULE, ITEMS, ...) setrule<std::decay_t<decltype(RULE)>>(#RULE, ITEMS, __VA_ARGS__);
    SR(LEXY_LITERAL_SET(LEXY_LIT("a"), LEXY_LIT("ab"), LEXY_LIT("abcab"), LEXY_LIT("ca")), abc, U"abc", 6)
    SR((dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("ab")) / LEXY_LIT("abcab") / LEXY_LIT("ca")), abc, U"abc", 6)
    SR((dsl::literal_set(LEXY_LIT("abcab")) / dsl::literal_set(LEXY_LIT("ca"), LEXY_LIT("ab"), LEXY_LIT("a"))), abc, U"abc", 6)
    SR((dsl::literal_set(LEXY_LIT("abcab")) / LEXY_LITERAL_SET(LEXY_LIT("ca"), LEXY_LIT("ab")) / LEXY_LIT("a")), abc, U"abc", 6)
    SR((dsl::literal_set() / LEXY_LITERAL_SET(LEXY_LIT("ca"), LEXY_LIT("ab")) / LEXY_LIT("a") / LEXY_LIT("abcab")), abc, U"abc", 6)
});
static int z2 = parts::add<131>([](auto) {
    std::vector<Item> t0{{U"a"}, {U"abc"}, {U"b"}, {U"ca"}}, t1 = t0, t2 = t0;
    for (auto& i : t1)
        i.fold = 1;
    for (auto& i : t2)
        i.fold = 2;
    SR(dsl::literal_set(tab0), t0, U"abc", 5)
    SR(dsl::literal_set(tab1), t1, U"abcABC", 4)
    SR(dsl::literal_set(tab2), t2, U"abcAB\u212a", 4)
    SR((dsl::literal_set(LEXY_LIT("abcdefgh"), LEXY_LIT("abcdefghijkl"), LEXY_LIT("x"), LEXY_LIT("abx"))), (std::vector<Item>{{U"abcdefgh"}, {U"abcdefghijkl"}, {U"x"}, {U"abx"}}), U"abx", 4, {U"abcdefghijkl"})
});
// symbols
template <const auto& Table>
struct PS
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::symbol<Table> + dsl::position;
    static constexpr auto value = lexy::callback<long>([](int v, auto pos) { return v * 100 + long((reinterpret_cast<const char*>(&*pos) - g_base) / long(g_size)); });
};
template <const auto& Table>
struct PSB
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::opt(dsl::symbol<Table>) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](int v, auto pos) { return v * 100 + long((reinterpret_cast<const char*>(&*pos) - g_base) / long(g_size)); },
                                                       [](lexy::nullopt, auto pos) { return -1 - long((reinterpret_cast<const char*>(&*pos) - g_base) / long(g_size)); });
};
template <const auto& Table, typename Enc>
static bool sym(const std::vector<Item>& items, const Text& in, bool buffer)
{
    using C     = typename Enc::char_type;
    long best   = -1, val = 0, whole = 0;
    for (size_t i = 0; i < items.size(); ++i)
    {
        auto m = matches(items[i], in, items[i].fold);
        if (m > best)
            best = m, val = long(i) + 1;
        if (m == long(in.size()))
            whole = long(i) + 1;
    }
    auto t    = uenc::to<C>(in);
    auto full = std::basic_string<C>(1, C('^')) + t;
    bool ok   = true;
    auto go   = [&](auto& input, const C* base) {
        g_base = reinterpret_cast<const char*>(base + 1), g_size = sizeof(C);
        errs().clear();
        auto r = lexy::parse<PS<Table>>(input, Cb{});
        if (best < 0)
            ok = ok && !r.has_value() && errs().size() == 1 && errs()[0].kind == "unknown symbol" && errs()[0].begin == 0 && errs()[0].end == 0;
        else
            ok = ok && r.is_success() && r.value() == val * 100 + uenc::units<C>(in, size_t(best));
        auto b = lexy::parse<PSB<Table>>(input, Cb{});
        ok     = ok && b.is_success() && b.value() == (best < 0 ? -1 : val * 100 + uenc::units<C>(in, size_t(best)));
        vh::traces(2);
    };
    if (buffer)
    {
        auto b = lexy::buffer<Enc>(full.data(), full.size());
        go(b, b.data());
    }
    else
    {
        auto s = lexy::string_input<Enc>(full.data(), full.size());
        go(s, full.data());
    }
    auto in2 = lexy::string_input<Enc>(t.data(), t.size());
    auto rd  = in2.reader();
    auto k   = Table.try_parse(rd);
    ok       = ok && bool(k) == (best >= 0) && rd.position() - t.data() == (best < 0 ? 0 : uenc::units<C>(in, size_t(best)));
    if (k)
        ok = ok && Table[k] == int(val);
    auto w = Table.parse(in2);
    ok     = ok && bool(w) == (whole > 0) && (!w || Table[w] == int(whole));
    if (!ok)
        vh::fail("symbol table on " + uenc::show(in));
    return ok;
}
template <const auto& Table>
static void symtab(const char* name, std::vector<Item> items, const Text& alphabet, int len, const Text& lit)
{
    vh::step([&] { return std::string("symbol table ") + name; }, [&] {
        bool go = true;
        auto f  = [&](const Text& t) {
            go = go && sym<Table, lexy::utf8_char_encoding>(items, t, false) && sym<Table, lexy::utf8_encoding>(items, t, true)
                 && sym<Table, lexy::utf16_encoding>(items, t, false) && sym<Table, lexy::utf32_encoding>(items, t, true);
        };
        uenc::all(alphabet, len, f);
        near(lit, U"aAx", f);
        vh::check(Table.size() == items.size() && !Table.empty(), "size");
        size_t n = 0;
        for (auto it = Table.begin(); it != Table.end(); ++it, ++n)
            if (Text(it->symbol, it->symbol + items[n].text.size()) != items[n].text || it->symbol[items[n].text.size()] || it->value != int(n) + 1)
                vh::fail("iteration");
        vh::check(n == items.size(), "iteration count");
        vh::transitions(300);
        vh::outcome(name);
    });
}
static int z3 = parts::add<132>([](auto) {
    std::vector<Item> t0{{U"a"}, {U"abc"}, {U"b"}, {U"ca"}}, t1 = t0, t2 = t0;
    for (auto& i : t1)
        i.fold = 1;
    for (auto& i : t2)
        i.fold = 2;
    symtab<tab0>("plain", t0, U"abcA", 5, U"abc");
    symtab<tab1>("ascii folded", t1, U"abcABC", 4, U"abc");
    symtab<tab2>("unicode folded", t2, U"abcAB\u212a", 4, U"abc");
    symtab<tab3>("long", {{U"abcdefgh"}, {U"abcdefghijkl"}, {U"x"}, {U"abx"}}, U"abx", 4, U"abcdefghijkl");
});
// every code point against a folded one-character literal
template <u32 Lit>
static void fold_all()
{
    using R = decltype(dsl::unicode::simple_case_folding(dsl::lit_cp<char32_t(Lit)>));
    using A = decltype(dsl::ascii::case_folding(dsl::lit_cp<char32_t(Lit)>));
    using N = decltype(dsl::lit_cp<char32_t(Lit)>);
    for (u32 blk = 0; blk < 0x110000; blk += 0x8000)
        vh::step([&] { return "code points of block " + std::to_string(blk) + " against folded " + std::to_string(Lit); }, [&] {
            for (u32 c = blk; c < blk + 0x8000; ++c)
            {
                if (c >= 0xD800 && c <= 0xDFFF)
                    continue;
                if (blk && !vh::thorough() && ufold(c) == c && c % 16)
                    continue;
                Text t(1, char32_t(c));
                auto one = [&]<typename X>(std::vector<Item> it, std::type_identity<X>) {
                    return check<X, lexy::utf8_char_encoding, false>(it, false, t, false, "utf8_char")
                           && check<X, lexy::utf16_encoding, false>(it, false, t, false, "utf16")
                           && check<X, lexy::utf32_encoding, false>(it, false, t, true, "utf32");
                };
                Text l(1, char32_t(Lit));
                if (!one({{l, 2}}, std::type_identity<R>{}) || !one({{l, 1}}, std::type_identity<A>{}) || !one({{l, 0}}, std::type_identity<N>{}))
                    return;
            }
            vh::transitions(0x8000);
        });
}
static int z4 = parts::add<140>([](auto) { fold_all<'k'>(); });
static int z5 = parts::add<141>([](auto) { fold_all<0xE5>(); });
static int z6 = parts::add<142>([](auto) { fold_all<0x10428>(); });
static int z7 = parts::add<143>([](auto) { fold_all<0x3B8>(); });
static int z8 = parts::add<144>([](auto) { fold_all<0x10CC0>(); });
// bytes in the default encoding
template <typename R>
static void bytes(const char* text, std::vector<unsigned char> lit)
{
    vh::step([&] { return std::string(text) + " on bytes"; }, [&] {
        for (int n = 0; n <= 3; ++n)
        {
            std::vector<unsigned char> al{0x00, 'a', 0x7F, 0x80, 0xFF};
            for (long k = 0, m = n == 0 ? 1 : n == 1 ? 5 : n == 2 ? 25 : 125; k < m; ++k)
            {
                std::string s;
                for (long x = k, j = 0; j < n; ++j, x /= 5)
                    s.push_back(char(al[size_t(x % 5)]));
                bool w = s.size() >= lit.size() && std::memcmp(s.data(), lit.data(), lit.size()) == 0;
                size_t idx = 0;
                while (idx < s.size() && idx < lit.size() && (unsigned char)s[idx] == lit[idx])
                    ++idx;
                auto d = observe<R, true, lexy::default_encoding>(s, false);
                if (d.ok != w || (w && d.len != long(lit.size())) || (!w && (d.errs.size() != 1 || d.errs[0].index != long(idx) || d.errs[0].length != long(lit.size()))))
                    return vh::fail("default encoding " + vh::esc(s) + " " + describe(d));
            }
        }
        vh::outcome(text);
        vh::transitions(150);
    });
}
static int z9 = parts::add<145>([](auto) {
    bytes<std::decay_t<decltype(LEXY_LIT("a\x7f"))>>("a 7f", {'a', 0x7F});
    bytes<std::decay_t<decltype(dsl::lit_c<'\x80'>)>>("80", {0x80});
    bytes<std::decay_t<decltype(dsl::lit_c<'\xFF'>)>>("ff", {0xFF});
    bytes<std::decay_t<decltype(LEXY_LIT("\xFF\x80"))>>("ff 80", {0xFF, 0x80});
    bytes<std::decay_t<decltype(dsl::lit_b<'a', 'a'>)>>("a a", {'a', 'a'});
});
PARTS_MAIN
