// C28: identifiers, reservations, keywords against identifiers, symbols.
#include "parts.hpp"
#include "rec.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;
using uenc::Text;
using uenc::u32;

//=== definitions and their meaning ===//
static bool alpha(u32 c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
static bool digit(u32 c)
{
    return c >= '0' && c <= '9';
}
static bool letter(u32 c) // of the characters used here
{
    return c == 0xE4 || c == 0xC4 || c == 0x10428 || c == 0x10400 || c == 0x212A || c == 0x161;
}
struct Def
{
    const char* name;
    bool (*lead)(u32);
    bool (*trail)(u32);
};
template <int I>
static constexpr auto def()
{
    if constexpr (I == 0)
        return dsl::identifier(dsl::ascii::alpha);
    else if constexpr (I == 1)
        return dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit);
    else if constexpr (I == 2)
        return dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word);
    else if constexpr (I == 3)
        return dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue);
    else if constexpr (I == 4)
        return dsl::identifier(LEXY_ASCII_ONE_OF("abA"), LEXY_ASCII_ONE_OF("ab1"));
    else if constexpr (I == 5)
        return dsl::identifier(dsl::lit_c<'a'> / dsl::lit_c<'b'>, dsl::ascii::alpha);
    else if constexpr (I == 6)
        return dsl::identifier(dsl::ascii::alpha_digit, -dsl::ascii::space - dsl::lit_c<'-'>);
    else if constexpr (I == 7)
        return dsl::identifier(LEXY_CHAR_CLASS("mine", dsl::ascii::lower / dsl::lit_cp<0xE4>), dsl::ascii::lower);
    else
        return dsl::identifier(dsl::unicode::alpha);
}
static const Def defs[] = {
    {"ASCII.alpha", alpha, alpha},
    {"ASCII.alpha", alpha, [](u32 c) { return alpha(c) || digit(c); }},
    {"ASCII.alpha-underscore", [](u32 c) { return alpha(c) || c == '_'; }, [](u32 c) { return alpha(c) || digit(c) || c == '_'; }},
    // of the characters used here
    {"code-point.XID-start-underscore", [](u32 c) { return alpha(c) || c == '_' || letter(c); },
     [](u32 c) { return alpha(c) || digit(c) || c == '_' || letter(c); }},
    {"abA", [](u32 c) { return c == 'a' || c == 'b' || c == 'A'; }, [](u32 c) { return c == 'a' || c == 'b' || c == '1'; }},
    {"union", [](u32 c) { return c == 'a' || c == 'b'; }, alpha},
    {"ASCII.alpha-digit", [](u32 c) { return alpha(c) || digit(c); }, [](u32 c) { return c != ' ' && c != '-'; }},
    {"mine", [](u32 c) { return (c >= 'a' && c <= 'z') || c == 0xE4; }, [](u32 c) { return c >= 'a' && c <= 'z'; }},
    {"code-point.alphabetic", [](u32 c) { return alpha(c) || letter(c); }, [](u32 c) { return alpha(c) || letter(c); }},
};
static size_t idlen(const Def& d, const Text& t)
{
    if (t.empty() || !d.lead(u32(t[0])))
        return 0;
    size_t n = 1;
    while (n < t.size() && d.trail(u32(t[n])))
        ++n;
    return n;
}
// one reservation: how, folding, words
struct Res
{
    char              how; // = prefix ^, contains *, suffix $
    int               fold;
    std::vector<Text> words;
};
static Text lower(Text t, int kind)
{
    for (auto& c : t)
    {
        if (kind && c >= 'A' && c <= 'Z')
            c += 32;
        if (kind == 2 && c == 0x212A)
            c = 'k';
        if (kind == 2 && c == 0xC4)
            c = 0xE4;
        if (kind == 2 && c == 0x10400)
            c = 0x10428;
    }
    return t;
}
static bool reserved(const Res& r, Text id)
{
    id = lower(id, r.fold);
    for (auto& w : r.words)
    {
        if (r.how == '=' && id == w)
            return true;
        if (r.how == '^' && id.substr(0, w.size()) == w)
            return true;
        if (r.how == '*' && id.find(w) != Text::npos)
            return true;
        if (r.how == '$' && id.size() >= w.size() && id.substr(id.size() - w.size()) == w)
            return true;
    }
    return false;
}
//=== observation ===//
template <typename R, bool Branch>
struct P
{
    static constexpr auto rule = [] {
        if constexpr (Branch)
            return dsl::lit_c<'^'> + dsl::opt(R{}) + dsl::position;
        else
            return dsl::lit_c<'^'> + R{} + dsl::position;
    }();
    static constexpr auto value
        = lexy::callback<long>([](lexy::nullopt, auto) { return -1l; },
                               [](auto l, auto pos) {
                                   if constexpr (std::is_same_v<decltype(l), int>)
                                       return (void)pos, 1000l * l + (rec::at(pos)); // symbol value
                                   else
                                       return rec::at(l.begin()) == 0 && l.end() == pos ? long(l.size()) : -9;
                               });
};
// the same with whitespace behind it
template <typename R>
struct W
{
    static constexpr auto whitespace = dsl::lit_c<'-'>;
    static constexpr auto rule       = dsl::lit_c<'^'> + R{} + dsl::position;
    static constexpr auto value      = P<R, false>::value;
};
template <typename R>
struct WV : W<R>
{
    static constexpr auto value
        = lexy::callback<long>([](auto l, auto pos) { return rec::at(l.begin()) == 0 ? long(l.size()) + 1000 * rec::at(pos) : -9; });
};
struct Seen
{
    bool                  ok = false;
    long                  len = -1, blen = -1;
    bool                  bok = false;
    std::vector<rec::Err> errs, berrs;
};
template <typename R, typename Input, typename C>
static Seen observe(const Input& in, const C* data)
{
    Seen s;
    rec::start(data + 1);
    auto r = lexy::parse<P<R, false>>(in, rec::Cb{});
    s.ok   = r.is_success();
    s.len  = r.has_value() ? r.value() : -1;
    s.errs = rec::errs();
    rec::errs().clear();
    auto b  = lexy::parse<P<R, true>>(in, rec::Cb{});
    s.bok   = b.is_success();
    s.blen  = b.has_value() ? b.value() : -7;
    s.berrs = rec::errs();
    vh::traces(2);
    return s;
}
template <typename Enc, typename F>
static auto with(const Text& t, bool buffer, F f)
{
    using C   = typename Enc::char_type;
    auto full = std::basic_string<C>(1, C('^')) + uenc::to<C>(t);
    if (buffer)
    {
        auto b = lexy::buffer<Enc>(full.data(), full.size());
        return f(b, b.data());
    }
    return f(lexy::string_input<Enc>(full.data(), full.size()), full.data());
}
template <typename Id, typename Enc>
static bool check(const Def& d, const std::vector<Res>& res, const Text& t, bool buffer, const char* what)
{
    using C = typename Enc::char_type;
    auto n  = idlen(d, t);
    bool rs = false;
    for (auto& r : res)
        rs = rs || reserved(r, t.substr(0, n));
    auto u = uenc::units<C>(t, n);
    auto s = with<Enc>(t, buffer, [&](auto&& in, auto* p) { return observe<Id>(in, p); });

    std::vector<rec::Err> e;
    long                  len = u, blen = u;
    if (n == 0)
        e = {{"expected char class", 0, 0, -1, d.name}}, len = -1, blen = -1;
    else if (rs)
        e = {{"reserved identifier", 0, u, -1, ""}}, blen = -1;
    if (s.ok != e.empty() || s.len != len || !(s.errs == e) || s.blen != blen || !s.bok || !s.berrs.empty())
    {
        vh::fail(std::string(what) + (buffer ? " buffer " : " string ") + uenc::show(t) + ": expected " + std::to_string(len) + "/" + std::to_string(blen) + " "
                 + rec::show(e) + ", got " + std::to_string(s.len) + "/" + std::to_string(s.blen) + " " + rec::show(s.errs) + rec::show(s.berrs));
        return false;
    }
    return true;
}
template <typename Id>
static void run(std::string name, const Def& d, std::vector<Res> res, const Text& alphabet, int len, bool wide)
{
    vh::step([&] { return name; }, [&] {
        bool go = true;
        auto f  = [&](const Text& t) {
            go = go && check<Id, lexy::utf8_char_encoding>(d, res, t, false, "utf8_char") && check<Id, lexy::utf8_char_encoding>(d, res, t, true, "utf8_char");
            if (wide)
                go = go && check<Id, lexy::utf16_encoding>(d, res, t, true, "utf16") && check<Id, lexy::utf32_encoding>(d, res, t, true, "utf32");
        };
        uenc::all(alphabet, len, f);
        vh::transitions(500);
        vh::outcome(name);
    });
}
// long identifiers: word boundaries
template <typename Id>
static void longer(std::string name, const Def& d, std::vector<Res> res, Text core, const Text& dev)
{
    vh::step([&] { return name + " long"; }, [&] {
        for (size_t n = 1; n <= 27; ++n)
            for (size_t at = 0; at <= n; ++at)
                for (auto c : dev)
                {
                    Text t;
                    while (t.size() < n)
                        t += core;
                    t.resize(n);
                    if (at < n)
                        t[at] = c;
                    else
                        t.push_back(c);
                    for (auto& x : {t, t + U"ab", Text(U"ab") + t})
                        if (!check<Id, lexy::utf8_char_encoding>(d, res, x, true, "utf8_char") || !check<Id, lexy::utf8_encoding>(d, res, x, true, "utf8")
                            || !check<Id, lexy::utf32_encoding>(d, res, x, true, "utf32") || !check<Id, lexy::utf16_encoding>(d, res, x, false, "utf16"))
                            return;
                }
        // lengths around the powers of two
        std::vector<size_t> ns{31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 65535, 65536};
        if (vh::thorough())
            ns.insert(ns.end(), {2047, 2048, 4095, 4096, 4097, 32767, 32768, 65537, 131072});
        for (size_t n : ns)
        {
            vh::beat();
            Text base;
            while (base.size() < n)
                base += core;
            base.resize(n);
            for (size_t at : {size_t(0), size_t(1), n / 2, size_t(254), size_t(255), size_t(256), n - 2, n - 1, n})
                for (auto c : dev)
                {
                    if (at > n || (n > 2000 && at == n / 2))
                        continue;
                    Text t = base;
                    if (at < n)
                        t[at] = c;
                    else
                        t.push_back(c);
                    if (!check<Id, lexy::utf8_char_encoding>(d, res, t, true, "utf8_char") || (n < 2000 && (!check<Id, lexy::utf8_encoding>(d, res, t + U"ab", true, "utf8") || !check<Id, lexy::utf16_encoding>(d, res, t, false, "utf16"))))
                        return;
                }
        }
        vh::transitions(1500);
        vh::outcome(name + "long");
    });
}
// a reservation list in C++ and in the model
template <int I>
static constexpr auto word()
{
    if constexpr (I == 0)
        return LEXY_LIT("a");
    else if constexpr (I == 1)
        return LEXY_LIT("ab");
    else if constexpr (I == 2)
        return LEXY_LIT("ba");
    else if constexpr (I == 3)
        return LEXY_LIT("aab");
    else if constexpr (I == 4)
        return LEXY_LIT("abab");
    else
        return LEXY_LIT("b1");
}
static const Text words[] = {U"a", U"ab", U"ba", U"aab", U"abab", U"b1"};
template <char How, typename Id, typename... W>
static constexpr auto reserve(Id id, W... w)
{
    if constexpr (How == '=')
        return id.reserve(w...);
    else if constexpr (How == '^')
        return id.reserve_prefix(w...);
    else if constexpr (How == '*')
        return id.reserve_containing(w...);
    else
        return id.reserve_suffix(w...);
}
template <int D, char How, int I>
static void one_reservation()
{
    using A = std::decay_t<decltype(reserve<How>(def<D>(), word<I>()))>;
    run<A>("reserve" + std::string(1, How) + std::to_string(I) + " of definition " + std::to_string(D), defs[D], {{How, 0, {words[I]}}}, U"ab1-", vh::thorough() ? 7 : 6, false);
}
template <int D, char How, int I, int J>
static void two_reservations()
{
    using A = std::decay_t<decltype(reserve<How>(def<D>(), word<I>(), word<J>()))>;
    run<A>("reserve" + std::string(1, How) + std::to_string(I) + std::to_string(J), defs[D], {{How, 0, {words[I], words[J]}}}, U"ab1-", vh::thorough() ? 7 : 5, false);
}
template <int D, char H1, char H2, int I, int J>
static void two_kinds()
{
    using A = std::decay_t<decltype(reserve<H2>(reserve<H1>(def<D>(), word<I>()), word<J>()))>;
    run<A>("reserve" + std::string(1, H1) + std::to_string(I) + std::string(1, H2) + std::to_string(J), defs[D], {{H1, 0, {words[I]}}, {H2, 0, {words[J]}}}, U"ab1-", vh::thorough() ? 7 : 5, false);
}
#define DEFS(D)                                                                                    \
    static int d##D = parts::add<D>([](auto) {                                                     \
        using I = std::decay_t<decltype(def<D>())>;                                                \
        run<I>("definition " #D, defs[D], {}, U"aB1_-\u00e4\U00010428", vh::thorough() ? 6 : 4, true); \
        longer<I>("definition " #D, defs[D], {}, U"a", U"aZ1_- \u00e4@[`{\x7f/:");                 \
        using X = std::decay_t<decltype(def<D>().reserve_suffix(LEXY_LIT("ab")).reserve_prefix(LEXY_LIT("b")))>; \
        longer<X>("reserved in definition " #D, defs[D], {{'$', 0, {U"ab"}}, {'^', 0, {U"b"}}}, U"a", U"ab1-"); \
    });
DEFS(0)
DEFS(1)
DEFS(2)
DEFS(3)
DEFS(4)
DEFS(5)
DEFS(6)
DEFS(7)
DEFS(8)
#define ONE(ID, D, HOW)                                                                            \
    static int o##ID = parts::add<ID>([](auto) {                                                   \
        one_reservation<D, HOW, 0>(), one_reservation<D, HOW, 1>(), one_reservation<D, HOW, 2>(); \
        one_reservation<D, HOW, 3>(), one_reservation<D, HOW, 4>(), one_reservation<D, HOW, 5>(); \
    });
ONE(10, 1, '=')
ONE(11, 1, '^')
ONE(12, 1, '*')
ONE(13, 1, '$')
#define TWO(ID, D, HOW)                                                                            \
    static int t##ID = parts::add<ID>([](auto) {                                                   \
        two_reservations<D, HOW, 0, 1>(), two_reservations<D, HOW, 1, 3>(), two_reservations<D, HOW, 4, 1>(); \
        two_reservations<D, HOW, 3, 2>(), two_reservations<D, HOW, 4, 5>(), two_reservations<D, HOW, 2, 0>(); \
    });
TWO(20, 1, '=')
TWO(21, 1, '^')
TWO(22, 1, '*')
TWO(23, 1, '$')
#define KINDS(ID, H1, H2)                                                                          \
    static int k##ID = parts::add<ID>([](auto) {                                                   \
        two_kinds<1, H1, H2, 1, 3>(), two_kinds<1, H1, H2, 4, 2>(), two_kinds<1, H1, H2, 2, 5>(); \
    });
KINDS(30, '=', '=')
KINDS(31, '=', '$')
KINDS(32, '^', '=')
KINDS(33, '^', '$')
KINDS(34, '*', '^')
KINDS(35, '*', '*')
KINDS(36, '$', '$')
KINDS(37, '$', '*')
KINDS(38, '^', '^')
// folded, keywords, literal sets, code points
#define OTHER(ID, D, EXPR, ALPHA, LEN, ...)                                                        \
    static int x##ID = parts::add<ID>([](auto) {                                                   \
        constexpr auto id = def<D>();                                                              \
        using A           = std::decay_t<decltype(EXPR)>;                                          \
        run<A>(#EXPR, defs[D], __VA_ARGS__, ALPHA, LEN, true);                                     \
    });
#define LS(...) std::vector<Res>{__VA_ARGS__}
OTHER(40, 0, id.reserve(dsl::ascii::case_folding(LEXY_LIT("ab"))), U"aAbB1", 4, LS({'=', 1, {U"ab"}}))
OTHER(41, 0, id.reserve_prefix(dsl::ascii::case_folding(LEXY_LIT("ab"))), U"aAbB1", 4, LS({'^', 1, {U"ab"}}))
OTHER(42, 0, id.reserve_containing(dsl::ascii::case_folding(LEXY_LIT("ab"))), U"aAbB1", 4, LS({'*', 1, {U"ab"}}))
OTHER(43, 0, id.reserve_suffix(dsl::ascii::case_folding(LEXY_LIT("ab"))), U"aAbB1", 4, LS({'$', 1, {U"ab"}}))
OTHER(44, 1, id.reserve(LEXY_KEYWORD("a", def<1>()), LEXY_KEYWORD("ab", def<1>()), LEXY_LIT("b1")), U"ab1-", 5, LS({'=', 0, {U"a", U"ab", U"b1"}}))
OTHER(45, 1, id.reserve_prefix(LEXY_KEYWORD("ab", def<1>())), U"ab1-", 5, LS({'^', 0, {U"ab"}}))
OTHER(46, 1, id.reserve(dsl::ascii::case_folding(LEXY_KEYWORD("ab", def<1>()))), U"abAB1", 4, LS({'=', 1, {U"ab"}}))
OTHER(47, 1, id.reserve(dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("ab"), LEXY_LIT("b1"))), U"ab1-", 5, LS({'=', 0, {U"a", U"ab", U"b1"}}))
OTHER(48, 1, id.reserve_suffix(dsl::literal_set(LEXY_LIT("aab"), LEXY_LIT("b"))), U"ab1-", 5, LS({'$', 0, {U"aab", U"b"}}))
OTHER(49, 3, id.reserve(dsl::unicode::simple_case_folding(LEXY_LIT("ak"))), U"aAkK\u212a", 4, LS({'=', 2, {U"ak"}}))
OTHER(50, 8, id.reserve_suffix(dsl::unicode::simple_case_folding(dsl::lit_cp<0xE4, 'k'>)), U"\u00e4\u00c4kK\u0161", 4, LS({'$', 2, {U"\u00e4k"}}))
OTHER(51, 8, id.reserve_containing(dsl::unicode::simple_case_folding(dsl::lit_cp<'a', 0x10428>)), U"aA\u00e4\U00010400\U00010428", 4, LS({'*', 2, {U"a\U00010428"}}))
OTHER(52, 8, id.reserve_suffix(dsl::lit_cp<0xE4>), U"a\u00e4\u00c4", 4, LS({'$', 0, {U"\u00e4"}}))
OTHER(53, 8, id.reserve_containing(dsl::lit_cp<0x10428, 0xE4>), U"a\u00e4\U00010428", 5, LS({'*', 0, {U"\U00010428\u00e4"}}))
OTHER(54, 8, id.reserve_prefix(dsl::lit_cp<0xE4>), U"a\u00e4\u00c4", 4, LS({'^', 0, {U"\u00e4"}}))
OTHER(55, 1, id.reserve(LEXY_LIT("ab")).reserve_prefix(LEXY_LIT("b1")).reserve_containing(LEXY_LIT("aba")).reserve_suffix(LEXY_LIT("11")), U"ab1-", 6,
      LS({'=', 0, {U"ab"}}, {'^', 0, {U"b1"}}, {'*', 0, {U"aba"}}, {'$', 0, {U"11"}}))
OTHER(56, 0, id.reserve(dsl::ascii::case_folding(LEXY_LIT("ab")), LEXY_LIT("ba")), U"aAbB1", 4, LS({'=', 1, {U"ab", U"ba"}}))

// the patterns as tokens, whitespace, and the tree
template <int D>
static void patterns()
{
    constexpr auto id = def<D>().reserve(LEXY_LIT("ab"));
    using Pat         = std::decay_t<decltype(id.pattern())>;
    using Lead        = std::decay_t<decltype(id.leading_pattern())>;
    using Trail       = std::decay_t<decltype(id.trailing_pattern())>;
    using Id          = std::decay_t<decltype(id)>;
    vh::step([&] { return "patterns of definition " + std::to_string(D); }, [&] {
        bool go = true;
        auto& d = defs[D];
        uenc::all(U"aB1_-\u00e4", vh::thorough() ? 6 : 4, [&](const Text& t) {
            if (!go)
                return;
            using Enc = lexy::utf8_char_encoding;
            auto n    = idlen(d, t);
            auto get  = [&](auto r, const char* what, size_t want) {
                auto s = with<Enc>(t, true, [&](auto&& in, auto* p) { return observe<decltype(dsl::capture(r))>(in, p); });
                auto u = want ? uenc::units<char>(t, want) : -1;
                if (s.len != u || s.blen != u)
                    go = false, vh::fail(std::string(what) + " on " + uenc::show(t) + " got " + std::to_string(s.len));
            };
            get(Pat{}, "pattern", n);
            get(Lead{}, "leading pattern", !t.empty() && d.lead(u32(t[0])));
            get(Trail{}, "trailing pattern", !t.empty() && d.trail(u32(t[0])));
            // whitespace is skipped after the identifier and not part of it
            size_t w = n;
            while (w < t.size() && t[w] == '-')
                ++w;
            if (n && !d.trail('-'))
            {
                auto got = with<Enc>(t, true, [&](auto&& in, auto* p) {
                    rec::start(p + 1);
                    auto r = lexy::parse<WV<Id>>(in, rec::Cb{});
                    return r.has_value() ? r.value() : -1l;
                });
                auto want = uenc::units<char>(t, n) + 1000 * uenc::units<char>(t, w);
                bool rs   = t.substr(0, n) == U"ab";
                if (got != want || rec::errs().size() != size_t(rs) || (rs && (rec::errs()[0].begin != 0 || rec::errs()[0].end != 2)))
                    go = false, vh::fail("whitespace after " + uenc::show(t) + " got " + std::to_string(got) + rec::show(rec::errs()));
            }
            // one identifier token in the tree, also when reserved
            auto tok = with<Enc>(t, true, [&](auto&& in, auto* p) {
                rec::start(p + 1);
                lexy::parse_tree_for<std::decay_t<decltype(in)>> tree;
                auto r = lexy::parse_as_tree<P<Id, false>>(tree, in, rec::Cb{});
                long v = -1;
                if (!tree.empty())
                    for (auto c : tree.root().children())
                        if (c.kind() == lexy::identifier_token_kind)
                            v = v == -1 ? long(c.lexeme().size()) : -5;
                return v;
            });
            if (tok != (n ? uenc::units<char>(t, n) : -1))
                go = false, vh::fail("tree token of " + uenc::show(t) + " is " + std::to_string(tok));
        });
        vh::transitions(500);
        vh::outcome("patterns" + std::to_string(D));
    });
}
static int q0 = parts::add<60>([](auto) { patterns<0>(), patterns<1>(); });
static int q1 = parts::add<61>([](auto) { patterns<2>(), patterns<4>(); });
static int q2 = parts::add<62>([](auto) { patterns<6>(), patterns<3>(); });

// keyword or identifier
constexpr auto kid = def<1>().reserve(LEXY_KEYWORD("ab", def<1>()), LEXY_KEYWORD("b", def<1>()));
struct KwOrId
{
    static constexpr auto rule
        = dsl::lit_c<'^'> + (LEXY_KEYWORD("ab", kid) >> dsl::position(dsl::nullopt) | LEXY_KEYWORD("b", kid) >> dsl::position(dsl::nullopt) | kid >> dsl::position | dsl::else_ >> dsl::position + dsl::nullopt);
    static constexpr auto value = lexy::callback<long>([](lexy::nullopt) { return 0l; }, [](auto, auto) { return 0l; });
};
template <int K>
struct Kw
{
    static constexpr auto rule = [] {
        if constexpr (K == 0)
            return LEXY_KEYWORD("ab", kid) >> dsl::position;
        else if constexpr (K == 1)
            return LEXY_KEYWORD("b", kid) >> dsl::position;
        else
            return kid >> dsl::position;
    }();
    static constexpr auto value = lexy::callback<long>([](auto p) { return 1000l * (K + 1) + rec::at(p); }, [](auto l, auto) { return 1000l * (K + 1) + long(l.size()); });
};
struct KwId
{
    static constexpr auto rule = dsl::lit_c<'^'> + (dsl::p<Kw<0>> | dsl::p<Kw<1>> | dsl::p<Kw<2>> | dsl::else_ >> dsl::return_);
    static constexpr auto value = lexy::callback<long>([](long l) { return l; }, [] { return 0l; });
};
static int q3 = parts::add<63>([](auto) {
    vh::step([&] { return "keyword or identifier"; }, [&] {
        bool go = true;
        uenc::all(U"ab1-", 7, [&](const Text& t) {
            if (!go)
                return;
            auto n    = idlen(defs[1], t);
            auto w    = t.substr(0, n);
            long want = n == 0 ? 0 : (w == U"ab" ? 1000 : w == U"b" ? 2000 : 3000) + long(n);
            long got  = with<lexy::utf8_char_encoding>(t, true, [&](auto&& in, auto* p) {
                rec::start(p + 1);
                auto r = lexy::parse<KwId>(in, rec::Cb{});
                return r.has_value() ? r.value() : -1l;
            });
            if (got != want || !rec::errs().empty())
                go = false, vh::fail("keyword or identifier on " + uenc::show(t) + " got " + std::to_string(got));
        });
        vh::transitions(500);
        vh::outcome("kwid");
    });
});

//=== symbols ===//
#define TAB(N, FOLD)                                                                               \
    static constexpr auto tab##N = lexy::symbol_table<int> FOLD.map<LEXY_SYMBOL("a")>(1)           \
                                       .map<LEXY_SYMBOL("ab")>(2)                                  \
                                       .map<LEXY_SYMBOL("aba")>(3)                                 \
                                       .map<LEXY_SYMBOL("b1")>(4)                                  \
                                       .map<LEXY_SYMBOL("abcdefghij")>(5);
TAB(0, )
TAB(1, .case_folding(dsl::ascii::case_folding))
TAB(2, .case_folding(dsl::unicode::simple_case_folding))
static const Text syms[] = {U"a", U"ab", U"aba", U"b1", U"abcdefghij"};
struct my_error
{
    static constexpr auto name = "mine";
};
enum Kind
{
    plain,
    ident,
    token,
};
template <typename R, typename Enc>
static bool sym(const char* what, Kind k, int fold, const Text& t, bool buffer, const char* tag)
{
    using C  = typename Enc::char_type;
    auto lt  = lower(t, fold);
    long val = 0;
    size_t len = 0;
    std::vector<rec::Err> e;
    if (k == plain)
    {
        for (int i = 0; i < 5; ++i)
            if (lt.substr(0, syms[i].size()) == syms[i] && syms[i].size() > len)
                len = syms[i].size(), val = i + 1;
        if (!val)
            e = {{tag, 0, 0, -1, ""}};
    }
    else
    {
        auto n = k == ident ? idlen(defs[1], t) : 0;
        if (k == token)
            while (n < t.size() && t[n] != '-')
                ++n;
        for (int i = 0; i < 5; ++i)
            if (lt.substr(0, n) == syms[i])
                len = n, val = i + 1;
        if (n == 0 && k == ident)
            e = {{"expected char class", 0, 0, -1, "ASCII.alpha"}};
        else if (!val)
            e = {{tag, 0, uenc::units<C>(t, n), -1, ""}};
    }
    auto s    = with<Enc>(t, buffer, [&](auto&& in, auto* p) { return observe<R>(in, p); });
    long want = val ? 1000 * val + uenc::units<C>(t, len) : -1;
    if (s.len != want || s.blen != want || !(s.errs == e) || !s.berrs.empty() || s.ok != e.empty())
    {
        vh::fail(std::string(what) + " on " + uenc::show(t) + ": expected " + std::to_string(want) + rec::show(e) + ", got " + std::to_string(s.len) + "/" + std::to_string(s.blen)
                 + rec::show(s.errs) + rec::show(s.berrs));
        return false;
    }
    return true;
}
template <typename R>
static void symrun(const char* what, Kind k, int fold, const char* tag)
{
    vh::step([&] { return std::string(what); }, [&] {
        bool go = true;
        auto f  = [&](const Text& t) {
            go = go && sym<R, lexy::utf8_char_encoding>(what, k, fold, t, false, tag) && sym<R, lexy::utf8_encoding>(what, k, fold, t, true, tag)
                 && sym<R, lexy::utf16_encoding>(what, k, fold, t, true, tag) && sym<R, lexy::utf32_encoding>(what, k, fold, t, true, tag);
        };
        uenc::all(fold ? U"abAB1-" : U"ab1-", fold ? 5 : 7, f);
        Text l = U"abcdefghij";
        for (size_t i = 0; i <= l.size(); ++i)
        {
            f(l.substr(0, i));
            for (auto c : Text(U"aA1-z\u00e4"))
            {
                auto x = l;
                if (i < l.size())
                    x[i] = c;
                f(x), f(x + Text(1, c)), f(x.substr(0, i));
                f(l + Text(i, c));
            }
        }
        vh::transitions(500);
        vh::outcome(what);
    });
}
#define SYM(ID, EXPR, K, F, TAG) \
    static int y##ID = parts::add<ID>([](auto) { symrun<std::decay_t<decltype(EXPR)>>(#EXPR, K, F, TAG); });
constexpr auto nodash = dsl::token(dsl::while_(-dsl::lit_c<'-'>));
SYM(70, dsl::symbol<tab0>, plain, 0, "unknown symbol")
SYM(71, dsl::symbol<tab1>, plain, 1, "unknown symbol")
SYM(72, dsl::symbol<tab2>, plain, 2, "unknown symbol")
SYM(73, dsl::symbol<tab0>(def<1>()), ident, 0, "unknown symbol")
SYM(74, dsl::symbol<tab1>(def<1>()), ident, 1, "unknown symbol")
SYM(75, dsl::symbol<tab2>(def<1>()), ident, 2, "unknown symbol")
SYM(76, dsl::symbol<tab0>(nodash), token, 0, "unknown symbol")
SYM(77, dsl::symbol<tab1>(nodash), token, 1, "unknown symbol")
SYM(78, dsl::symbol<tab0>(def<1>().pattern()), ident, 0, "unknown symbol")
SYM(79, dsl::symbol<tab0>.error<my_error>, plain, 0, "mine")
SYM(80, dsl::symbol<tab0>(def<1>()).error<my_error>, ident, 0, "mine")
SYM(81, dsl::symbol<tab0>(nodash).error<my_error>, token, 0, "mine")
PARTS_MAIN
