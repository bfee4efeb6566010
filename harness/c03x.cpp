// C03: recovery over long stretches of discarded input, multi-character synchronisation points and
// limits, the predefined brackets, in every encoding - against a direct computation on the text.
#include "parts.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
namespace dsl = lexy::dsl;
namespace
{
struct Out
{
    bool                     ok = true;
    std::vector<long>        items;
    long                     end = 0;
    std::vector<std::string> errors;
    std::string              str() const
    {
        // long lists are summarised by count, first, last and a positional checksum
        std::string s = ok ? "value" : "none";
        if (ok)
        {
            s += " n=" + std::to_string(items.size());
            unsigned long h = 7;
            for (auto v : items)
                h = h * 1000003 + (unsigned long)v;
            if (items.size() <= 20)
                for (auto v : items)
                    s += " " + std::to_string(v);
            else
                s += " #" + std::to_string(h);
            s += " end=" + std::to_string(end);
        }
        for (auto& e : errors)
            s += " !" + e;
        return s;
    }
};
std::string err(const char* kind, std::size_t b, std::size_t e)
{
    return std::string(kind) + "@" + std::to_string(b) + "-" + std::to_string(e);
}

//=== observation ===//
// position of an iterator as an offset from the start of the input
template <typename It>
struct Origin
{
    static inline It begin;
    static long      of(It it)
    {
        if constexpr (std::is_pointer_v<It>)
            return long(it - begin);
        else
        {
            long n = 0;
            for (auto i = begin; i != it; ++i)
                ++n;
            return n;
        }
    }
};
Out* out;
template <typename R>
void item(const lexy::lexeme<R>& l)
{
    using It = typename R::iterator;
    if constexpr (std::is_pointer_v<It>)
        out->items.push_back(Origin<It>::of(l.begin()));
    else
        // counting from the start for every item would be quadratic
        out->items.push_back(long(out->items.size()));
}
struct Sink
{
    struct cb
    {
        using return_type = int;
        template <typename... T>
        void operator()(const T&... v)
        {
            (item(v), ...);
        }
        int finish() &&
        {
            return 0;
        }
    };
    cb sink() const
    {
        return {};
    }
};
struct Val
{
    using return_type = int;
    template <typename T>
    static void put(const T& v)
    {
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, lexy::nullopt>)
            ;
        else if constexpr (std::is_enum_v<T> || std::is_same_v<T, bool>)
            out->items.push_back(long(v));
        else if constexpr (std::is_same_v<T, std::size_t>)
            out->items.push_back(long(v));
        else if constexpr (std::is_pointer_v<T>)
            out->end = Origin<T>::of(v);
        else
            put2(v, 0);
    }
    template <typename R>
    static void put2(const lexy::lexeme<R>& l, int)
    {
        item(l);
        if constexpr (std::is_pointer_v<typename R::iterator>)
            out->items.push_back(Origin<typename R::iterator>::of(l.end()));
    }
    template <typename It>
    static void put2(It it, long)
    {
        out->end = Origin<It>::of(it);
    }
    template <typename... Args>
    int operator()(const Args&... a) const
    {
        (put(a), ...);
        return 0;
    }
};
struct Both : Val
{
    Sink::cb sink() const
    {
        return {};
    }
};
template <typename Rule>
struct G
{
    static constexpr auto name  = "G";
    static constexpr auto rule  = Rule{} + dsl::position;
    static constexpr auto value = Both{};
};
template <typename G, typename Input>
std::string observe(const Input& in)
{
    using It = typename lexy::input_reader<Input>::iterator;
    Out o;
    out                = &o;
    Origin<It>::begin  = in.reader().position();
    auto on            = lexy::callback<void>([&](auto, const auto& e) {
        using E = std::decay_t<decltype(e)>;
        long b = Origin<It>::of(e.position()), x = b;
        const char* k = "?";
        {
            if constexpr (requires { e.end(); })
                x = Origin<It>::of(e.end());
            if constexpr (requires { e.message(); })
                k = e.message();
            else if constexpr (requires { e.name(); })
                k = e.name();
            else if constexpr (requires { e.string(); })
                k = "literal";
        }
        o.errors.push_back(err(k, std::size_t(b), std::size_t(x)));
    });
    auto r = lexy::parse<G>(in, on);
    o.ok   = r.has_value();
    if (lexy::match<G>(in) != o.errors.empty())
        return "match disagrees";
    return o.str();
}
// the items of the model are offsets; a range input reports their number instead
std::string ordinal(Out o, bool renumber)
{
    if (renumber)
        for (std::size_t i = 0; i < o.items.size(); ++i)
            o.items[i] = long(i);
    return o.str();
}

using Text = std::u32string;
template <typename Rule, typename Enc>
void one(const char* name, const Text& t, const std::string& want)
{
    using Char = typename Enc::char_type;
    std::basic_string<Char> u;
    for (auto c : t)
        u += Char(c);
    auto check = [&](const char* k, const std::string& got) {
        vh::traces(1);
        if (want != got)
            vh::fail(std::string(name) + " " + k + ": expected " + want + " actual " + got);
    };
    // exact allocations, so that a read past the end is visible to the sanitizer
    std::vector<Char> v(u.begin(), u.end());
    v.shrink_to_fit();
    check("string", observe<G<Rule>>(lexy::string_input<Enc>(v.data(), v.size())));
    check("buffer", observe<G<Rule>>(lexy::buffer<Enc>(v.data(), v.size())));
}
template <typename Rule>
void run(const char* name, const std::string& what, const Text& t, const Out& e)
{
    vh::step([&] { return std::string(name) + " on " + what; },
             [&] {
                 vh::transitions(t.size() + 1);
                 auto x = e.str();
                 vh::outcome(x.size() > 60 ? x.substr(0, 60) : x);
                 char32_t top = 0;
                 for (auto c : t)
                     top = c > top ? c : top;
                 if (top < 0x80)
                 {
                     one<Rule, lexy::ascii_encoding>("ascii", t, x);
                     one<Rule, lexy::utf8_encoding>("utf8", t, x);
                 }
                 if (top < 0x100)
                     one<Rule, lexy::default_encoding>("default", t, x);
                 if (top < 0x10000)
                     one<Rule, lexy::utf16_encoding>("utf16", t, x);
                 one<Rule, lexy::utf32_encoding>("utf32", t, x);
                 if (t.size() < 300 && top < 0x80)
                 {
                     std::list<char> l(t.begin(), t.end());
                     auto            y = e;
                     if (y.items.size() <= 1 || true)
                     {
                         for (std::size_t i = 0; i < y.items.size(); ++i)
                             y.items[i] = long(i);
                         vh::traces(1);
                         auto got = observe<G<Rule>>(lexy::range_input<lexy::ascii_encoding, std::list<char>::const_iterator>(l.begin(), l.end()));
                         if (got != y.str())
                             vh::fail("range: expected " + y.str() + " actual " + got);
                     }
                 }
             });
}
std::string show(const Text& t)
{
    std::string s = "\"";
    std::size_t n = 0;
    for (auto c : t)
    {
        char b[16];
        if (c > 32 && c < 127)
            snprintf(b, sizeof b, "%c", char(c));
        else
            snprintf(b, sizeof b, "<%X>", unsigned(c));
        s += b;
        if (++n == 50 && t.size() > 60)
            return s + "...\" (" + std::to_string(t.size()) + " units)";
    }
    return s + "\"";
}
bool at(const Text& t, std::size_t i, const char* s)
{
    for (; *s; ++s, ++i)
        if (i >= t.size() || t[i] != char32_t(*s))
            return false;
    return true;
}
// length of the longest member at i, 0 for none
std::size_t longest(const Text& t, std::size_t i, const std::vector<const char*>& set)
{
    std::size_t r = 0;
    for (auto s : set)
        if (at(t, i, s) && strlen(s) > r)
            r = strlen(s);
    return r;
}
std::vector<std::size_t> sizes()
{
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i <= (vh::thorough() ? 70u : 20u); ++i)
        v.push_back(i);
    for (std::size_t s : {32, 64, 128, 256, 512, 4096, 65536})
        for (long d = -1; d <= 1; ++d)
            v.push_back(s + std::size_t(d));
    return v;
}
// All texts over the given units up to a length, and long garbage with up to two pieces inside and one at the end.
template <typename F>
void texts(const Text& units, const std::vector<const char*>& pieces, F f)
{
    std::vector<Text> level{U""};
    int               max = units.size() <= 4 ? 6 : 5;
    for (int l = 0; l <= max + (vh::thorough() ? 1 : 0); ++l)
    {
        std::vector<Text> next;
        for (auto& t : level)
        {
            f(t);
            for (auto c : units)
                next.push_back(t + c);
        }
        level = std::move(next);
    }
    auto add = [](Text t, const char* p) {
        for (; *p; ++p)
            t += char32_t(*p);
        return t;
    };
    for (char32_t fill : {U'x', U'\x13B', U'\x10028', U'\xBB'})
        for (auto n : sizes())
        {
            Text g(n, fill);
            f(g);
            for (auto p : pieces)
            {
                f(add(g, p));
                f(add(g, p) + Text(9, fill));
                if (n <= 130)
                    for (auto q : pieces)
                    {
                        f(add(add(g, p) + fill, q));
                        f(add(add(g, p), q) + U"x");
                        // an incomplete piece, then a complete one
                        auto part = std::string(p, strlen(p) - 1);
                        f(add(add(g, part.c_str()), q));
                    }
            }
        }
}

//=== find and recover ===//
// find: synchronise before the needle; recover: take the branch found. Limits are checked after the
// branches of recover and together with the needles of find (longest match).
Out sync_model(const Text& t, int find, const std::vector<const char*>& needle, const std::vector<const char*>& limit)
{
    Out o;
    if (at(t, 0, "k"))
    {
        o.end = 1;
        return o;
    }
    o.errors.push_back(err("literal", 0, 0));
    for (std::size_t i = 0;; ++i)
    {
        auto a = longest(t, i, needle), b = longest(t, i, limit);
        if (a > 0 && (find != 1 || a >= b))
        {
            o.end = long(find == 1 ? i : i + a);
            return o;
        }
        if (b > 0 || i == t.size())
        {
            o.ok = false;
            if (find == 2) // an ordinary rule reports its own failure
                o.errors.push_back(err("literal", i, i));
            return o;
        }
    }
}
using S = std::vector<const char*>;
template <typename Rule>
void sync(const char* name, int find, const Text& units, const S& needle, const S& limit)
{
    auto pieces = needle;
    pieces.insert(pieces.end(), limit.begin(), limit.end());
    texts(units, pieces, [&](const Text& t) { run<Rule>(name, show(t), t, sync_model(t, find, needle, limit)); });
}
#define SYNC(ID, FIND, UNITS, NEEDLE, LIMIT, ...)                                                  \
    [[maybe_unused]] int s##ID = parts::add<ID>([](auto) { sync<LEXY_DECAY_DECLTYPE(dsl::try_(LEXY_LIT("k"), __VA_ARGS__))>(#__VA_ARGS__, FIND, UNITS, S NEEDLE, S LIMIT); });
SYNC(0, true, U"xk;", ({";"}), ({}), dsl::find(LEXY_LIT(";")))
SYNC(1, true, U"xk;\n", ({";"}), ({"\n"}), dsl::find(LEXY_LIT(";")).limit(LEXY_LIT("\n")))
SYNC(2, true, U"abx", ({"aab"}), ({"abb"}), dsl::find(LEXY_LIT("aab")).limit(LEXY_LIT("abb")))
SYNC(3, true, U"ab;", ({"ab", "b;"}), ({";;"}), dsl::find(LEXY_LIT("ab"), LEXY_LIT("b;")).limit(LEXY_LIT(";;")))
SYNC(4, true, U"ab;", ({";"}), ({"ab", "bab"}), dsl::find(LEXY_LIT(";")).limit(LEXY_LIT("ab")).limit(LEXY_LIT("bab")))
SYNC(5, true, U"a;\n", ({";;"}), ({";", "\n"}), dsl::find(LEXY_LIT(";;")).limit(LEXY_LIT(";"), LEXY_LIT("\n")))
SYNC(6, true, U"end;", ({"end"}), ({";"}), dsl::find(LEXY_LIT("end")).limit(LEXY_LIT(";")))
SYNC(7, false, U"xk;", ({";"}), ({}), dsl::recover(LEXY_LIT(";")))
SYNC(8, false, U"xk;\n", ({";"}), ({"\n"}), dsl::recover(LEXY_LIT(";")).limit(LEXY_LIT("\n")))
SYNC(9, false, U"abx", ({"aab"}), ({"abb"}), dsl::recover(LEXY_LIT("aab")).limit(LEXY_LIT("abb")))
SYNC(10, false, U"ab;", ({"aab", "b;"}), ({";;"}), dsl::recover(LEXY_LIT("aab"), LEXY_LIT("b;")).limit(LEXY_LIT(";;")))
SYNC(11, false, U"ab;", ({";"}), ({"ab", "bab"}), dsl::recover(LEXY_LIT(";")).limit(LEXY_LIT("ab")).limit(LEXY_LIT("bab")))
SYNC(12, false, U"end;", ({"end"}), ({";"}), dsl::recover(LEXY_LIT("end")).limit(LEXY_LIT(";")))
SYNC(13, 2, U"kx;", ({";"}), ({}), dsl::until(dsl::lit_c<';'>))

//=== the predefined brackets ===//
struct Br
{
    char open, close;
};
enum Form
{
    once,
    try_once,
    opt,
    list,
    list_sep,
    list_tsep,
    opt_list,
    opt_list_sep
};
Out bracket_model(const Text& t, Br b, Form f, const S& limit)
{
    Out         o;
    std::size_t p  = 0;
    auto        is = [&](char c) { return p < t.size() && t[p] == char32_t(c); };
    auto        fail = [&] {
        o.ok = false;
        return o;
    };
    auto error = [&](std::size_t i) { o.errors.push_back(err("literal", i, i)); };
    auto done  = [&] {
        o.end = long(p);
        return o;
    };
    if (!is(b.open))
    {
        error(0);
        return fail();
    }
    ++p;
    bool is_list = f >= list, optional = f == opt || f == opt_list || f == opt_list_sep;
    if (optional && is(b.close))
    {
        ++p;
        return done();
    }
    if (!is_list)
    {
        bool inner = is('a');
        if (inner)
        {
            o.items.push_back(long(p));
            ++p;
        }
        else
            error(p);
        if (inner || f == once)
        {
            if (!inner)
                return fail();
            if (!is(b.close))
            {
                error(p);
                return fail();
            }
            ++p;
            if (f != once) // the captured lexeme's end is reported as well, see Val
                ;
            return done();
        }
        o.items.clear();
        for (;; ++p)
        {
            if (is(b.close))
            {
                ++p;
                return done();
            }
            if (longest(t, p, limit) || p == t.size())
                return fail();
        }
    }
    bool        sep = f == list_sep || f == list_tsep || f == opt_list_sep;
    std::size_t sep_pos = 0;
    enum
    {
        terminator,
        separator,
        trailing,
        item_,
        recovery
    } st = item_;
    while (true)
        switch (st)
        {
        case terminator:
            if (is(b.close))
            {
                ++p;
                return done();
            }
            st = separator;
            break;
        case separator:
            if (!sep)
            {
                st = item_;
                break;
            }
            sep_pos = p;
            if (is(','))
            {
                ++p;
                st = trailing;
                break;
            }
            error(p);
            // a missing separator: an item here is taken
            if (is('a'))
            {
                o.items.push_back(long(p));
                ++p;
                st = terminator;
            }
            else
                st = recovery;
            break;
        case trailing:
            if (is(b.close))
            {
                if (f != list_tsep)
                    o.errors.push_back(err("unexpected trailing separator", sep_pos, p));
                ++p;
                return done();
            }
            st = item_;
            break;
        case item_:
            if (is('a'))
            {
                o.items.push_back(long(p));
                ++p;
                st = terminator;
            }
            else
            {
                error(p);
                st = recovery;
            }
            break;
        case recovery:
            for (;; ++p)
            {
                if (sep && is(','))
                {
                    sep_pos = p;
                    ++p;
                    st = trailing;
                    break;
                }
                if (!sep && is('a'))
                {
                    o.items.push_back(long(p));
                    ++p;
                    st = terminator;
                    break;
                }
                if (is(b.close))
                {
                    ++p;
                    return done();
                }
                if (longest(t, p, limit) || p == t.size())
                    return fail();
            }
            break;
        }
}
template <typename Rule>
void brackets(const char* name, Br b, Form f, const S& limit)
{
    auto go = [&](const Text& t) { run<Rule>(name, show(t), t, bracket_model(t, b, f, limit)); };
    Text base = {char32_t(b.open), char32_t(b.close), U'a', f >= list_sep && f != opt_list ? U',' : U'x', limit.empty() ? U'{' : U';'};
    std::vector<Text> level{U""};
    for (int l = 0; l <= (vh::thorough() ? 7 : 5); ++l)
    {
        std::vector<Text> next;
        for (auto& t : level)
        {
            go(t);
            for (auto c : base)
                next.push_back(t + c);
        }
        level = std::move(next);
    }
    // long ones: n items, one of them bad, with garbage of the same length inside
    bool sep = f == list_sep || f == list_tsep || f == opt_list_sep;
    for (auto n : sizes())
    {
        if (n > 5000 && !vh::thorough())
            continue;
        for (std::size_t hole : {std::size_t(0), std::size_t(1), n / 2, n - 1, n})
            for (int end = 0; end < 4; ++end)
                for (auto bad : {U"b", U"bb", U"\x12C", U"\x1005D", U"b;", U""})
                {
                    if (hole > n)
                        continue;
                    Text t(1, char32_t(b.open));
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        t += i == hole ? Text(bad) : Text(U"a");
                        if (sep && i + 1 < n)
                            t += U',';
                    }
                    if (end == 1)
                        t += U',';
                    if (end != 2)
                        t += char32_t(b.close);
                    if (end == 3)
                        t += U"a,";
                    go(t);
                }
        go(Text(1, char32_t(b.open)) + Text(n, U'x') + char32_t(b.close));
        go(Text(1, char32_t(b.open)) + Text(n, U'x') + U"a" + char32_t(b.close));
        go(Text(1, char32_t(b.open)) + Text(n, U'x') + U";" + char32_t(b.close));
        go(Text(1, char32_t(b.open)) + Text(n, U'\x13B') + char32_t(b.close) + char32_t(b.close));
    }
}
constexpr auto A = LEXY_LIT("a");
constexpr auto C = dsl::capture(LEXY_LIT("a"));
template <typename B>
void bracket_lists(B, const char* name, Br b, const S& limit)
{
    std::string n = name;
    brackets<LEXY_DECAY_DECLTYPE(B{}.list(C))>((n + ".list(a)").c_str(), b, list, limit);
    brackets<LEXY_DECAY_DECLTYPE(B{}.list(C, dsl::sep(LEXY_LIT(","))))>((n + ".list(a, sep)").c_str(), b, list_sep, limit);
    brackets<LEXY_DECAY_DECLTYPE(B{}.list(C, dsl::trailing_sep(LEXY_LIT(","))))>((n + ".list(a, trailing_sep)").c_str(), b, list_tsep, limit);
    brackets<LEXY_DECAY_DECLTYPE(B{}.opt_list(C))>((n + ".opt_list(a)").c_str(), b, opt_list, limit);
    brackets<LEXY_DECAY_DECLTYPE(B{}.opt_list(C, dsl::sep(LEXY_LIT(","))))>((n + ".opt_list(a, sep)").c_str(), b, opt_list_sep, limit);
}
// the forms without a list: only where the parse ends is observed, so the items are dropped
template <typename Rule>
void single(const char* name, Br b, Form f, const S& limit)
{
    auto go = [&](const Text& t) {
        auto o = bracket_model(t, b, f, limit);
        o.items.clear();
        run<Rule>(name, show(t), t, o);
    };
    texts(Text{char32_t(b.open), char32_t(b.close), U'a', U'x', U';'}, {}, go);
    for (auto n : sizes())
        for (auto c : {U'x', U';', U'\x13B', U'a'})
            for (auto e : {Text(1, char32_t(b.close)), Text(U""), Text(2, char32_t(b.close)), Text(U";") + char32_t(b.close)})
                go(Text(1, char32_t(b.open)) + Text(n, c) + e), go(Text(1, char32_t(b.open)) + U"a" + Text(n, c) + e);
}
template <typename B>
void bracket_single(B, const char* name, Br b, const S& limit)
{
    std::string n = name;
    single<LEXY_DECAY_DECLTYPE(B{}(A))>((n + "(a)").c_str(), b, once, limit);
    single<LEXY_DECAY_DECLTYPE(B{}.try_(A))>((n + ".try_(a)").c_str(), b, try_once, limit);
    single<LEXY_DECAY_DECLTYPE(B{}.opt(A))>((n + ".opt(a)").c_str(), b, opt, limit);
}
#define BRACKETS(ID, OPEN, CLOSE, LIMIT, ...)                                                      \
    [[maybe_unused]] int b##ID = parts::add<ID>([](auto) { bracket_lists(__VA_ARGS__, #__VA_ARGS__, Br{OPEN, CLOSE}, S LIMIT); }); \
    [[maybe_unused]] int bs##ID = parts::add<ID + 10>([](auto) { bracket_single(__VA_ARGS__, #__VA_ARGS__, Br{OPEN, CLOSE}, S LIMIT); });
BRACKETS(20, '(', ')', ({}), dsl::round_bracketed)
BRACKETS(21, '[', ']', ({}), dsl::square_bracketed)
BRACKETS(22, '{', '}', ({";"}), dsl::curly_bracketed.limit(LEXY_LIT(";")))
BRACKETS(23, '<', '>', ({}), dsl::angle_bracketed)
BRACKETS(24, '(', ')', ({";", "bb"}), dsl::parenthesized.limit(LEXY_LIT("bb")).limit(LEXY_LIT(";")))
} // namespace
PARTS_MAIN
