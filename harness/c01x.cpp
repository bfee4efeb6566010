// C01: rules that consume many characters, on long inputs in every encoding and storage, against a
// direct scan of the text.
#include "parts.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
namespace dsl = lexy::dsl;
namespace
{
using Text = std::vector<char32_t>;
struct Out
{
    std::vector<long> values; // positions, captures as begin/end pairs
    std::vector<long> errors;
    bool              ok = true; // a value is produced
    long              p  = 0;
    std::string       str() const
    {
        std::string s = ok ? "value" : "none";
        if (ok)
            for (auto v : values)
                s += " " + std::to_string(v);
        for (auto e : errors)
            s += " !" + std::to_string(e);
        return s;
    }
};
//=== reference ===//
struct Ref
{
    const Text& t;
    Out         o;

    std::size_t p() const
    {
        return std::size_t(o.p);
    }
    bool at(std::size_t i, const char* s) const
    {
        for (; *s; ++s, ++i)
            if (i >= t.size() || t[i] != char32_t(*s))
                return false;
        return true;
    }
    long nl(std::size_t i) const
    {
        return at(i, "\n") ? 1 : at(i, "\r\n") ? 2 : 0;
    }
    void pos()
    {
        if (o.ok)
            o.values.push_back(o.p);
    }
    void fail(long at)
    {
        if (o.ok)
            o.errors.push_back(at);
        o.ok = false;
    }
    // F(i): length of the condition at i, 0 if it does not match
    template <typename F>
    bool find(F f, bool or_eof)
    {
        auto i = p();
        for (; i < t.size(); ++i)
            if (long n = f(i))
            {
                o.p = long(i) + n;
                return true;
            }
        o.p = long(i);
        return or_eof;
    }
    template <typename F>
    void until(F f, bool or_eof)
    {
        if (o.ok && !find(f, or_eof))
            fail(long(t.size()));
    }
    void rest()
    {
        if (o.ok)
            o.p = long(t.size());
    }
    template <typename F>
    void skip(F f)
    {
        if (o.ok)
            while (p() < t.size() && f(t[p()]))
                ++o.p;
    }
};
using Model = void (*)(Ref&);

//=== observation ===//
const void* base;
std::size_t unit;
long        at(const void* p)
{
    return long((static_cast<const char*>(p) - static_cast<const char*>(base)) / long(unit));
}
std::vector<long> values;
template <typename It>
long where(It it)
{
    if constexpr (std::is_pointer_v<It>)
        return at(it);
    else
        return at(&*it);
}
void put(lexy::nullopt)
{
    values.push_back(-1);
}
template <typename R>
void put(const lexy::lexeme<R>& l)
{
    values.push_back(where(l.begin()));
    values.push_back(where(l.end()));
}
template <typename It>
void put(It it)
{
    values.push_back(where(it));
}
struct Val
{
    using return_type = int;
    template <typename... Args>
    int operator()(const Args&... args) const
    {
        (put(args), ...);
        return 0;
    }
};
template <typename Rule>
struct G
{
    static constexpr auto name  = "G";
    static constexpr auto rule  = Rule{};
    static constexpr auto value = Val{};
};
template <typename G, typename Input>
std::string observe(const Input& in)
{
    Out o;
    values.clear();
    auto cb = lexy::callback<void>([&](auto, const auto& e) { o.errors.push_back(where(e.position())); });
    auto r  = lexy::parse<G>(in, cb);
    o.ok     = r.has_value();
    o.values = values;
    if (lexy::match<G>(in) != o.errors.empty())
        return "match disagrees";
    return o.str();
}
struct Tail
{
    static vh::Guard& g()
    {
        static vh::Guard x(1 << 19);
        return x;
    }
    void* allocate(std::size_t n, std::size_t)
    {
        auto p = g().tail(n);
        memset(p, 'x', n);
        return p;
    }
    void        deallocate(void*, std::size_t, std::size_t) noexcept {}
    friend bool operator==(const Tail&, const Tail&) noexcept
    {
        return true;
    }
};
Tail tail;

template <typename G, typename Enc>
void one(const Text& t, const std::string& e, const char* name)
{
    using Char = typename Enc::char_type;
    std::vector<Char> u;
    for (auto c : t)
        u.push_back(Char(c));
    auto check = [&](const char* what, const std::string& a) {
        vh::traces(1);
        if (a != e)
            vh::fail(std::string(name) + " " + what + ": expected " + e + " actual " + a);
    };
    unit = sizeof(Char);
    lexy::buffer<Enc, Tail> b(u.data(), u.size(), &tail);
    base = b.data();
    check("buffer", observe<G>(b));
    static vh::Guard g(1 << 19);
    Char*            q = g.tail<Char>(u.size());
    if (!u.empty())
        memcpy(q, u.data(), u.size() * sizeof(Char));
    const Char* s = q;
    base          = s;
    check("string", observe<G>(lexy::string_input<Enc>(s, s + u.size())));
}

// which: 1 units fit ASCII, 2 fit a byte, 3 wider
template <typename Rule>
void text_case(const char* name, const Text& t, Model m)
{
    char32_t top = 0;
    for (auto c : t)
        top = c > top ? c : top;
    vh::step(
        [&] {
            std::string d = std::string(name) + " on \"";
            for (auto c : t)
                if (c >= 32 && c < 127)
                    d += char(c);
                else
                {
                    char b[16];
                    snprintf(b, sizeof b, "<%X>", unsigned(c));
                    d += b;
                }
            return d + "\"";
        },
        [&] {
            vh::transitions(t.size());
            Ref r{t, {}};
            r.pos();
            m(r);
            r.pos();
            auto e = r.o.str();
            vh::outcome(e);
            if (top < 0x80)
                one<G<Rule>, lexy::ascii_encoding>(t, e, "ascii");
            if (top < 0x100)
            {
                one<G<Rule>, lexy::default_encoding>(t, e, "default");
                if (top < 0xF8)
                {
                    one<G<Rule>, lexy::utf8_encoding>(t, e, "utf8");
                    one<G<Rule>, lexy::utf8_char_encoding>(t, e, "utf8_char");
                }
            }
            if (top < 0x10000)
                one<G<Rule>, lexy::utf16_encoding>(t, e, "utf16");
            one<G<Rule>, lexy::utf32_encoding>(t, e, "utf32");
        });
}
template <typename Rule>
void explore(const char* name, const char* prefix, const char* filler, std::initializer_list<char32_t> special, Model m)
{
    std::string fl = filler, pr = prefix;
    int         n = vh::thorough() ? 5 : 3, maxl = vh::thorough() ? 40 : 27, maxp = vh::thorough() ? 26 : 11;
    std::vector<Text> level{{}};
    for (int l = 0; l <= n; ++l)
    {
        std::vector<Text> next;
        for (auto& t : level)
        {
            text_case<Rule>(name, t, m);
            for (auto c : special)
            {
                auto x = t;
                x.push_back(c);
                next.push_back(x);
            }
        }
        level = std::move(next);
    }
    // around the powers of two
    for (int l : {31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1025, 65536})
    {
        Text f;
        for (char c : pr)
            f.push_back(char32_t(c));
        int z = int(f.size());
        for (int i = 0; i < l; ++i)
            f.push_back(char32_t(fl[size_t(i) % fl.size()]));
        for (int i : {0, l / 2, 255, 256, l - 2, l - 1})
            for (auto c : special)
            {
                if (i >= l || (l > 2000 && i != l - 2))
                    continue;
                auto x = f;
                x[size_t(z + i)] = c;
                text_case<Rule>(name, x, m);
            }
    }
    for (int l = 0; l <= maxl; ++l)
    {
        Text f;
        for (char c : pr)
            f.push_back(char32_t(c));
        int z = int(f.size());
        for (int i = 0; i < l; ++i)
            f.push_back(char32_t(fl[size_t(i) % fl.size()]));
        text_case<Rule>(name, f, m);
        for (int i = 0; i < l; ++i)
            for (auto c : special)
            {
                auto x = f;
                x[size_t(z + i)] = c;
                text_case<Rule>(name, x, m);
                if (l <= maxp || i >= l - 2)
                    for (int j = i + 1; j < l; ++j)
                        for (auto d : special)
                        {
                            auto y = x;
                            y[size_t(z + j)] = d;
                            text_case<Rule>(name, y, m);
                        }
            }
    }
}
} // namespace
#define RULE(ID, PREFIX, FILLER, SPECIAL, MODEL, ...)                                              \
    namespace                                                                                      \
    {                                                                                              \
        [[maybe_unused]] int r##ID = parts::add<ID>([](auto) {                                     \
            explore<LEXY_DECAY_DECLTYPE(dsl::position + (__VA_ARGS__) + dsl::position)>(           \
                #__VA_ARGS__, PREFIX, FILLER, SP SPECIAL, [](Ref & r) MODEL);                      \
        });                                                                                        \
    }
#define SP(...) {__VA_ARGS__}
#define NL [&r](std::size_t i) { return r.nl(i); }
#define LIT(S) [&r](std::size_t i) { return r.at(i, S) ? long(sizeof(S) - 1) : 0l; }
RULE(0, "", "xyz", ('x', 0, 0x0A, 0x80, 0xFE, 0x1FF, 0x10000), { r.rest(); }, dsl::any)
RULE(1, "", "xyz", ('x', '\n', '\r', 0x0E, 0x10A, 0x1000A), { r.until(NL, false); }, dsl::until(dsl::newline))
RULE(2, "", "xyz", ('x', '\n', '\r', 0x0F, 0x8A, 0x8D), { r.until(NL, true); }, dsl::until(dsl::newline).or_eof())
RULE(3, "", "\x0E\x0F\x10", ('\n', '\r', 0x09, 0x01, 0xC3), { r.until(NL, false); }, dsl::until(dsl::newline))
RULE(4, "", "xyz", ('x', ';', ':', 0xBB, 0x13B), { r.until(LIT(";"), false); }, dsl::until(dsl::lit_c<';'>))
RULE(5, "", "xy;", ('x', ';', ':', 0xBB), { r.until(LIT(";;"), false); }, dsl::until(LEXY_LIT(";;")))
RULE(6, "", "xab", ('a', 'b', ';', 'x'), { r.until(([&r](std::size_t i) { return r.at(i, ";;") ? 2l : r.at(i, "ab;") ? 3l : 0l; }), true); }, dsl::until(dsl::literal_set(LEXY_LIT(";;"), LEXY_LIT("ab;"))).or_eof())
RULE(7, "", "xyz", ('0', '9', '/', ':', 0x130, 0xB0), { r.until(([&r](std::size_t i) { return r.t[i] >= '0' && r.t[i] <= '9' ? 1l : 0l; }), false); }, dsl::until(dsl::ascii::digit))
RULE(8, "", "xyz", (0x0A, 0x3B, 0x78, 0), { r.until(LIT(";"), true); }, dsl::until(dsl::token(LEXY_LIT(";") | dsl::eof)))
RULE(9, "", "xyz", ('\n', '\r', 'x', 0x0B), { r.until(NL, false); r.until(NL, false); }, dsl::until(dsl::newline) + dsl::until(dsl::newline))
RULE(10, "", "xyz", ('\n', '\r', 'x', 0x0C), {
    while (r.find(NL, false)) {}
    r.o.p = 0;
    while (true) { auto save = r.o.p; if (!r.find(NL, false)) { r.o.p = save; break; } }
    }, dsl::while_(dsl::until(dsl::newline)))
RULE(11, "", "xyz", ('x', ';', '\n', 'y'), {
    auto i = r.p();
    while (i < r.t.size() && r.t[i] != ';' && r.t[i] != '\n') ++i;
    if (i < r.t.size() && r.t[i] == ';') r.until(LIT(";"), false); else if (r.at(0, "x")) r.o.p += 1; else r.fail(0);
    }, dsl::lookahead(LEXY_LIT(";"), dsl::newline) >> dsl::until(dsl::lit_c<';'>) | dsl::else_ >> LEXY_LIT("x"))
RULE(12, "", "xyz", ('x', '\n', '\r', 0x0D0A), {
    auto save = r.o.p;
    bool f = r.find(NL, false);
    r.o.p = save;
    if (f) r.rest(); else if (r.at(0, "x")) r.o.p += 1; else r.fail(0);
    }, dsl::peek(dsl::until(dsl::newline)) >> dsl::any | dsl::else_ >> LEXY_LIT("x"))
RULE(13, "", "xyz", ('x', '\n', '\r', 0x0E), {
    auto b = r.o.p;
    r.until(NL, true);
    r.o.values.push_back(b); r.o.values.push_back(r.o.p);
    }, dsl::capture(dsl::until(dsl::newline).or_eof()))
RULE(14, "", "xyz", ('x', 0x0A, 0x80), { auto b = r.o.p; r.rest(); r.o.values.push_back(b); r.o.values.push_back(r.o.p); }, dsl::capture(dsl::any))
RULE(15, "", "xyz", ('x', ';', 'a', 'b'), { if (!r.find(LIT(";"), false)) r.fail(0); if (r.o.ok && r.at(r.p(), "a")) ++r.o.p; }, dsl::token(dsl::until(dsl::lit_c<';'>) + dsl::opt(LEXY_LIT("a"))))
RULE(16, "", "xyz", ('x', 'A', '`', '{', 0x161, 0xE1), {
    r.skip([](char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); });
    if (r.p() == r.t.size()) {} else if (auto n = r.nl(r.p())) r.o.p += n; else r.fail(r.o.p);
    }, dsl::while_(dsl::ascii::alpha) + dsl::eol)
RULE(17, "", "xyz", ('x', '\n', ';', '\r'), {
    // the newline, or the end, whichever comes first; then the line break itself
    r.until(([&r](std::size_t i) { return r.nl(i) ? r.nl(i) : r.at(i, ";") ? 1l : 0l; }), false);
    }, dsl::until(dsl::literal_set(LEXY_LIT("\n"), LEXY_LIT("\r\n"), LEXY_LIT(";"))))
RULE(18, "(*", "xyz", ('*', ')', '(', 'x'), {
    if (!r.at(0, "(*")) { r.fail(0); return; }
    r.o.p = 2;
    r.until(LIT("*)"), false);
    }, LEXY_LIT("(*") + dsl::until(LEXY_LIT("*)")))
RULE(19, "", "xyz", ('x', '\n', '\r', 'y'), {
    // any is unconditional, even at the end of the input
    r.until(NL, true); r.rest(); r.pos(); r.rest();
    }, dsl::until(dsl::newline).or_eof() + dsl::any + dsl::position + dsl::any)
RULE(20, "", "xyz", ('x', ' ', '_', 0x15F), {
    auto ws = [](char32_t c) { return c == 'x' || c == 'y' || c == 'z'; };
    auto b  = r.o.p; r.skip(ws);
    if (r.o.p == b) r.fail(b);
    else { r.o.values.push_back(b); r.o.values.push_back(r.o.p); }
    }, dsl::capture(dsl::token(dsl::while_one(dsl::lit_c<'x'> / dsl::lit_c<'y'> / dsl::lit_c<'z'>))))
RULE(21, "", "xyz", ('x', ';', '\n', 0x3B0), {
    auto save = r.o.p;
    bool f = r.find(LIT(";"), false);
    r.o.p = save;
    if (f) r.fail(0);
    else r.rest();
    }, dsl::peek_not(dsl::until(dsl::lit_c<';'>)) >> dsl::any | dsl::error<struct tag>)
PARTS_MAIN
