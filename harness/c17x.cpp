// C17: context variables holding large counts and long identifiers.
#include "parts.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
namespace dsl = lexy::dsl;
namespace
{
struct X;
struct Y;
struct I;
constexpr auto cx = dsl::context_counter<X>;
constexpr auto cy = dsl::context_counter<Y>;
constexpr auto as = dsl::while_(dsl::lit_c<'a'>);
struct Val
{
    using return_type = std::string;
    template <typename... Args>
    std::string operator()(Args... a) const
    {
        std::string s;
        ((s += std::to_string(a) + " "), ...);
        return s;
    }
};
// one operation
constexpr auto op = dsl::lit_c<'P'> >> cx.push(as) | dsl::lit_c<'M'> >> cx.pop(as)
                    | dsl::lit_c<'i'> >> dsl::while_(dsl::lit_c<'a'> >> cx.inc())
                    | dsl::lit_c<'d'> >> dsl::while_(dsl::lit_c<'a'> >> cx.dec())
                    | dsl::lit_c<'Q'> >> cy.push(as) | dsl::lit_c<'N'> >> cy.pop(as);
template <int Init>
struct G
{
    static constexpr auto name = "G";
    static constexpr auto rule
        = cx.create<Init>() + cy.create() + op + cx.value() + op + cx.value() + op + cx.value() + cy.value()
          + (cx.is_zero() >> dsl::lit_c<'!'> | cx.is<128>() >> dsl::lit_c<'!'> | cx.is<-128>() >> dsl::lit_c<'!'>
             | cx.is<256>() >> dsl::lit_c<'!'> | cx.is<65536>() >> dsl::lit_c<'!'> | cx.is<-65536>() >> dsl::lit_c<'!'>
             | dsl::else_ >> dsl::lit_c<'?'>)
          + (dsl::equal_counts(cx, cy) >> dsl::lit_c<'='> | dsl::else_ >> dsl::lit_c<'/'>)
          + dsl::equal_counts(cx, cy) + dsl::eof;
    static constexpr auto value = Val{};
};
int  errors;
auto count_errors()
{
    return lexy::callback<void>([](auto, const auto&) { ++errors; });
}
struct Op
{
    char kind;
    int  n;
};
template <int Init>
void counters(const std::vector<Op>& ops)
{
    vh::step(
        [&] {
            std::string d = "create " + std::to_string(Init);
            for (auto& o : ops)
                d += std::string(" ") + o.kind + std::to_string(o.n);
            return d;
        },
        [&] {
            std::string text, expect;
            long        x = Init, y = 0;
            for (auto& o : ops)
            {
                text += o.kind + std::string(std::size_t(o.n), 'a');
                if (o.kind == 'P' || o.kind == 'i')
                    x += o.n;
                else if (o.kind == 'M' || o.kind == 'd')
                    x -= o.n;
                else
                    y += o.kind == 'Q' ? o.n : -o.n;
                expect += std::to_string(x) + " ";
            }
            expect += std::to_string(y) + " ";
            text += x == 0 || x == 128 || x == -128 || x == 256 || x == 65536 || x == -65536 ? '!' : '?';
            text += x == y ? '=' : '/';
            auto run = [&](const char* what, const auto& in) {
                errors   = 0;
                auto r   = lexy::parse<G<Init>>(in, count_errors());
                auto got = r.has_value() ? r.value() : std::string("none");
                vh::traces(1);
                if (got != expect || errors != (x != y))
                    vh::fail(std::string(what) + ": expected " + expect + "got " + got + std::to_string(errors) + " errors");
            };
            vh::transitions(ops.size());
            vh::outcome(expect);
            run("string", lexy::string_input(text.data(), text.size()));
            run("buffer", lexy::buffer<lexy::utf8_char_encoding>(text.data(), text.size()));
            std::u16string w(text.begin(), text.end());
            run("utf16", lexy::string_input(w.data(), w.size()));
            if (text.size() < 2000)
            {
                std::list<char> l(text.begin(), text.end());
                run("list", lexy::range_input<lexy::default_encoding, std::list<char>::const_iterator>(l.cbegin(), l.cend()));
            }
        });
}
void explore_counters()
{
    std::vector<Op> all;
    for (char k : {'P', 'M', 'i', 'd', 'Q', 'N'})
        for (int n : {0, 1, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537})
        {
            if (!vh::thorough() && (k == 'i' || k == 'd' || k == 'N') && n > 257)
                continue;
            if (!vh::thorough() && (n == 129 || n == 255 || n == 32769 || n == 65537))
                continue;
            all.push_back({k, n});
        }
    for (auto& a : all)
        for (auto& b : all)
            for (auto& c : all)
                if (vh::thorough() || long(a.n) + b.n + c.n <= 70000)
                {
                    if (a.n + b.n + c.n < 1000 || vh::thorough() || (a.kind == 'P' && b.kind != 'P'))
                        counters<0>({a, b, c});
                    if (a.n + b.n + c.n < 300)
                    {
                        counters<1000000>({a, b, c});
                        counters<-128>({a, b, c});
                    }
                }
}

//=== identifiers ===//
constexpr auto id = dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word);
constexpr auto ci = dsl::context_identifier<I>(id);
struct Pos
{
    using return_type = std::string;
    template <typename... Args>
    std::string operator()(const Args&...) const
    {
        return std::to_string(sizeof...(Args));
    }
};
struct GB
{
    static constexpr auto name  = "GB";
    static constexpr auto rule  = ci.create() + ci.capture() + dsl::lit_c<':'>
                                 + (ci.rematch() >> dsl::lit_c<'!'> | dsl::else_ >> id + dsl::lit_c<'?'>) + dsl::eof;
    static constexpr auto value = Pos{};
};
struct GR
{
    static constexpr auto name  = "GR";
    static constexpr auto rule  = ci.create() + ci.capture() + dsl::lit_c<':'> + ci.rematch() + dsl::lit_c<';'> + ci.rematch() + dsl::eof;
    static constexpr auto value = Pos{};
};
void idents(const std::string& a, const std::string& b)
{
    vh::step([&] { return a + ":" + b; },
             [&] {
                 vh::transitions(2);
                 bool same = a == b;
                 vh::outcome(std::to_string(a.size()) + (same ? "=" : "/") + std::to_string(b.size()));
                 auto run = [&](const char* what, auto g, auto&& in, std::string values, int errs) {
                     errors   = 0;
                     auto r   = lexy::parse<decltype(g)>(in, count_errors());
                     auto got = r.has_value() ? r.value() : std::string("none");
                     vh::traces(1);
                     if (got != values || errors != errs)
                         vh::fail(std::string(what) + ": expected " + values + " and " + std::to_string(errs) + " errors, got " + got + " and "
                                  + std::to_string(errors));
                 };
                 auto all = [&](auto g, const std::string& t, std::string values, int errs) {
                     run("string", g, lexy::string_input<lexy::utf8_encoding>(t.data(), t.size()), values, errs);
                     run("buffer", g, lexy::buffer<lexy::utf8_char_encoding>(t.data(), t.size()), values, errs);
                     run("ascii buffer", g, lexy::buffer<lexy::ascii_encoding>(t.data(), t.size()), values, errs);
                     std::u32string w(t.begin(), t.end());
                     run("utf32 buffer", g, lexy::buffer<lexy::utf32_encoding>(w.data(), w.size()), values, errs);
                     std::list<char> l(t.begin(), t.end());
                     run("list", g, lexy::range_input<lexy::default_encoding, std::list<char>::const_iterator>(l.cbegin(), l.cend()), values, errs);
                 };
                 all(GB{}, a + ":" + b + (same ? "!" : "?"), same ? "1" : "2", 0);
                 all(GB{}, a + ":" + b + (same ? "?" : "!"), "none", 1);
                 all(GR{}, a + ":" + b + ";" + a, "1", same ? 0 : 1);
                 all(GR{}, a + ":" + a + ";" + b, "1", same ? 0 : 1);
             });
}
void explore_idents()
{
    int maxl = vh::thorough() ? 70 : 34;
    for (int n = 1; n <= maxl; ++n)
    {
        std::string a;
        for (int i = 0; i < n; ++i)
            a += "abc_d1X"[i % 7];
        idents(a, a);
        for (int i = 0; i < n; ++i)
        {
            for (char c : {'a', 'b', 'B', 'Z', '_', '2'})
            {
                auto b = a;
                b[std::size_t(i)] = c;
                if (b[0] >= '0' && b[0] <= '9')
                    continue;
                idents(a, b);
                idents(b, a);
            }
            if (i)
            {
                idents(a, a.substr(0, std::size_t(i)));
                idents(a.substr(0, std::size_t(i)), a);
                idents(a, a.substr(0, std::size_t(i)) + a);
            }
        }
    }
    // all short ones
    std::vector<std::string> w{""};
    for (std::size_t i = 0; i < w.size(); ++i)
        if (w[i].size() < 3)
            for (char c : {'a', 'A', '_'})
                w.push_back(w[i] + c);
    for (auto& a : w)
        for (auto& b : w)
            if (!a.empty() && !b.empty())
                idents(a, b);
}
[[maybe_unused]] int r0 = parts::add<0>([](auto) { explore_counters(); });
[[maybe_unused]] int r1 = parts::add<1>([](auto) { explore_idents(); });
} // namespace
PARTS_MAIN
