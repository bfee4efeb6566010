// C16: long runs of whitespace, in every encoding and storage, against a direct scan of the text.
#include "parts.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
namespace dsl = lexy::dsl;
namespace
{
using Text = std::vector<char32_t>;
// one application of a whitespace rule at i: the end of the match, -1 if it is not taken, -2 - p for
// an error at p
using Match = long (*)(const Text&, std::size_t);

template <typename Ws>
struct P
{
    static constexpr auto name       = "P";
    static constexpr auto whitespace = Ws{};
    static constexpr auto rule       = dsl::while_(LEXY_LIT("a")) + dsl::opt(LEXY_LIT("xx")) + dsl::eof;
};
// the same with explicit skipping and none around it
template <typename Ws>
struct X
{
    static constexpr auto name = "X";
    static constexpr auto rule
        = dsl::whitespace(Ws{}) + dsl::while_(LEXY_LIT("a") >> dsl::whitespace(Ws{}))
          + dsl::opt(LEXY_LIT("xx") >> dsl::whitespace(Ws{})) + dsl::eof;
};
// a token production: whitespace in front of and behind it only
struct TT : lexy::token_production
{
    static constexpr auto name = "TT";
    static constexpr auto rule = dsl::while_(LEXY_LIT("a")) + dsl::opt(LEXY_LIT("xx"));
};
template <typename Ws>
struct T
{
    static constexpr auto name       = "T";
    static constexpr auto whitespace = Ws{};
    static constexpr auto rule       = dsl::p<TT> + dsl::eof;
};

struct Leaf
{
    char kind; // w(hitespace), t(oken), e(rror)
    long b, e;
};
struct Expect
{
    std::vector<Leaf> leaves;
    std::vector<long> errors;
    bool              fatal = false;
    long              end   = 0;
    std::string       str() const
    {
        std::string s;
        if (!fatal)
        {
            for (auto& l : leaves)
                s += std::string(1, l.kind) + std::to_string(l.b) + "-" + std::to_string(l.e) + " ";
            s += "|" + std::to_string(end);
        }
        for (auto e : errors)
            s += " !" + std::to_string(e);
        return s + (fatal ? " fatal" : errors.empty() ? " ok" : " recovered");
    }
};
Expect model(const Text& t, Match m, int which)
{
    Expect      r;
    std::size_t p  = 0;
    auto        ws = [&] {
        auto b = p;
        while (true)
        {
            auto e = m(t, p);
            if (e == -1)
                break;
            if (e <= -2)
            {
                r.errors.push_back(-2 - e);
                r.fatal = true;
                return false;
            }
            p = std::size_t(e);
        }
        if (p != b)
            r.leaves.push_back({'w', long(b), long(p)});
        return true;
    };
    if (!ws())
        return r;
    auto at = [&](const char* s) {
        std::size_t k = 0;
        while (s[k] && p + k < t.size() && t[p + k] == char32_t(s[k]))
            ++k;
        return !s[k];
    };
    while (at("a"))
    {
        r.leaves.push_back({'t', long(p), long(p + 1)});
        ++p;
        if (which != 2 && !ws())
            return r;
    }
    if (at("xx"))
    {
        r.leaves.push_back({'t', long(p), long(p + 2)});
        p += 2;
        if (which != 2 && !ws())
            return r;
    }
    if (which == 2 && !ws())
        return r;
    if (p != t.size())
        r.errors.push_back(long(p));
    r.end = long(p);
    return r;
}

template <typename G, typename Input, typename C>
std::string actual(const Input& in, const C* b, std::size_t n)
{
    Expect r;
    auto   cb = lexy::callback<void>([&](auto, const auto& err) { r.errors.push_back(long(err.position() - b)); });
    auto   v  = lexy::validate<G>(in, cb);
    if (v.is_fatal_error())
        r.fatal = true;
    lexy::parse_tree_for<Input> tree;
    (void)lexy::parse_as_tree<G>(tree, in, lexy::noop);
    if (r.fatal != tree.empty())
        return "fatal disagrees with an empty tree";
    for (auto [ev, node] : tree.traverse())
        if (ev == lexy::traverse_event::leaf)
        {
            auto l = node.lexeme();
            if (l.begin() == l.end())
                continue; // EOF
            char k = node.kind() == lexy::whitespace_token_kind ? 'w' : node.kind() == lexy::error_token_kind ? 'e' : 't';
            r.leaves.push_back({k, long(l.begin() - b), long(l.end() - b)});
        }
    r.end = r.fatal ? 0 : long(tree.remaining_input().begin() - b);
    if (!r.fatal && tree.remaining_input().end() != b + n)
        return "remaining input does not end at the end";
    return r.str();
}
struct Tail
{
    static vh::Guard& g()
    {
        static vh::Guard x(1 << 19);
        return x;
    }
    void* allocate(std::size_t n, std::size_t)
    {
        auto p = g().tail(n);
        memset(p, ' ', n); // what was there before looks like more whitespace
        return p;
    }
    void        deallocate(void*, std::size_t, std::size_t) noexcept {}
    friend bool operator==(const Tail&, const Tail&) noexcept
    {
        return true;
    }
};
Tail tail;

template <typename G, typename Enc>
void one(const Text& t, const std::string& e, const char* name)
{
    using Char = typename Enc::char_type;
    std::vector<Char> u;
    for (auto c : t)
        u.push_back(Char(c));
    lexy::buffer<Enc, Tail> b(u.data(), u.size(), &tail);
    auto                    check = [&](const char* what, const std::string& a) {
        vh::traces(1);
        if (a != e)
            vh::fail(std::string(name) + " " + what + ": expected " + e + " actual " + a);
    };
    check("buffer", actual<G>(b, b.data(), b.size()));
    static vh::Guard g(1 << 19);
    Char*            q = g.tail<Char>(u.size());
    if (!u.empty())
        memcpy(q, u.data(), u.size() * sizeof(Char));
    const Char* s = q;
    check("string", actual<G>(lexy::string_input<Enc>(s, s + u.size()), s, u.size()));
}
template <typename G>
void grammar(const Text& t, Match m, int which)
{
    auto e = model(t, m, which).str();
    vh::outcome(e);
    one<G, lexy::utf8_encoding>(t, e, "utf8");
    one<G, lexy::utf8_char_encoding>(t, e, "utf8_char");
    one<G, lexy::ascii_encoding>(t, e, "ascii");
    one<G, lexy::utf16_encoding>(t, e, "utf16");
    one<G, lexy::utf32_encoding>(t, e, "utf32");
    one<G, lexy::default_encoding>(t, e, "default");
}
template <typename Ws>
void text_case(const char* name, const Text& t, Match m)
{
    vh::step(
        [&] {
            std::string d = std::string(name) + " on \"";
            for (auto c : t)
                d += c == '\n' ? 'n' : c == '\t' ? 't' : char(c);
            return d + "\"";
        },
        [&] {
            vh::transitions(t.size());
            grammar<P<Ws>>(t, m, 0);
            grammar<X<Ws>>(t, m, 1);
            grammar<T<Ws>>(t, m, 2);
        });
}
template <typename Ws>
void explore(const char* name, const char* filler, const char* special, Match m)
{
    std::string fl = filler, sp = special;
    int         n = vh::thorough() ? 6 : 4, maxl = vh::thorough() ? 40 : 27, maxp = vh::thorough() ? 26 : 13;
    std::vector<Text> level{{}};
    for (int l = 0; l <= n; ++l)
    {
        std::vector<Text> next;
        for (auto& t : level)
        {
            text_case<Ws>(name, t, m);
            for (auto c : sp)
            {
                auto x = t;
                x.push_back(char32_t(c));
                next.push_back(x);
            }
        }
        level = std::move(next);
    }
    // around the powers of two
    for (int l : {31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1025, 65536})
    {
        Text f;
        for (int i = 0; i < l; ++i)
            f.push_back(char32_t(fl[size_t(i) % fl.size()]));
        for (int i : {0, l / 2, 255, 256, l - 2, l - 1})
            for (auto c : sp)
            {
                if (i >= l || (l > 2000 && i != l - 2))
                    continue;
                auto x = f;
                x[size_t(i)] = char32_t(c);
                text_case<Ws>(name, x, m);
            }
    }
    for (int l = 0; l <= maxl; ++l)
    {
        Text f;
        for (int i = 0; i < l; ++i)
            f.push_back(char32_t(fl[size_t(i) % fl.size()]));
        text_case<Ws>(name, f, m);
        for (int i = 0; i < l; ++i)
            for (auto c : sp)
            {
                auto x = f;
                x[size_t(i)] = char32_t(c);
                text_case<Ws>(name, x, m);
                if (l <= maxp || i >= l - 2)
                    for (int j = i + 1; j < l; ++j)
                        for (auto d : sp)
                        {
                            auto y = x;
                            y[size_t(j)] = char32_t(d);
                            text_case<Ws>(name, y, m);
                        }
            }
    }
}
bool lit(const Text& t, std::size_t i, const char* s)
{
    for (; *s; ++s, ++i)
        if (i >= t.size() || t[i] != char32_t(*s))
            return false;
    return true;
}
template <typename F>
long one_of(const Text& t, std::size_t i, F f)
{
    return i < t.size() && f(t[i]) ? long(i) + 1 : -1;
}
} // namespace
#define WS(ID, FILLER, SPECIAL, MATCH, ...)                                                        \
    namespace                                                                                      \
    {                                                                                              \
        [[maybe_unused]] int r##ID = parts::add<ID>([](auto) {                                     \
            explore<LEXY_DECAY_DECLTYPE(__VA_ARGS__)>(#__VA_ARGS__, FILLER, SPECIAL, [](const Text& t, std::size_t i) -> long MATCH); \
        });                                                                                        \
    }
WS(0, " ", "a \tx", { return one_of(t, i, [](char32_t c) { return c == ' ' || (c >= 9 && c <= 13); }); }, dsl::ascii::space)
WS(1, " ", "a \n\t", { return one_of(t, i, [](char32_t c) { return c == ' ' || c == 9; }); }, dsl::ascii::blank)
WS(2, " ", "a _", { return one_of(t, i, [](char32_t c) { return c == '_'; }); }, dsl::lit_c<'_'>)
WS(3, " ", "a \n\t", { return one_of(t, i, [](char32_t c) { return c == '\n' || c == '\r' || c == '\t'; }); }, dsl::ascii::newline / dsl::lit_c<'\t'>)
WS(4, " ", "a _x", { return lit(t, i, " ") ? long(i) + 1 : -1; }, LEXY_LIT(" "))
WS(5, " ", "a _", { return lit(t, i, "  ") ? long(i) + 2 : -1; }, LEXY_LIT("  "))
WS(6, " _", "a _\n", { return lit(t, i, " _") ? long(i) + 2 : lit(t, i, "\n") ? long(i) + 1 : -1; }, LEXY_LIT(" _") | dsl::lit_c<'\n'>)
WS(7, " ", "a #\n", {
    if (lit(t, i, " ")) return long(i) + 1;
    if (!lit(t, i, "#")) return -1;
    ++i;
    while (i < t.size() && t[i] != '\n') ++i;
    return i < t.size() ? long(i) + 1 : -2 - long(i); }, dsl::ascii::space - dsl::ascii::newline | LEXY_LIT("#") >> dsl::until(dsl::newline))
WS(8, " ", "a #\n", {
    if (lit(t, i, " ") || lit(t, i, "\n")) return long(i) + 1;
    if (!lit(t, i, "#")) return -1;
    ++i;
    while (i < t.size() && t[i] != '\n') ++i;
    return i < t.size() ? long(i) + 1 : long(i); }, dsl::ascii::space | LEXY_LIT("#") >> dsl::until(dsl::newline).or_eof())
WS(9, " ", "a (*)", {
    if (lit(t, i, " ")) return long(i) + 1;
    if (!lit(t, i, "(*")) return -1;
    i += 2;
    while (i < t.size() && !lit(t, i, "*)")) ++i;
    return i < t.size() ? long(i) + 2 : -2 - long(i); }, LEXY_LIT("(*") >> dsl::until(LEXY_LIT("*)")) | dsl::lit_c<' '>)
WS(10, "_", "a _ ", { return one_of(t, i, [](char32_t c) { return c > 32 && c < 127 && !(c >= '0' && c <= '9') && !(c >= 'A' && c <= 'Z') && !(c >= 'a' && c <= 'z'); }); }, dsl::ascii::punct)
WS(11, "\t", "a \t", { return one_of(t, i, [](char32_t c) { return c == ' ' || c == 9; }); }, dsl::lit_c<' '> / dsl::lit_c<'\t'>)
WS(12, " ", "a _\t", {
    if (lit(t, i, "_")) return long(i) + 1;
    auto b = i;
    while (lit(t, i, " ")) ++i;
    return b == i ? -1 : long(i); }, dsl::token(dsl::while_one(dsl::lit_c<' '>)) | dsl::lit_c<'_'>)
WS(13, " ", "a _", { return lit(t, i, "   ") ? long(i) + 3 : lit(t, i, "_") ? long(i) + 1 : -1; }, dsl::literal_set(LEXY_LIT("   "), LEXY_LIT("_")))
WS(14, " ", "a \nx", { return one_of(t, i, [](char32_t c) { return c < 33 || c == 127; }); }, dsl::ascii::control / dsl::lit_c<' '>)
WS(15, " ", "a _x", { return one_of(t, i, [](char32_t c) { return c < 128 && c != ' ' && !(c >= 'a' && c <= 'z'); }); }, dsl::ascii::character - dsl::lit_c<' '> - dsl::ascii::lower)
PARTS_MAIN
