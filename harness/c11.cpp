// C11: character classes and their algebra against explicit sets of code points.
#include "parts.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;

using u32 = uint32_t;
template <typename S>
static S enc1(u32 c)
{
    using C = typename S::value_type;
    S out;
    if constexpr (sizeof(C) == 4)
        out.push_back(C(c));
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000)
            out.push_back(C(c));
        else
            out.push_back(C(0xD7C0 + c / 1024)), out.push_back(C(0xDC00 + c % 1024));
    }
    else if (c < 0x80)
        out.push_back(C(c));
    else if (c < 0x800)
        out.push_back(C(192 + c / 64)), out.push_back(C(128 + c % 64));
    else if (c < 0x10000)
        out.push_back(C(224 + c / 4096)), out.push_back(C(128 + c / 64 % 64)),
            out.push_back(C(128 + c % 64));
    else
        out.push_back(C(240 + c / 262144)), out.push_back(C(128 + c / 4096 % 64)),
            out.push_back(C(128 + c / 64 % 64)), out.push_back(C(128 + c % 64));
    return out;
}

//=== base classes: rule, name, set ===//
struct Even
{
    static LEXY_CONSTEVAL auto name()
    {
        return "even";
    }
    constexpr bool operator()(lexy::code_point cp) const
    {
        return cp.value() % 2 == 0;
    }
};
#define B(N, RULE, NAME, EXPR)                                                                     \
    struct N                                                                                       \
    {                                                                                              \
        static constexpr auto r()                                                                  \
        {                                                                                          \
            return RULE;                                                                           \
        }                                                                                          \
        static const char* name()                                                                  \
        {                                                                                          \
            return NAME;                                                                           \
        }                                                                                          \
        static bool has(u32 c)                                                                     \
        {                                                                                          \
            return EXPR;                                                                           \
        }                                                                                          \
        static std::string text()                                                                  \
        {                                                                                          \
            return #RULE;                                                                          \
        }                                                                                          \
    };
static bool rg(u32 c, u32 a, u32 b)
{
    return c >= a && c <= b;
}
#define LOW rg(c, 'a', 'z')
#define UPP rg(c, 'A', 'Z')
#define DIG rg(c, '0', '9')
B(a_control, dsl::ascii::control, "ASCII.control", c < 32 || c == 127)
B(a_blank, dsl::ascii::blank, "ASCII.blank", c == ' ' || c == '\t')
B(a_newline, dsl::ascii::newline, "ASCII.newline", c == '\n' || c == '\r')
B(a_other_space, dsl::ascii::other_space, "ASCII.other-space", c == 11 || c == 12)
B(a_space, dsl::ascii::space, "ASCII.space", c == ' ' || rg(c, 9, 13))
B(a_digit, dsl::ascii::digit, "ASCII.digit", DIG)
B(a_lower, dsl::ascii::lower, "ASCII.lower", LOW)
B(a_upper, dsl::ascii::upper, "ASCII.upper", UPP)
B(a_alpha, dsl::ascii::alpha, "ASCII.alpha", LOW || UPP)
B(a_alpha_u, dsl::ascii::alpha_underscore, "ASCII.alpha-underscore", LOW || UPP || c == '_')
B(a_alpha_digit, dsl::ascii::alpha_digit, "ASCII.alpha-digit", LOW || UPP || DIG)
B(a_alnum, dsl::ascii::alnum, "ASCII.alpha-digit", LOW || UPP || DIG)
B(a_word, dsl::ascii::word, "ASCII.word", LOW || UPP || DIG || c == '_')
B(a_adu, dsl::ascii::alpha_digit_underscore, "ASCII.word", LOW || UPP || DIG || c == '_')
B(a_punct, dsl::ascii::punct, "ASCII.punct", rg(c, 33, 126) && !(LOW || UPP || DIG))
B(a_graph, dsl::ascii::graph, "ASCII.graph", rg(c, 33, 126))
B(a_print, dsl::ascii::print, "ASCII.print", rg(c, 32, 126))
B(a_char, dsl::ascii::character, "ASCII", c < 128)
B(a_one, LEXY_ASCII_ONE_OF("ab0 Z~"), "ab0 Z~", c == 'a' || c == 'b' || c == '0' || c == ' ' || c == 'Z' || c == '~')
B(a_one1, LEXY_ASCII_ONE_OF("x"), "x", c == 'x')
B(a_ends, LEXY_ASCII_ONE_OF("\x01\x7F"), "\x01\x7F", c == 1 || c == 127)
B(cp_any, dsl::code_point, "code-point", c < 0x110000 && !rg(c, 0xD800, 0xDFFF))
B(cp_ascii, dsl::code_point.ascii(), "code-point.ASCII", c < 128)
B(cp_bmp, dsl::code_point.bmp(), "code-point.BMP", c < 0x10000)
B(cp_nonch, dsl::code_point.noncharacter(), "code-point.non-character", rg(c, 0xFDD0, 0xFDEF) || (c & 0xFFFE) == 0xFFFE)
B(cp_r1, (dsl::code_point.range<U'M', 0x100>()), "code-point.range", rg(c, 'M', 0x100))
B(cp_r2, (dsl::code_point.range<0x7F, 0x80>()), "code-point.range", rg(c, 0x7F, 0x80))
B(cp_r3, (dsl::code_point.range<0x800, 0x10FFFF>()), "code-point.range", rg(c, 0x800, 0x10FFFF))
B(cp_set, (dsl::code_point.set<U'a', U'0', 0x7F, 0x80, 0xE4, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF>()), "code-point.set",
  c == 'a' || c == '0' || c == 0x7F || c == 0x80 || c == 0xE4 || c == 0x7FF || c == 0x800 || c == 0xFFFF || c == 0x10000 || c == 0x10FFFF)
B(cp_even, dsl::code_point.if_<Even>(), "even", c % 2 == 0)
B(named1, LEXY_CHAR_CLASS("mine", dsl::ascii::upper / dsl::ascii::digit), "mine", UPP || DIG)
B(named2, LEXY_CHAR_CLASS("yours", -(dsl::ascii::alpha / dsl::lit_cp<0xE4>)), "yours", !(LOW || UPP || c == 0xE4))
// literals are only classes as operands
B(l_a, dsl::lit_c<'a'>, "", c == 'a')
B(l_lit, LEXY_LIT("~"), "", c == '~')
B(l_cp, dsl::lit_cp<0xE4>, "", c == 0xE4)
B(l_cp3, dsl::lit_cp<0x20AC>, "", c == 0x20AC)
B(l_cp4, dsl::lit_cp<0x1F642>, "", c == 0x1F642)
B(l_cpa, dsl::lit_cp<U'a'>, "", c == 'a')
B(l_32, dsl::lit_c<U'\u00e4'>, "", c == 0xE4)
// bytes
B(b_a, dsl::lit_b<0x61>, "", c == 'a')
B(b_80, dsl::lit_b<0x80>, "", c == 0x80)
B(b_ff, dsl::lit_b<0xFF>, "", c == 0xFF)

template <typename A, typename C>
struct Or
{
    static constexpr auto r()
    {
        return A::r() / C::r();
    }
    static const char* name()
    {
        return "union";
    }
    static bool has(u32 c)
    {
        return A::has(c) || C::has(c);
    }
    static std::string text()
    {
        return "(" + A::text() + " / " + C::text() + ")";
    }
};
template <typename A, typename C>
struct Minus
{
    static constexpr auto r()
    {
        return A::r() - C::r();
    }
    static const char* name()
    {
        return "minus";
    }
    static bool has(u32 c)
    {
        return A::has(c) && !C::has(c);
    }
    static std::string text()
    {
        return "(" + A::text() + " - " + C::text() + ")";
    }
};
template <typename A, typename C>
struct And
{
    static constexpr auto r()
    {
        return A::r() & C::r();
    }
    static const char* name()
    {
        return "intersection";
    }
    static bool has(u32 c)
    {
        return A::has(c) && C::has(c);
    }
    static std::string text()
    {
        return "(" + A::text() + " & " + C::text() + ")";
    }
};
template <typename A>
struct Not
{
    static constexpr auto r()
    {
        return -A::r();
    }
    static const char* name()
    {
        return "complement";
    }
    static bool has(u32 c)
    {
        return !A::has(c);
    }
    static std::string text()
    {
        return "-" + A::text();
    }
};
template <typename A>
struct NotNot : A
{
    static constexpr auto r()
    {
        return -(-A::r());
    }
    static std::string text()
    {
        return "--" + A::text();
    }
};

//=== running one ===//
struct Cb
{
    static inline std::string last;
    static inline const void* pos = nullptr;
    struct S
    {
        using return_type = std::size_t;
        std::size_t n     = 0;
        template <typename Ctx, typename Reader>
        void operator()(const Ctx&, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            last = e.name();
            pos  = e.position();
            ++n;
        }
        template <typename Ctx, typename Error>
        void operator()(const Ctx&, const Error&)
        {
            last = "other";
            ++n;
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
template <typename D>
struct P
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::capture(D::r());
    static constexpr auto value = lexy::callback<long>([](auto lex) { return long(lex.size()); });
};
template <typename D>
struct PB // as a branch
{
    static constexpr auto rule = dsl::lit_c<'^'> + (D::r() >> dsl::lit_c<'+'> | dsl::else_ >> dsl::lit_c<'-'>);
};
template <typename D>
struct PM
{
    static constexpr auto rule = D::r() + dsl::eof;
};

// the text s (one character, or ill-formed) at the position: length of the match or an error
template <typename D, typename Enc, bool Full, typename S>
static bool one(const S& s, bool member, const char* what, bool branch)
{
    using C = typename Enc::char_type;
    if constexpr (!Full)
    {
        vh::traces(1);
        if (lexy::match<PM<D>>(lexy::string_input<Enc>(s.data(), s.size())) == member)
            return true;
        std::string u;
        for (auto c : s)
            u += std::to_string((unsigned long)(c)) + " ";
        vh::fail(std::string(what) + " units [" + u + "]: expected " + (member ? "match" : "no match"));
        return false;
    }
    else
    {
    S t;
    t.push_back(C('^'));
    t += s;
    auto in = lexy::string_input<Enc>(t.data(), t.size());
    Cb::last.clear();
    Cb::pos  = nullptr;
    auto r   = lexy::parse<P<D>>(in, Cb{});
    vh::traces(1);
    auto bad = [&](std::string m) {
        std::string u;
        for (auto c : s)
            u += std::to_string(unsigned(std::make_unsigned_t<typename std::conditional_t<std::is_same_v<C, char8_t>, char, C>>(c))) + " ";
        vh::fail(std::string(what) + " units [" + u + "]: " + m);
        return false;
    };
    if (member)
    {
        if (!r.is_success() || r.value() != long(s.size()))
            return bad("not matched exactly");
    }
    else
    {
        if (r.has_value() || r.error_count() != 1)
            return bad("matched although not in the class");
        if (Cb::last != D::name())
            return bad("error names '" + Cb::last + "'");
        if (Cb::pos != t.data() + 1)
            return bad("error position");
    }
    if (branch)
    {
        for (int k = 0; k < 2; ++k)
        {
            S b;
            b.push_back(C('^'));
            if (k == 0)
                b += s, b.push_back(C('+'));
            else
                b.push_back(C('-')), b += s;
            bool want = k == 0 ? member : s.empty() || !D::has('-');
            if (k == 0 && !member && !s.empty() && s[0] == C('-'))
                want = true; // takes the else branch, which is then fine
            if (k == 1 && D::has('-'))
                want = !s.empty() && s[0] == C('+');
            if (lexy::match<PB<D>>(lexy::string_input<Enc>(b.data(), b.size())) != want)
                return bad(k ? "branch not taken: nothing may be consumed" : "branch decision");
        }
    }
    return true;
    }
}

static const u32 interesting[]
    = {0x80, 0x81, 0x84, 0x85, 0x9F, 0xA0, 0xBF, 0xC0, 0xC3, 0xE3, 0xE4, 0xE5, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x180, 0x1E4, 0x3FF, 0x400, 0x7FE, 0x7FF, 0x800, 0x801,
       0xFFF, 0x1000, 0x2061, 0x20AB, 0x20AC, 0x20AD, 0x4161, 0x8061, 0xD7FF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFE, 0xFFFF,
       0x10000, 0x10001, 0x10061, 0x1F641, 0x1F642, 0x1F643, 0x1FFFE, 0x2FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF};
template <typename D, typename Enc, bool Full = false>
static bool small(const char* what, bool branch = Full)
{
    using S = std::basic_string<typename Enc::char_type>;
    for (u32 c = 0; c < 128; ++c)
        if (!one<D, Enc, Full>(enc1<S>(c), D::has(c), what, branch))
            return false;
    if constexpr (!std::is_same_v<Enc, lexy::ascii_encoding>)
        for (u32 c : interesting)
            if (!one<D, Enc, Full>(enc1<S>(c), D::has(c), what, branch && c % 2))
                return false;
    if (!one<D, Enc, Full>(S(), false, what, branch))
        return false;
    return true;
}
// not the start of any well-formed character
template <typename D, typename Enc, bool Full = false>
static bool illformed(const char* what)
{
    using S = std::basic_string<typename Enc::char_type>;
    using C = typename Enc::char_type;
    auto go = [&](std::initializer_list<unsigned> u) {
        S s;
        for (auto x : u)
            s.push_back(C(x));
        return one<D, Enc, Full>(s, false, what, false);
    };
    if constexpr (std::is_same_v<Enc, lexy::ascii_encoding>)
    {
        for (unsigned b = 128; b < 256; ++b)
            if (!go({b}))
                return false;
    }
    else if constexpr (sizeof(C) == 1)
    {
        for (unsigned b = 128; b < 256; ++b)
            if (!go({b}) || !go({b, 'a'}) || !go({b, 0xC3}))
                return false;
        return go({0xC1, 0xA1}) && go({0xE0, 0x81, 0xA1}) && go({0xF0, 0x80, 0x81, 0xA1}) && go({0xED, 0xA0, 0x80})
               && go({0xED, 0xBF, 0xBF}) && go({0xE2, 0x82}) && go({0xF4, 0x90, 0x80, 0x80}) && go({0xF0, 0x9F, 0x99});
    }
    else if constexpr (sizeof(C) == 2)
        return go({0xD800}) && go({0xD800, 'a'}) && go({0xDC00}) && go({0xDFFF, 0xDFFF}) && go({0xDBFF, 0xE000});
    else
        return go({0xD800}) && go({0xDFFF}) && go({0x110000}) && go({0xFFFFFFFE}) && go({0x80000061}) && go({0x200061});
    return true;
}
template <typename D>
static void unicode_small()
{
    vh::step([] { return D::text() + " boundary code points"; }, [] {
        (void)(small<D, lexy::utf8_char_encoding, true>("utf8_char") && small<D, lexy::utf16_encoding>("utf16")
               && small<D, lexy::utf32_encoding>("utf32") && small<D, lexy::utf8_encoding>("utf8")
               && small<D, lexy::ascii_encoding>("ascii") && illformed<D, lexy::utf8_char_encoding>("utf8_char")
               && illformed<D, lexy::utf16_encoding>("utf16") && illformed<D, lexy::utf32_encoding>("utf32")
               && illformed<D, lexy::ascii_encoding>("ascii"));
        vh::transitions(1000);
        vh::outcome(D::text());
    });
}
template <typename D>
static void tiny()
{
    vh::step([] { return D::text() + " boundary code points (utf8, utf32)"; }, [] {
        (void)(small<D, lexy::utf8_char_encoding>("utf8_char") && small<D, lexy::utf32_encoding>("utf32"));
        vh::transitions(400);
        vh::outcome(D::text());
    });
}
template <typename D>
static void full()
{
    unicode_small<D>();
    for (u32 blk = 0; blk < 0x110000; blk += 0x4000)
        vh::step([&] { return D::text() + " block " + std::to_string(blk); }, [&] {
            for (u32 c = blk; c < blk + 0x4000; ++c)
            {
                if (rg(c, 0xD800, 0xDFFF))
                    continue;
                auto m = [&]<typename Enc>(Enc) {
                    auto s = enc1<std::basic_string<typename Enc::char_type>>(c);
                    return lexy::match<PM<D>>(lexy::string_input<Enc>(s.data(), s.size())) == D::has(c);
                };
                if (!m(lexy::utf32_encoding{}) || !m(lexy::utf8_encoding{}) || !m(lexy::utf8_char_encoding{}) || !m(lexy::utf16_encoding{}))
                    return vh::fail("code point " + std::to_string(c));
            }
            vh::traces(4 * 0x4000);
            vh::transitions(0x4000);
            vh::outcome(D::text() + std::to_string(blk));
        });
}
template <typename D>
static void bytes()
{
    vh::step([] { return D::text() + " all bytes"; }, [] {
        for (u32 c = 0; c < 256; ++c)
            if (!one<D, lexy::default_encoding, true>(std::string(1, char(c)), D::has(c), "default", true))
                return;
        one<D, lexy::default_encoding, true>(std::string(), false, "default", true);
        vh::transitions(256);
        vh::outcome(D::text() + "bytes");
    });
}
// runs of characters in a buffer are scanned a word at a time
template <typename D>
struct PI
{
    static constexpr auto rule  = dsl::identifier(D::r()) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](auto lex, auto pos) { return lex.end() == pos ? long(lex.size()) : -7; });
};
template <typename D>
struct PD
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'\x02'>)(D::r()) + dsl::eof;
    static constexpr auto value = lexy::as_string<std::string>;
};
template <typename D>
static void runs()
{
    std::vector<u32> fill;
    for (u32 c = 0; c < 128; ++c)
        if (D::has(c))
            fill.push_back(c);
    if (fill.empty())
        return;
    std::vector<u32> probe;
    for (u32 c = 0; c < 128; ++c)
        probe.push_back(c);
    for (auto c : interesting)
        if (c % 2 || c < 0x100)
            probe.push_back(c);
    for (auto p : probe)
        vh::step([&] { return "run of " + D::text() + " with " + std::to_string(p); }, [&] {
            auto go = [&]<typename Enc>(Enc) {
                using S = std::basic_string<typename Enc::char_type>;
                if (std::is_same_v<Enc, lexy::ascii_encoding> && p >= 128)
                    return;
                for (int len : {1, 7, 8, 9, 17})
                    for (int pos = 0; pos <= len; ++pos)
                        for (int f = 0; f < 3; ++f)
                        {
                            S    s;
                            long end = -1, count = 0;
                            for (int i = 0; i < len + 1; ++i)
                            {
                                auto fi = f == 0 ? fill.size() - 1 : f == 1 ? 0 : size_t(i * 7 + pos + int(p)) % fill.size();
                                u32  c  = i == pos ? p : fill[fi];
                                if (!D::has(c))
                                {
                                    ++count;
                                    if (end < 0)
                                        end = long(s.size());
                                }
                                s += enc1<S>(c);
                            }
                            if (end < 0)
                                end = long(s.size());
                            auto buf = lexy::buffer<Enc>(s.data(), s.size());
                            auto r   = lexy::parse<PI<D>>(buf, lexy::noop);
                            long got = r.has_value() ? r.value() : 0;
                            vh::traces(1);
                            if (got != end)
                                return vh::fail("length " + std::to_string(len) + " position " + std::to_string(pos)
                                                + ": expected end " + std::to_string(end) + " got " + std::to_string(got));
                        }
            };
            go(lexy::utf8_encoding{});
            go(lexy::utf8_char_encoding{});
            go(lexy::ascii_encoding{});
            go(lexy::utf32_encoding{});
            go(lexy::utf16_encoding{});
            vh::transitions(500);
        });
}

template <typename... T>
struct L
{};
using All = L<a_control, a_blank, a_newline, a_other_space, a_space, a_digit, a_lower, a_upper, a_alpha, a_alpha_u, a_alpha_digit,
              a_alnum, a_word, a_adu, a_punct, a_graph, a_print, a_char, a_one, a_one1, a_ends, cp_any, cp_ascii, cp_bmp, cp_nonch,
              cp_r1, cp_r2, cp_r3, cp_set, cp_even, named1, named2, Not<a_alpha>, Not<cp_set>, Not<cp_any>, Not<l_cp>, Not<l_a>,
              NotNot<a_alpha>, NotNot<cp_set>>;
using Pair = L<a_alpha, a_control, a_one, cp_any, cp_ascii, cp_r1, cp_set, Not<a_word>, Not<cp_r1>,
               Or<a_upper, l_cp>, Minus<cp_bmp, a_alpha>, And<cp_even, cp_bmp>>;
using Lits = L<l_a, l_lit, l_cp, l_cp3, l_cp4, l_cpa, l_32>;
using Deep = L<a_alpha, cp_set, Not<a_word>>;

template <int Base, int I, typename F>
static void reg(F f)
{
    parts::add<Base + I>(f);
}
template <typename... T>
struct Reg1
{
    template <int... I>
    static int go(std::integer_sequence<int, I...>)
    {
        (reg<0, I>([] {
             if constexpr (I % NPARTS == PART)
             {
                 if (vh::thorough() || I % 3 == 0)
                     full<T>();
                 else
                     unicode_small<T>();
                 runs<T>();
             }
         }),
         ...);
        return 0;
    }
};
template <typename... T>
static int reg_all(L<T...>)
{
    return Reg1<T...>::go(std::make_integer_sequence<int, sizeof...(T)>{});
}
static int r1 = reg_all(All{});

template <typename A, typename... T>
static void with(L<T...>)
{
    (unicode_small<Or<A, T>>(), ...);
    (unicode_small<Minus<A, T>>(), ...);
    (unicode_small<And<A, T>>(), ...);
}
template <typename A, typename... T>
static void with_lit(L<T...>)
{
    (unicode_small<Or<A, T>>(), ...);
    (unicode_small<Or<T, A>>(), ...);
    (unicode_small<Minus<A, T>>(), ...);
    (unicode_small<And<A, T>>(), ...);
    (unicode_small<And<T, A>>(), ...);
    (unicode_small<Or<Or<T, A>, T>>(), ...);
}
template <typename... T>
struct Reg2
{
    template <int... I>
    static int go(std::integer_sequence<int, I...>)
    {
        (reg<100, I>([] { if constexpr ((100 + I) % NPARTS == PART) with<T>(Pair{}); }), ...);
        (reg<200, I>([] { if constexpr ((200 + I) % NPARTS == PART) with_lit<T>(Lits{}); }), ...);
        return 0;
    }
};
template <typename... T>
static int reg_pairs(L<T...>)
{
    return Reg2<T...>::go(std::make_integer_sequence<int, sizeof...(T)>{});
}
static int r2 = reg_pairs(Pair{});

template <typename A, typename C, typename... T>
static void deep2(L<T...>)
{
    (tiny<Or<And<A, C>, T>>(), ...);
    (tiny<Or<T, Minus<A, C>>>(), ...);
    (tiny<Or<Or<A, C>, T>>(), ...);
    (tiny<Or<A, Or<C, T>>>(), ...);
    (tiny<Or<Or<A, C>, Or<T, A>>>(), ...);
    (tiny<And<Or<A, C>, T>>(), ...);
    (tiny<And<And<A, C>, T>>(), ...);
    (tiny<And<T, And<A, C>>>(), ...);
    (tiny<And<And<A, C>, And<C, T>>>(), ...);
    (tiny<And<Minus<A, C>, T>>(), ...);
    (tiny<Minus<Minus<A, C>, T>>(), ...);
    (tiny<Minus<A, Minus<C, T>>>(), ...);
    (tiny<Minus<Or<A, C>, T>>(), ...);
    (tiny<Minus<A, Or<C, T>>>(), ...);
    (tiny<Minus<A, And<C, T>>>(), ...);
    (tiny<Minus<And<A, C>, T>>(), ...);
    (tiny<Not<Or<Minus<A, C>, T>>>(), ...);
    (tiny<Minus<Minus<Minus<A, C>, T>, C>>(), ...);
    (tiny<Not<And<A, Not<Minus<C, T>>>>>(), ...);
}
template <typename... T>
struct Reg3
{
    template <int... I>
    static int go(std::integer_sequence<int, I...>)
    {
        (reg<300, 4 * I>([] { if constexpr ((300 + 4 * I) % NPARTS == PART) deep2<T, a_alpha>(Deep{}); }), ...);
        (reg<300, 4 * I + 1>([] { if constexpr ((301 + 4 * I) % NPARTS == PART) deep2<T, cp_r1>(Deep{}); }), ...);
        (reg<300, 4 * I + 2>([] { if constexpr ((302 + 4 * I) % NPARTS == PART) deep2<T, cp_set>(Deep{}); }), ...);
        (reg<300, 4 * I + 3>([] { if constexpr ((303 + 4 * I) % NPARTS == PART) deep2<T, Not<a_word>>(Deep{}); }), ...);
        return 0;
    }
};
template <typename... T>
static int reg_deep(L<T...>)
{
    return Reg3<T...>::go(std::make_integer_sequence<int, sizeof...(T)>{});
}
static int r3 = reg_deep(Deep{});

static int r4 = parts::add<350>([](auto) {
    bytes<a_control>(), bytes<a_alpha>(), bytes<a_print>(), bytes<a_char>(), bytes<a_one>(), bytes<a_ends>(), bytes<a_word>(),
        bytes<a_punct>(), bytes<named1>(), bytes<a_space>();
    bytes<Or<b_a, b_80>>(), bytes<Or<b_ff, a_alpha>>(), bytes<Or<Or<b_80, b_ff>, b_a>>(), bytes<Or<a_digit, b_ff>>();
});
static int r5 = parts::add<351>([](auto) {
    bytes<Not<b_80>>(), bytes<Not<b_ff>>(), bytes<Not<Or<b_80, a_alpha>>>(), bytes<Not<Or<b_ff, b_a>>>();
    bytes<Minus<Or<b_80, a_alpha>, b_a>>(), bytes<Minus<Not<b_80>, b_ff>>(), bytes<Minus<Not<b_80>, a_alpha>>(), bytes<Minus<a_alpha, b_80>>();
    bytes<And<Not<b_80>, Not<b_ff>>>(), bytes<And<Not<b_80>, a_alpha>>(), bytes<And<Or<b_80, b_ff>, Not<b_ff>>>();
    bytes<And<a_alpha, a_word>>(), bytes<Minus<a_word, a_alpha>>(), bytes<Or<a_alpha, a_digit>>();
});
PARTS_MAIN
