// C05: the same code units / the same text through every input type and encoding.
#include "parts.hpp"
#include <forward_list>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#include <list>
namespace dsl = lexy::dsl;
namespace
{
//=== rendering ===//
std::vector<int> off2cp; // empty: plain code unit offsets
bool             cross = false;
template <typename It>
It base_it{};
template <typename It>
std::string idx(It it)
{
    long n = 0;
    if constexpr (std::is_pointer_v<It>)
        n = long(it - base_it<It>);
    else
        for (auto i = base_it<It>; i != it; ++i)
            if (++n > 10000)
                return "??";
    if (off2cp.empty())
        return std::to_string(n);
    if (n < 0 || size_t(n) >= off2cp.size())
        return "?" + std::to_string(n);
    return off2cp[size_t(n)] < 0 ? "mid" : std::to_string(off2cp[size_t(n)]);
}
template <typename Reader>
std::string show(const lexy::lexeme<Reader>& l)
{
    return "<" + idx(l.begin()) + "," + idx(l.end()) + ">";
}
std::string show(lexy::nullopt)
{
    return "~";
}
std::string show(const std::string& s)
{
    return s;
}
std::string show(lexy::code_point cp)
{
    return "U+" + std::to_string(unsigned(cp.value()));
}
template <typename T>
std::string show(T t)
{
    if constexpr (std::is_arithmetic_v<T>)
        return std::to_string(t);
    else
        return "@" + idx(t);
}
struct Val
{
    using return_type = std::string;
    template <typename... Args>
    std::string operator()(const Args&... args) const
    {
        std::string s = "(";
        ((s += show(args) + ","), ...);
        return s + ")";
    }
    struct S
    {
        using return_type = std::string;
        std::string s     = "{";
        template <typename... Args>
        void operator()(const Args&... args)
        {
            ((s += show(args) + ","), ...);
            s += ";";
        }
        std::string finish() &&
        {
            return s + "}";
        }
    };
    auto sink() const
    {
        return S{};
    }
};
inline constexpr Val val{};
template <typename Reader, typename Tag>
std::string show_error(const lexy::error<Reader, Tag>& e)
{
    return e.message() + ("[" + idx(e.begin()) + "," + idx(e.end()) + ")");
}
template <typename C>
std::string units(const C* p, std::size_t n)
{
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
        s += std::to_string(unsigned(p[i]) & 0x1fffff) + " ";
    return s;
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_literal>& e)
{
    std::string s = "literal";
    if (!cross)
        s += " " + units(e.string(), e.length()) + "#" + std::to_string(e.index());
    return s + "@" + idx(e.position());
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_keyword>& e)
{
    std::string s = "keyword";
    if (!cross)
        s += " " + units(e.string(), e.length());
    return s + "[" + idx(e.begin()) + "," + idx(e.end()) + ")";
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_char_class>& e)
{
    return std::string("cc ") + e.name() + "@" + idx(e.position());
}
struct Errs
{
    struct S
    {
        using return_type = std::string;
        std::string s;
        template <typename Input, typename Reader, typename Tag>
        void operator()(const lexy::error_context<Input>& ctx, const lexy::error<Reader, Tag>& e)
        {
            s += show_error(e) + " in " + ctx.production() + "@" + idx(ctx.position()) + ";";
        }
        std::string finish() &&
        {
            return s;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
inline constexpr Errs errs{};

template <typename G, typename Input, typename It>
std::string run(const Input& in, It begin)
{
    base_it<It> = begin;
    std::string r;
    {
        auto p = lexy::parse<G>(in, errs);
        r += p.is_success() ? "ok " : p.is_recovered_error() ? "rec " : "fatal ";
        r += p.errors();
        if (p.has_value())
            r += p.value();
    }
    {
        lexy::parse_tree_for<Input> tree;
        (void)lexy::parse_as_tree<G>(tree, in, lexy::noop);
        for (auto [ev, node] : tree.traverse())
        {
            if (ev == lexy::traverse_event::exit)
                r += "}";
            else if (node.kind().is_production())
                r += std::string(node.kind().name()) + "{";
            else
                r += node.kind().name() + show(node.lexeme());
        }
        if (!tree.empty())
            r += "|" + idx(tree.remaining_input().begin()) + "," + idx(tree.remaining_input().end());
    }
    return r;
}

//=== storage ===//
struct GuardRes
{
    static vh::Guard& g()
    {
        static vh::Guard x(1 << 14);
        return x;
    }
    static inline bool used = false;
    void*              allocate(std::size_t bytes, std::size_t)
    {
        // exactly the requested bytes end at an inaccessible page; earlier content is garbage
        auto p = g().tail(bytes);
        memset(p, 'a', bytes);
        return p;
    }
    void deallocate(void*, std::size_t, std::size_t) noexcept {}
    friend bool operator==(const GuardRes&, const GuardRes&) noexcept
    {
        return true;
    }
};
GuardRes res;

template <typename Enc, typename Char = typename Enc::char_type>
std::vector<Char> encode(const std::vector<char32_t>& t, std::vector<int>* map)
{
    std::vector<Char> o;
    int               k = 0;
    auto              put = [&](unsigned v, bool first) {
        o.push_back(Char(v));
        if (map)
            map->push_back(first ? k : -1);
    };
    for (auto c : t)
    {
        if constexpr (sizeof(Char) == 4)
            put(c, true);
        else if constexpr (sizeof(Char) == 2)
        {
            if (c < 0x10000)
                put(c, true);
            else
            {
                put(0xD800 + ((c - 0x10000) >> 10), true);
                put(0xDC00 + ((c - 0x10000) & 0x3FF), false);
            }
        }
        else
        {
            if (c < 0x80)
                put(c, true);
            else if (c < 0x800)
            {
                put(0xC0 | (c >> 6), true);
                put(0x80 | (c & 63), false);
            }
            else if (c < 0x10000)
            {
                put(0xE0 | (c >> 12), true);
                put(0x80 | ((c >> 6) & 63), false);
                put(0x80 | (c & 63), false);
            }
            else
            {
                put(0xF0 | (c >> 18), true);
                put(0x80 | ((c >> 12) & 63), false);
                put(0x80 | ((c >> 6) & 63), false);
                put(0x80 | (c & 63), false);
            }
        }
        ++k;
    }
    if (map)
        map->push_back(k);
    return o;
}

vh::Guard& sguard()
{
    static vh::Guard g(1 << 14);
    return g;
}
// string_input whose end touches an inaccessible page
template <typename G, typename Enc, typename Char>
std::string run_string(const std::vector<Char>& u)
{
    auto p = sguard().tail<Char>(u.size());
    if (!u.empty())
        memcpy(p, u.data(), u.size() * sizeof(Char));
    const Char* b = p;
    return run<G>(lexy::string_input<Enc>(b, b + u.size()), b);
}
template <typename G, typename Enc, typename Char>
std::string run_zstring(const std::vector<Char>& u)
{
    auto p = sguard().tail<Char>(u.size() + 1);
    if (!u.empty())
        memcpy(p, u.data(), u.size() * sizeof(Char));
    p[u.size()] = 0;
    return run<G>(lexy::zstring_input<Enc>(static_cast<const Char*>(p)), static_cast<const Char*>(p));
}
template <typename G, typename Enc, typename Char>
std::string run_buffer(const std::vector<Char>& u)
{
    lexy::buffer<Enc, GuardRes> b(u.data(), u.size(), &res);
    return run<G>(b, b.data());
}
template <typename G, typename Enc, typename Char>
std::string run_list(const std::vector<Char>& u)
{
    std::list<Char> l(u.begin(), u.end());
    return run<G>(lexy::range_input<Enc, typename std::list<Char>::const_iterator>(l.cbegin(), l.cend()),
                  l.cbegin());
}
template <typename G, typename Enc, typename Char>
std::string run_flist(const std::vector<Char>& u)
{
    std::forward_list<Char> l(u.begin(), u.end());
    return run<G>(lexy::range_input<Enc, typename std::forward_list<Char>::const_iterator>(l.cbegin(),
                                                                                           l.cend()),
                  l.cbegin());
}
// a lexeme in the middle of a buffer (and of a view) whose surroundings would continue any token
template <typename G, typename Enc, typename Char>
std::string run_lexeme(const std::vector<Char>& u, const std::vector<Char>& around, bool buf)
{
    std::vector<Char> t = around;
    t.insert(t.end(), u.begin(), u.end());
    t.insert(t.end(), around.begin(), around.end());
    if (buf)
    {
        lexy::buffer<Enc, GuardRes> b(t.data(), t.size(), &res);
        auto                        p = b.data() + around.size();
        return run<G>(lexy::lexeme_input<decltype(b)>(b, p, p + u.size()), p);
    }
    else
    {
        lexy::string_input<Enc> s(t.data(), t.data() + t.size());
        const Char*             p = t.data() + around.size();
        return run<G>(lexy::lexeme_input<decltype(s)>(s, p, p + u.size()), p);
    }
}
// arguments are separated by NUL; only for texts with at least one character or argument
template <typename G, typename Enc>
std::string run_argv(const std::vector<char>& u)
{
    std::vector<std::string> args{"prog", ""};
    for (char c : u)
        if (c == 0)
            args.push_back("");
        else
            args.back() += c;
    std::vector<char*> av;
    for (auto& a : args)
        av.push_back(a.data());
    av.push_back(nullptr);
    lexy::argv_input<Enc> in(int(args.size()), av.data());
    return run<G>(in, lexy::argv_begin(int(args.size()), av.data()));
}

void cmp(const char* what, const std::string& e, const std::string& a)
{
    vh::traces(1);
    if (e != a)
        vh::fail(std::string(what) + ": reference " + e + " actual " + a);
}

struct Spec
{
    const char*              text;
    std::vector<char32_t>    prefix, filler, special;
    int                      unicode; // rules that need a Unicode encoding
};

template <typename G, typename Enc>
void one_encoding(const std::vector<typename Enc::char_type>& u, bool has_nul)
{
    using Char = typename Enc::char_type;
    off2cp.clear();
    auto ref = run_string<G, Enc>(u);
    cmp("buffer", ref, run_buffer<G, Enc>(u));
    if constexpr (std::is_same_v<Enc, lexy::utf8_char_encoding> || std::is_same_v<Enc, lexy::default_encoding>
                  || std::is_same_v<Enc, lexy::utf16_encoding>)
        if (!has_nul)
            cmp("zstring", ref, run_zstring<G, Enc>(u));
    if constexpr (std::is_same_v<Enc, lexy::utf8_char_encoding>)
    {
        cmp("range list", ref, run_list<G, Enc>(u));
        std::vector<Char> ar;
        for (int i = 0; i < 9; ++i)
            ar.push_back(Char(u.empty() ? 'a' : u.back()));
        cmp("lexeme of view", ref, run_lexeme<G, Enc>(u, ar, false));
        cmp("argv", ref, run_argv<G, Enc>(u));
    }
    if constexpr (std::is_same_v<Enc, lexy::default_encoding>)
    {
        cmp("range forward_list", ref, run_flist<G, Enc>(u));
        cmp("argv", ref, run_argv<G, Enc>(u));
    }
    if constexpr (std::is_same_v<Enc, lexy::utf8_encoding>)
    {
        std::vector<Char> ar;
        for (int i = 0; i < 9; ++i)
            ar.push_back(Char(u.empty() ? 'a' : u.back()));
        cmp("lexeme of buffer", ref, run_lexeme<G, Enc>(u, ar, true));
    }
    vh::outcome(ref);
}
template <typename G, typename Enc>
std::string crossed(const std::vector<char32_t>& t)
{
    cross = true;
    off2cp.clear();
    auto u = encode<Enc>(t, &off2cp);
    auto r = run_buffer<G, Enc>(u);
    off2cp.clear();
    cross = false;
    return r;
}

template <typename G, int Unicode>
void text_case(const Spec& spec, const std::vector<char32_t>& t)
{
    bool has_nul = false, ascii = true;
    for (auto c : t)
    {
        has_nul |= c == 0;
        ascii &= c < 0x80;
    }
    vh::step(
        [&] {
            std::string d = std::string(spec.text) + " on \"";
            for (auto c : t)
            {
                char b[16];
                if (c >= 0x20 && c < 0x7f)
                    d += char(c);
                else
                {
                    snprintf(b, sizeof b, "<%X>", unsigned(c));
                    d += b;
                }
            }
            return d + "\"";
        },
        [&] {
            vh::transitions(t.size());
            one_encoding<G, lexy::utf8_char_encoding>(encode<lexy::utf8_char_encoding>(t, nullptr), has_nul);
            one_encoding<G, lexy::utf8_encoding>(encode<lexy::utf8_encoding>(t, nullptr), has_nul);
            one_encoding<G, lexy::utf16_encoding>(encode<lexy::utf16_encoding>(t, nullptr), has_nul);
            one_encoding<G, lexy::utf32_encoding>(encode<lexy::utf32_encoding>(t, nullptr), has_nul);
            auto ref = crossed<G, lexy::utf32_encoding>(t);
            cmp("utf8 vs utf32", ref, crossed<G, lexy::utf8_encoding>(t));
            cmp("utf8 (char) vs utf32", ref, crossed<G, lexy::utf8_char_encoding>(t));
            cmp("utf16 vs utf32", ref, crossed<G, lexy::utf16_encoding>(t));
            if constexpr (Unicode < 2)
            if (ascii)
            {
                one_encoding<G, lexy::ascii_encoding>(encode<lexy::ascii_encoding>(t, nullptr), has_nul);
                cmp("ascii vs utf32", ref, crossed<G, lexy::ascii_encoding>(t));
            }
            if constexpr (!Unicode)
            {
                one_encoding<G, lexy::default_encoding>(encode<lexy::default_encoding>(t, nullptr), has_nul);
                if (ascii)
                    cmp("default vs utf32", ref, crossed<G, lexy::default_encoding>(t));
            }
        });
}

template <typename G, int Unicode>
void explore(const Spec& spec)
{
    using T = std::vector<char32_t>;
    // every string up to a length over the special characters
    int n = vh::thorough() ? 5 : 4;
    T   alpha = spec.special;
    {
        std::vector<T> level{{}};
        for (int l = 0; l <= n; ++l)
        {
            for (auto& t : level)
                text_case<G, Unicode>(spec, t);
            std::vector<T> next;
            if (l < n)
                for (auto& t : level)
                    for (auto c : alpha)
                    {
                        auto x = t;
                        x.push_back(c);
                        next.push_back(x);
                    }
            level = std::move(next);
        }
    }
    // prefix + filler of every length across several machine words, with one or two deviations
    int maxl = vh::thorough() ? 36 : 26, maxp = vh::thorough() ? 24 : 14;
    for (int l = 0; l <= maxl; ++l)
    {
        T f;
        for (int i = 0; i < l; ++i)
            f.push_back(spec.filler[size_t(i) % spec.filler.size()]);
        auto emit = [&](T body) {
            T t = spec.prefix;
            t.insert(t.end(), body.begin(), body.end());
            text_case<G, Unicode>(spec, t);
        };
        emit(f);
        for (int i = 0; i < l; ++i)
            for (auto c : alpha)
            {
                auto x = f;
                x[size_t(i)] = c;
                emit(x);
                if (l <= maxp || i >= l - 3)
                    for (int j = i + 1; j < l; ++j)
                        for (auto d : alpha)
                        {
                            auto y = x;
                            y[size_t(j)] = d;
                            emit(y);
                        }
            }
    }
}
std::vector<char32_t> U(const char32_t* s)
{
    std::vector<char32_t> v;
    while (*s)
        v.push_back(*s++);
    return v;
}
} // namespace

#define GRAMMAR(ID, UNI, PREFIX, FILLER, SPECIAL, ...)                                             \
    namespace                                                                                      \
    {                                                                                              \
        struct G##ID                                                                               \
        {                                                                                          \
            static constexpr auto name  = "G";                                                     \
            static constexpr auto rule  = __VA_ARGS__;                                             \
            static constexpr auto value = val;                                                     \
        };                                                                                         \
        template <int N>                                                                           \
        struct L##ID                                                                               \
        {                                                                                          \
            void operator()() const                                                                \
            {                                                                                      \
                auto sp = U(SPECIAL);                                                              \
                for (auto& c : sp)                                                                 \
                    if (c == U'\x01')                                                              \
                        c = 0;                                                                     \
                explore<std::enable_if_t<N == NPARTS, G##ID>, UNI>(                                \
                    {#__VA_ARGS__, U(PREFIX), U(FILLER), sp, UNI});                                \
            }                                                                                      \
        };                                                                                         \
        [[maybe_unused]] int r##ID = parts::add<ID>(L##ID<NPARTS>{});                              \
    }

namespace
{
struct PI
{
    static constexpr auto name  = "PI";
    static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum);
    static constexpr auto value = val;
};
struct PE
{
    static constexpr auto name  = "PE";
    static constexpr auto rule  = dsl::capture(dsl::ascii::alpha);
    static constexpr auto value = val;
};
struct W
{
    static constexpr auto name       = "W";
    static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("#") >> dsl::until(dsl::newline).or_eof();
    static constexpr auto rule       = dsl::list(dsl::p<PI>, dsl::trailing_sep(dsl::comma)) + dsl::eof;
    static constexpr auto value      = val;
};
// whitespace of every shape in front of the same tokens
template <typename Ws>
struct WP
{
    static constexpr auto name       = "WP";
    static constexpr auto whitespace = Ws{};
    static constexpr auto rule       = dsl::while_(LEXY_LIT("a")) + dsl::opt(LEXY_LIT("x") >> dsl::position) + dsl::eof;
    static constexpr auto value      = val;
};
template <typename Rule>
constexpr auto wp(Rule)
{
    return dsl::p<WP<Rule>>;
}
constexpr auto tab = lexy::symbol_table<int>.map<'a'>(1).map<LEXY_SYMBOL("abcabcabcd")>(2).map<LEXY_SYMBOL("abc")>(3);
constexpr auto esc = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"');
} // namespace
// \x01 stands for NUL
GRAMMAR(0, false, U"", U"abcdefgh", U"abcx\x7f", LEXY_LIT("abcdefgh") + dsl::position)
GRAMMAR(1, false, U"", U"abcdefghijklmnopqrstuvwxyz", U"abx\x01", LEXY_LIT("abcdefghij") + dsl::opt(LEXY_LIT("k")))
GRAMMAR(2, false, U"", U"abcdefghijklmnopqrstuvwxyz", U"abx", dsl::capture(LEXY_LIT("abcdefghijklmnop")) + LEXY_LIT("q"))
GRAMMAR(3, false, U"", U"abc", U"abcd", dsl::capture(dsl::literal_set(LEXY_LIT("abc"), LEXY_LIT("abcabcab"), LEXY_LIT("abcabcabca"), LEXY_LIT("b"))) + dsl::position)
GRAMMAR(4, false, U"", U"abc", U"ab\n\r\x01", dsl::capture(dsl::until(dsl::newline)) + dsl::position)
GRAMMAR(5, false, U"", U"xyz", U"a\n\r\x7f\x0e\x0f", dsl::capture(dsl::until(dsl::newline).or_eof()) + dsl::position)
GRAMMAR(6, false, U"", U"abc", U"ab;\n", dsl::capture(dsl::until(LEXY_LIT(";"))) + dsl::opt(LEXY_LIT("\n")))
GRAMMAR(7, false, U"\"", U"abc", U"a\"\\\n\x7f", dsl::quoted(dsl::ascii::character) + dsl::position)
GRAMMAR(8, true, U"\"", U"abc", U"a\"\\n\x1f", dsl::quoted(-dsl::ascii::control, dsl::backslash_escape.symbol<esc>()) + dsl::position)
GRAMMAR(9, false, U"\"", U"abc", U"a\"\\`\x1f", dsl::delimited(dsl::lit_c<'"'>)(dsl::ascii::print, dsl::escape(dsl::lit_c<'`'>).capture(dsl::ascii::alpha)) + dsl::position)
GRAMMAR(10, false, U"[[", U"abc", U"a]\n[", dsl::delimited(LEXY_LIT("[["), LEXY_LIT("]]")).limit(dsl::ascii::newline)(dsl::ascii::print) + dsl::position)
GRAMMAR(11, false, U"'", U"abc", U"aZ'09_", dsl::single_quoted(dsl::ascii::alpha) + dsl::position)
GRAMMAR(12, false, U"'", U"abc", U"aZ'09_", dsl::single_quoted(dsl::ascii::alnum) + dsl::position)
GRAMMAR(13, false, U"'", U"abc", U"aZ'09_", dsl::single_quoted(dsl::ascii::lower) + dsl::position)
GRAMMAR(14, false, U"'", U"ABC", U"aZ'@[", dsl::single_quoted(dsl::ascii::upper) + dsl::position)
GRAMMAR(15, false, U"'", U"012", U"a9':/", dsl::single_quoted(dsl::ascii::digit) + dsl::position)
GRAMMAR(16, false, U"'", U"a_1", U"{'`_@", dsl::single_quoted(dsl::ascii::word) + dsl::position)
GRAMMAR(17, false, U"'", U"abc", U" '~\x7f!", dsl::single_quoted(dsl::ascii::graph) + dsl::position)
GRAMMAR(18, false, U"'", U"\x02\x03", U" '\x1f\x7f\n", dsl::single_quoted(dsl::ascii::control) + dsl::position)
GRAMMAR(19, false, U"'", U"abc", U"f'gAG", dsl::single_quoted(dsl::ascii::alpha_underscore / dsl::ascii::digit) + dsl::position)
GRAMMAR(20, false, U"", U"abc", U"a1_ Z", dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum) + dsl::position)
GRAMMAR(21, false, U"", U"abc", U"a1_ Z", dsl::identifier(dsl::ascii::alpha_underscore).reserve(LEXY_LIT("abcabcabc"), LEXY_LIT("a")) + dsl::position)
GRAMMAR(22, false, U"", U"123", U"1_a0", dsl::integer<unsigned long long>(dsl::digits<>.sep(dsl::digit_sep_underscore)) + dsl::position)
GRAMMAR(23, false, U"", U"abc", U"ab c", dsl::symbol<tab> + dsl::position)
GRAMMAR(24, false, U"", U"abc", U"a ,#\n", dsl::p<W>)
GRAMMAR(25, false, U"", U"AbC", U"aBcx", dsl::ascii::case_folding(LEXY_LIT("abcabcabca")) + dsl::position)
GRAMMAR(26, false, U"", U"abc", U"a;b", dsl::try_(LEXY_LIT("abcabcabc"), dsl::find(LEXY_LIT(";"))) + dsl::position)
GRAMMAR(27, false, U"", U"abc", U"a;\n", dsl::lookahead(LEXY_LIT(";"), dsl::newline) >> dsl::while_(dsl::ascii::alpha) | dsl::else_ >> dsl::any)
GRAMMAR(28, false, U"", U"ab,", U"a;,", dsl::terminator(LEXY_LIT(";")).list(dsl::p<PE>, dsl::sep(dsl::comma)))
GRAMMAR(29, false, U"", U"abc", U"a1", LEXY_KEYWORD("abcabcabca", dsl::identifier(dsl::ascii::alpha)) + dsl::position)
GRAMMAR(30, false, U"", U"abc", U"a\n", dsl::opt(dsl::list(dsl::p<PE>)) + dsl::eol)
GRAMMAR(31, false, U"", U"abcabcab", U"ab\x01", dsl::not_followed_by(LEXY_LIT("abcabcab"), dsl::ascii::digit) + dsl::capture(dsl::any))
// Unicode
GRAMMAR(40, true, U"", U"aä", U"aä€\U0001F600", dsl::opt(dsl::list(dsl::capture(dsl::code_point))) + dsl::eof)
GRAMMAR(41, true, U"\"", U"aä", U"a€\U0001F600\"\\", dsl::quoted(dsl::code_point, dsl::backslash_escape.rule(dsl::lit_c<'x'> >> dsl::code_point_id<2>)) + dsl::position)
GRAMMAR(42, true, U"\"", U"abc", U"aä\x7f\"\U0001F600", dsl::quoted(-dsl::unicode::control) + dsl::position)
GRAMMAR(43, true, U"", U"aä", U"aÄ1 ", dsl::identifier(dsl::unicode::xid_start, dsl::unicode::xid_continue) + dsl::position)
GRAMMAR(44, 2, U"", U"aä€", U"aä€\U0001F600", dsl::lit_cp<'a', 0xE4, 0x20AC, 'a', 0xE4> + dsl::position)
GRAMMAR(45, 2, U"", U"ÄÖa", U"äöAÄ", dsl::unicode::simple_case_folding(dsl::lit_cp<0xE4, 0xF6, 'a', 0xE4, 0xF6>) + dsl::position)
GRAMMAR(46, true, U"", U"aä", U"aä\n\x2028", dsl::capture(dsl::until(dsl::unicode::newline)) + dsl::position)
GRAMMAR(47, true, U"'", U"abc", U"aä'\x80", dsl::single_quoted(dsl::ascii::character) + dsl::position)
GRAMMAR(32, false, U"[", U"xyz", U"xeEnNdD", dsl::delimited(dsl::lit_c<'['>, dsl::ascii::case_folding(LEXY_LIT("end")))(dsl::ascii::character) + dsl::position)
GRAMMAR(33, false, U"'", U"xyz", U"'eExa1", dsl::single_quoted(dsl::ascii::character, dsl::escape(dsl::ascii::case_folding(LEXY_LIT("e"))).capture(dsl::ascii::alpha)) + dsl::position)
GRAMMAR(34, false, U"", U"0123456789abcdef", U"0'gA9", dsl::integer<unsigned long long, dsl::hex>(dsl::digits<dsl::hex>.sep(dsl::digit_sep_tick).no_leading_zero()) + dsl::position)
GRAMMAR(35, false, U"", U"101", U"01_2/", dsl::integer<unsigned>(dsl::digits<dsl::binary>) + dsl::position)
GRAMMAR(36, false, U"", U"176", U"078/", dsl::integer<unsigned long long>(dsl::digits<dsl::octal>.no_leading_zero()) + dsl::position)
GRAMMAR(37, false, U"", U"123", U"09:_", dsl::integer<unsigned long long>(dsl::n_digits<12>.sep(dsl::digit_sep_underscore)) + dsl::position)
GRAMMAR(38, false, U"", U"123", U"09:/_", dsl::digits<> + dsl::position)
GRAMMAR(39, false, U"", U"123", U"1_.", dsl::capture(dsl::digits<>.sep(dsl::digit_sep_underscore)) + dsl::position)
GRAMMAR(48, true, U"\"", U"ab ", U"aä\"\n\x7f", dsl::quoted(dsl::unicode::print) + dsl::position)
GRAMMAR(49, true, U"\"", U"abc", U"aä\"\x1f", dsl::quoted(dsl::unicode::alnum - dsl::lit_c<'b'>) + dsl::position)
GRAMMAR(50, 2, U"", U"aäB", U"aÄbß", dsl::capture(dsl::literal_set(dsl::unicode::simple_case_folding(dsl::lit_cp<'a', 0xE4>), dsl::unicode::simple_case_folding(dsl::lit_cp<'a', 0xE4, 'b', 'a', 0xE4>))) + dsl::position)
GRAMMAR(51, 2, U"", U"aä", U"aä,", dsl::try_(dsl::lit_cp<0xE4, 'a'>, dsl::find(dsl::lit_cp<','>, dsl::lit_cp<0x20AC>)) + dsl::position)
GRAMMAR(52, 2, U"\xFEFF", U"abc", U"a\xFEFF", dsl::opt(dsl::lit_cp<0xFEFF>) + dsl::list(dsl::capture(dsl::code_point)) + dsl::eof)
// whitespace
GRAMMAR(53, false, U"", U" ", U"a \t\n", wp(dsl::ascii::space))
GRAMMAR(54, false, U"", U" ", U"a \t\n", wp(dsl::ascii::blank))
GRAMMAR(55, false, U"", U" ", U"a _\t", wp(dsl::lit_c<'_'>))
GRAMMAR(56, false, U"", U" ", U"a \t\n", wp(dsl::ascii::newline / dsl::lit_c<'\t'>))
GRAMMAR(57, false, U"", U" ", U"a x_", wp(LEXY_LIT(" ")))
GRAMMAR(58, false, U"", U" ", U"a _", wp(LEXY_LIT("  ")))
GRAMMAR(59, false, U"", U" _", U"a _\n", wp(LEXY_LIT(" _") | dsl::ascii::newline))
GRAMMAR(60, false, U"x", U" ", U"a _\t", LEXY_LIT("x") + dsl::whitespace(dsl::ascii::blank) + dsl::whitespace(dsl::lit_c<'_'>) + dsl::position)
GRAMMAR(61, true, U"", U" ", U"a \x2003\x85", wp(dsl::unicode::space))
GRAMMAR(62, true, U"", U" ", U"a \x2003\x0120", wp(dsl::unicode::blank - dsl::lit_c<' '>))
GRAMMAR(63, false, U"", U"_", U"a _\t", wp(dsl::ascii::punct))
// classes in wide encodings: units whose low byte looks right
GRAMMAR(64, true, U"'", U"abc", U"a'\x0161\x010061", dsl::single_quoted(dsl::ascii::alpha) + dsl::position)
GRAMMAR(65, true, U"'", U"ab1", U"a'\x0131\x010061", dsl::single_quoted(dsl::ascii::alnum) + dsl::position)
GRAMMAR(66, true, U"'", U"ab~", U" '\x0120\x01007E", dsl::single_quoted(dsl::ascii::print) + dsl::position)
GRAMMAR(67, true, U"'", U"ab~", U"a'\x0121\x01007E", dsl::single_quoted(dsl::ascii::graph) + dsl::position)
GRAMMAR(68, true, U"'", U"abc", U"a'\x0161\x010061", dsl::single_quoted(dsl::ascii::character) + dsl::position)
GRAMMAR(69, true, U"", U"abc", U"a1\x0161\x010061", dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum) + dsl::position)
GRAMMAR(70, true, U"", U"123", U"1a\x0131\x010031", dsl::integer<unsigned long long>(dsl::digits<>) + dsl::position)
GRAMMAR(71, true, U"", U"abcdefgh", U"ah\x0161\x010061", LEXY_LIT("abcdefgh") + dsl::position)
GRAMMAR(72, true, U"", U"abc", U"a\n\x010A\x01000D", dsl::capture(dsl::until(dsl::newline).or_eof()) + dsl::position)
GRAMMAR(73, true, U"", U"abc", U"a\x0161\x010061", dsl::while_(dsl::ascii::lower) + dsl::opt(dsl::while_one(dsl::ascii::word)) + dsl::position)
GRAMMAR(74, true, U"", U" ", U"a\x0120\x010020", wp(dsl::ascii::space))
// command-line arguments: the iterator in both directions and the separator token
namespace
{
struct AG
{
    static constexpr auto name  = "AG";
    static constexpr auto rule  = dsl::list(dsl::capture(dsl::ascii::alpha) | dsl::capture(dsl::argv_separator)) + dsl::eof;
    static constexpr auto value = val;
};
void argvs()
{
    // all argument vectors of up to 4 arguments of up to 2 characters (up to 3 if there are at most two)
    std::vector<std::vector<std::string>> vs{{}};
    std::vector<std::string>              words{""};
    for (std::size_t i = 0; i < words.size(); ++i)
        if (words[i].size() < 3)
            for (char c : {'a', 'b'})
                words.push_back(words[i] + c);
    std::size_t lvl = 0;
    for (int n = 1; n <= 4; ++n)
    {
        auto end = vs.size();
        for (; lvl < end; ++lvl)
            for (auto& w : words)
                if (w.size() < (n <= 2 ? 4u : n == 3 ? 3u : 2u))
                {
                    auto v = vs[lvl];
                    v.push_back(w);
                    vs.push_back(v);
                }
    }
    for (int argc0 = 0; argc0 < 2; ++argc0)
        for (auto& v : vs)
        {
            if (!argc0 && !v.empty())
                continue; // no program name: no arguments either
            std::string flat;
            for (std::size_t i = 0; i < v.size(); ++i)
                flat += (i ? std::string(1, '\0') : "") + v[i];
            vh::step([&] { std::string d = "argv"; for (auto& w : v) d += " \"" + w + "\""; return d + (argc0 ? "" : " without program name"); },
                     [&] {
                         vh::transitions(flat.size());
                         auto                     a = v;
                         std::string              prog = "prog";
                         std::vector<char*>       av;
                         if (argc0)
                             av.push_back(prog.data());
                         for (auto& w : a)
                             av.push_back(w.data());
                         int argc = int(av.size());
                         av.push_back(nullptr);
                         auto        b = lexy::argv_begin(argc, av.data()), e = lexy::argv_end(argc, av.data());
                         std::string f, r;
                         for (auto it = b; it != e && f.size() < 100; ++it)
                         {
                             if (it == lexy::argv_sentinel{})
                                 return vh::fail("sentinel before the end");
                             f += *it;
                         }
                         if (!(e == lexy::argv_sentinel{}) || !(b == e) != !flat.empty())
                             return vh::fail("end is not the sentinel");
                         for (auto it = e; it != b && r.size() < 100;)
                             r.insert(r.begin(), *--it);
                         // to and fro from every position
                         for (auto it = b; it != e; ++it)
                         {
                             auto k = it;
                             if (--++k != it)
                                 return vh::fail("-- does not undo ++");
                             auto post = it;
                             if (post++ != it || post-- == it || post != it)
                                 return vh::fail("postfix");
                         }
                         vh::traces(1);
                         if (f != flat || r != flat)
                             return vh::fail("forward " + f + " backward " + r);
                         std::string expect = "ok ({";
                         bool        good   = !flat.empty();
                         for (std::size_t i = 0; i < flat.size(); ++i)
                             expect += "<" + std::to_string(i) + "," + std::to_string(i + 1) + ">,;";
                         expect += "},)";
                         lexy::argv_input<> in(argc, av.data());
                         auto               got = run<AG>(in, b);
                         got.resize(got.find("AG{") == std::string::npos ? got.size() : got.find("AG{"));
                         vh::outcome(got);
                         vh::traces(1);
                         if (good ? got != expect : got.substr(0, 5) != "fatal")
                             vh::fail("expected " + expect + " got " + got);
                         if (b != e)
                         {
                             lexy::argv_input<> in2(b, e);
                             auto               g2 = run<AG>(in2, b);
                             if (g2.substr(0, got.size()) != got)
                                 vh::fail("iterators: " + g2);
                         }
                     });
        }
}
[[maybe_unused]] int rargv = parts::add<75>([](auto) { argvs(); });
} // namespace
PARTS_MAIN
