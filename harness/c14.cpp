// C14: delimited text and escapes.
#include "parts.hpp"
#include "rec.hpp"
#include <functional>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;
using uenc::Text;
using uenc::u32;

//=== the model: characters are code points, or single ill-formed units (bit 31 set) ===//
static const u32 RAW = 0x80000000;
template <typename C>
static std::basic_string<C> enc(const Text& t)
{
    std::basic_string<C> r;
    for (auto c : t)
        if (u32(c) & RAW)
            r.push_back(C(u32(c) & ~RAW));
        else
            uenc::put(r, u32(c));
    return r;
}
struct Out
{
    std::vector<std::string> pieces; // what the sink saw
    std::vector<rec::Err>    errs;   // positions are characters
    bool                     closed = false;
    long                     end    = -1; // behind the closing delimiter
};
inline std::string hex(u32 c)
{
    char b[16];
    snprintf(b, sizeof b, "%X ", c);
    return b;
}
struct Esc
{
    Text tok;
    // tries the branches at i; false if none
    std::function<bool(const Text&, size_t& i, Out&)> branch;
};
struct Cfg
{
    Text                                           open;
    std::function<long(const Text&, size_t)>       close; // length or -1
    bool (*cls)(u32);
    const char*                                    cname;
    bool (*limit)(u32) = nullptr;
    const char*        limit_error = "missing delimiter";
    std::vector<Esc>   esc = {};
};
static bool starts(const Text& t, size_t i, const Text& s)
{
    return i <= t.size() && t.compare(i, s.size(), s) == 0;
}
static std::function<long(const Text&, size_t)> lit(Text s)
{
    return [s](const Text& t, size_t i) { return starts(t, i, s) ? long(s.size()) : -1l; };
}
// an ill-formed UTF-8 sequence is one invalid character: the lead unit and the trailing units it asks for
static size_t group(const Text& t, size_t i)
{
    auto u = u32(t[i]);
    if (!(u & RAW) || (u & ~RAW) > 0xFF)
        return 1;
    u &= 0xFF;
    size_t need = u >= 0xC0 && u < 0xE0 ? 1 : u >= 0xE0 && u < 0xF0 ? 2 : u >= 0xF0 && u < 0xF8 ? 3 : 0, n = 1;
    while (n <= need && i + n < t.size() && (u32(t[i + n]) & 0xFFFFFFC0u) == (RAW | 0x80))
        ++n;
    return n;
}
static Out model(const Cfg& c, const Text& t) // t starts behind the opening delimiter
{
    Out         o;
    size_t      i = 0;
    std::string cur;
    auto        flush = [&] {
        if (!cur.empty())
            o.pieces.push_back("L " + cur);
        cur.clear();
    };
    while (true)
    {
        if (auto n = c.close(t, i); n >= 0)
        {
            flush();
            o.closed = true;
            o.end    = long(i) + n;
            return o;
        }
        if (i == t.size() || (c.limit && !(u32(t[i]) & RAW) && c.limit(u32(t[i]))))
        {
            flush();
            o.errs.push_back({c.limit_error, 0, long(i), -1, ""});
            return o;
        }
        bool esc = false;
        for (auto& e : c.esc)
            if (starts(t, i, e.tok))
            {
                flush();
                auto begin = i;
                i += e.tok.size();
                if (!e.branch(t, i, o))
                    o.errs.push_back({"invalid escape sequence", long(begin), long(i), -1, ""});
                esc = true;
                break;
            }
        if (esc)
            continue;
        if (!(u32(t[i]) & RAW) && c.cls(u32(t[i])))
            cur += hex(u32(t[i])), ++i;
        else
        {
            flush();
            o.errs.push_back({"expected char class", long(i), long(i), -1, c.cname});
            i += group(t, i);
        }
    }
}
//=== observing ===//
inline std::vector<std::string>& seen()
{
    static std::vector<std::string> v;
    return v;
}
// decodes a (well-formed) lexeme into code points
template <typename It>
inline std::string decode(It b, It e)
{
    using C = std::decay_t<decltype(*b)>;
    std::string r;
    while (b != e)
    {
        u32 u = u32(std::make_unsigned_t<C>(*b++));
        if constexpr (sizeof(C) == 1)
        {
            int more = u < 0x80 ? 0 : u < 0xE0 ? 1 : u < 0xF0 ? 2 : 3;
            u        = more == 0 ? u : more == 1 ? u & 0x1F : more == 2 ? u & 0xF : u & 7;
            while (more-- && b != e)
                u = u << 6 | (u32(std::make_unsigned_t<C>(*b++)) & 0x3F);
        }
        else if constexpr (sizeof(C) == 2)
            if (u >= 0xD800 && u < 0xDC00 && b != e)
                u = 0x10000 + ((u - 0xD800) << 10) + (u32(*b++) - 0xDC00);
        r += hex(u);
    }
    return r;
}
struct Sink
{
    struct S
    {
        using return_type = int;
        template <typename R>
        void operator()(lexy::lexeme<R> l)
        {
            seen().push_back("L " + decode(l.begin(), l.end()));
        }
        void operator()(lexy::code_point c)
        {
            seen().push_back("U " + hex(c.value()));
        }
        void operator()(int c)
        {
            seen().push_back("S " + hex(u32(c)));
        }
        void operator()(lexy::nullopt)
        {
            seen().push_back("N");
        }
        int finish() &&
        {
            return 77;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
template <typename R, bool Branch>
struct P
{
    static constexpr auto rule = [] {
        if constexpr (Branch)
            return dsl::lit_c<'^'> + dsl::opt(R{}) + dsl::position;
        else
            return dsl::lit_c<'^'> + R{} + dsl::position;
    }();
    static constexpr auto value = Sink{} >> lexy::callback<long>([](lexy::nullopt, auto) { return -2l; }, [](int i, auto pos) { return i == 77 ? rec::at(pos) : -9; });
};
template <typename R>
struct W : P<R, false>
{
    static constexpr auto whitespace = dsl::ascii::space;
};
template <typename Prod, typename Enc, typename C>
static long run(const std::basic_string<C>& full, size_t skip, bool buffer)
{
    seen().clear();
    auto go = [&](auto&& in, const C* p) {
        rec::start(p + skip);
        auto r = lexy::parse<Prod>(in, rec::Cb{});
        return r.has_value() ? r.value() : -1l;
    };
    vh::traces(1);
    if (buffer)
    {
        auto b = lexy::buffer<Enc>(full.data(), full.size());
        return go(b, b.data());
    }
    return go(lexy::string_input<Enc>(full.data(), full.size()), full.data());
}
static std::string join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
        r += "|" + s;
    return r;
}
static std::string show(const Text& t)
{
    std::string r;
    for (auto c : t)
        r += u32(c) & RAW ? "<" + hex(u32(c) & ~RAW) + ">" : uenc::show(Text(1, c)).substr(1, uenc::show(Text(1, c)).size() - 2);
    return r;
}
template <typename R, typename Enc>
static bool check(const Cfg& c, const Text& body, bool buffer, const char* what)
{
    using C   = typename Enc::char_type;
    auto m    = model(c, body);
    auto pre  = enc<C>(Text(U"^") + c.open);
    auto full = pre + enc<C>(body);
    auto at   = [&](long i) { return i < 0 ? i : long(enc<C>(body.substr(0, size_t(i))).size()); };
    for (auto& e : m.errs)
        e.begin = at(e.begin), e.end = at(e.end);
    long want = m.closed ? at(m.end) : -1;
    long got  = run<P<R, false>, Enc>(full, pre.size(), buffer);
    auto bad  = [&](const char* how, long end) {
        vh::fail(std::string(what) + how + (buffer ? " buffer " : " string ") + show(body) + ": expected " + join(m.pieces) + rec::show(m.errs) + " end " + std::to_string(end) + ", got " + join(seen())
                  + rec::show(rec::errs()) + " end " + std::to_string(got));
        return false;
    };
    if (got != want || !(rec::errs() == m.errs) || seen() != m.pieces)
        return bad("", want);
    got = run<P<R, true>, Enc>(full, pre.size(), buffer);
    if (got != want || !(rec::errs() == m.errs) || seen() != m.pieces)
        return bad(" branch", want);
    return true;
}
template <typename R>
static bool everywhere(const Cfg& c, const Text& t, bool unicode_only)
{
    // without ill-formed units every encoding sees the same
    bool raw = false, ascii = true;
    for (auto x : t)
        raw = raw || (u32(x) & RAW), ascii = ascii && u32(x) < 128;
    auto& u8 = t;
    return check<R, lexy::utf8_char_encoding>(c, u8, false, "utf8_char") && check<R, lexy::utf8_char_encoding>(c, u8, true, "utf8_char")
           && (raw || (check<R, lexy::utf16_encoding>(c, t, true, "utf16") && check<R, lexy::utf32_encoding>(c, t, true, "utf32")));
}
template <typename R>
static void config(std::string name, const Cfg& c, const Text& alphabet, int len, const Text& fill, const Text& special)
{
    vh::step([&] { return name + " on all strings"; }, [&] {
        bool go = true;
        uenc::all(alphabet, vh::thorough() ? len + 1 : len, [&](const Text& t) { go = go && everywhere<R>(c, t, false); });
        vh::transitions(1000);
        vh::outcome(name);
    });
    vh::step([&] { return name + " on long texts"; }, [&] {
        for (size_t n = 0; n <= 26; ++n)
            for (size_t at = 0; at <= n; ++at)
                for (size_t k = 0; k < special.size(); ++k)
                    for (int two = 0; two < 3; ++two)
                    {
                        Text t(n, fill[0]);
                        Text s(1, special[k]);
                        if (two == 1)
                            s += special[(k + 1) % special.size()];
                        if (two == 2)
                            s += fill.substr(fill.size() - 1) + special[(k * 3 + 1) % special.size()];
                        t.insert(at, s);
                        if (!check<R, lexy::utf8_char_encoding>(c, t, true, "utf8_char"))
                            return;
                        bool raw = false;
                        for (auto x : t)
                            raw = raw || (u32(x) & RAW);
                        if (!raw && n % 3 == 0 && (!check<R, lexy::utf32_encoding>(c, t, true, "utf32") || !check<R, lexy::utf8_encoding>(c, t, true, "utf8")))
                            return;
                    }
        // around the powers of two
        for (size_t n : {31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 511u, 512u, 1025u, 20000u, 65536u})
        {
            vh::beat();
            for (size_t at : {size_t(0), size_t(1), n / 2, size_t(255), size_t(256), n - 2, n - 1, n})
                for (size_t k = 0; k < special.size(); ++k)
                {
                    if (at > n || (n > 2000 && (at != n - 1 || k > 2)))
                        continue;
                    Text t(n, fill[0]);
                    t.insert(at, Text(1, special[k]) + special[(k + 1) % special.size()]);
                    t += special[0];
                    if (!check<R, lexy::utf8_char_encoding>(c, t, true, "utf8_char") || (n < 2000 && k % 2 && !check<R, lexy::utf8_char_encoding>(c, t, false, "utf8_char")))
                        return;
                }
        }
        // many pieces
        for (size_t n : {63u, 64u, 65u, 255u, 256u, 257u, 1000u, 3000u})
            for (size_t k = 0; k < special.size(); ++k)
            {
                Text t;
                for (size_t i = 0; i < n; ++i)
                    t += Text(1, special[(k + (i % 3 ? 1 : 0)) % special.size()]) + fill.substr(i % fill.size(), 1);
                vh::beat();
                if (!check<R, lexy::utf8_char_encoding>(c, t, true, "utf8_char"))
                    return;
            }
        vh::transitions(3000);
        vh::outcome(name + "long");
    });
    // broken sequences of more than one unit
    vh::step([&] { return name + " on broken multi-unit sequences"; }, [&] {
        auto r8 = [](int x) { return char32_t(RAW | u32(x)); };
        Text units{alphabet[0], alphabet[1], r8(0xC3), r8(0xE2), r8(0x82), r8(0xED), r8(0xF0), r8(0xA0)};
        bool go = true;
        long n  = 0;
        uenc::all(units, vh::thorough() ? 5 : 4, [&](const Text& t0) {
            if (!go)
                return;
            // those that happen to be well-formed are characters
            Text t;
            for (size_t i = 0; i < t0.size(); )
            {
                auto k = group(t0, i);
                auto f = u32(t0[i]) & 0xFF;
                auto p = [&](size_t j) { return u32(t0[i + j]) & 0x3F; };
                bool raw = u32(t0[i]) & RAW;
                if (raw && f >= 0xC2 && f < 0xE0 && k == 2)
                    t += char32_t((f & 0x1F) << 6 | p(1));
                else if (raw && f >= 0xE0 && f < 0xF0 && k == 3 && !(f == 0xE0 && p(1) < 0x20) && !(f == 0xED && p(1) >= 0x20))
                    t += char32_t((f & 0xF) << 12 | p(1) << 6 | p(2));
                else if (raw && f == 0xF0 && k == 4 && p(1) >= 0x10)
                    t += char32_t(p(1) << 12 | p(2) << 6 | p(3));
                else
                    t += t0.substr(i, k);
                i += k;
            }
            n += 2;
            go = check<R, lexy::utf8_char_encoding>(c, t, true, "broken utf8_char") && check<R, lexy::utf8_char_encoding>(c, t, false, "broken utf8_char");
        });
        Text u16{alphabet[0], alphabet[1], r8(0xD83D), r8(0xDE42)};
        uenc::all(u16, 5, [&](const Text& t0) {
            if (!go)
                return;
            Text t;
            for (size_t i = 0; i < t0.size(); ++i)
                if (i + 1 < t0.size() && t0[i] == u16[2] && t0[i + 1] == u16[3])
                    t += U'\U0001f642', ++i;
                else
                    t += t0[i];
            n += 1;
            go = check<R, lexy::utf16_encoding>(c, t, true, "broken utf16");
        });
        Text u32s{alphabet[0], alphabet[1], r8(0xD83D), r8(0xDE42), r8(0x110000)};
        uenc::all(u32s, 4, [&](const Text& t) {
            n += 1;
            go = go && check<R, lexy::utf32_encoding>(c, t, true, "broken utf32");
        });
        vh::transitions(n);
        vh::outcome(name + "broken");
    });
    // whitespace is content inside and only skipped behind the closing delimiter
    vh::step([&] { return name + " with whitespace"; }, [&] {
        bool go = true;
        uenc::all(Text(U" ") + alphabet.substr(0, 4), vh::thorough() ? 5 : 4, [&](const Text& t) {
            if (!go)
                return;
            for (auto x : t)
                if (u32(x) & RAW)
                    return;
            auto m    = model(c, t);
            auto pre  = enc<char>(Text(U"^ ") + c.open);
            auto full = pre + enc<char>(t);
            auto at   = [&](long i) { return i < 0 ? i : long(enc<char>(t.substr(0, size_t(i))).size()); };
            auto e    = m.end;
            while (m.closed && e < long(t.size()) && (t[size_t(e)] == ' ' || (t[size_t(e)] >= 9 && t[size_t(e)] <= 13)))
                ++e;
            for (auto& x : m.errs)
                x.begin = at(x.begin), x.end = at(x.end);
            long got = run<W<R>, lexy::utf8_char_encoding>(full, pre.size(), true);
            if (got != (m.closed ? at(e) : -1) || !(rec::errs() == m.errs) || seen() != m.pieces)
                go = false, vh::fail("whitespace: " + show(t) + " got " + join(seen()) + rec::show(rec::errs()) + std::to_string(got) + " expected " + join(m.pieces) + rec::show(m.errs));
        });
        vh::transitions(300);
    });
}
// not opened
template <typename R>
static void unopened(std::string name, const Text& open, const Text& alphabet)
{
    vh::step([&] { return name + " without opening delimiter"; }, [&] {
        uenc::all(alphabet, 3, [&](const Text& t) {
            if (starts(t, 0, open))
                return;
            for (auto x : t)
                if (u32(x) & RAW)
                    return;
            auto full = enc<char>(Text(U"^") + t);
            long got  = run<P<R, true>, lexy::utf8_char_encoding>(full, 1, true);
            if (got != -2 || !rec::errs().empty() || !seen().empty())
                vh::fail("taken without opening delimiter: " + show(t));
            got = run<P<R, false>, lexy::utf8_char_encoding>(full, 1, true);
            if (got != -1 || rec::errs().size() != 1 || rec::errs()[0].kind != "expected literal" || rec::errs()[0].begin != 0)
                vh::fail("no error without opening delimiter: " + show(t));
        });
    });
}
#define CONFIG(ID, EXPR, ALPHA, LEN, FILL, SPECIAL, ...)                                           \
    static int g##ID = parts::add<ID>([](auto) {                                                   \
        using R = std::decay_t<decltype(EXPR)>;                                                    \
        Cfg c   = __VA_ARGS__;                                                                     \
        config<R>(#EXPR, c, ALPHA, LEN, FILL, SPECIAL);                                            \
        unopened<R>(#EXPR, c.open, Text(ALPHA) + c.open.substr(0, 1));                             \
    });
// classes
static bool ascii_(u32 c)
{
    return c < 128;
}
static bool print(u32 c)
{
    return c >= 32 && c < 127;
}
static bool lower(u32 c)
{
    return c >= 'a' && c <= 'z';
}
static bool no_control(u32 c)
{
    return !(c < 32 || c == 127);
}
static bool newline(u32 c)
{
    return c == '\n' || c == '\r';
}
static bool no_newline(u32 c)
{
    return !newline(c);
}
static bool any(u32)
{
    return true;
}
static bool ab(u32 c)
{
    return c == 'a' || c == 'b';
}
static bool space_or_lower(u32 c)
{
    return lower(c) || c == ' ';
}
// escapes
static constexpr auto tab = lexy::symbol_table<int>.map<'n'>('\n').map<'"'>('"').map<'\\'>('\\').map<LEXY_SYMBOL("nm")>(1);
static bool           sym(const Text& t, size_t& i, Out& o)
{
    if (starts(t, i, U"nm"))
        return o.pieces.push_back("S " + hex(1)), i += 2, true;
    if (i < t.size() && (t[i] == 'n' || t[i] == '"' || t[i] == '\\'))
        return o.pieces.push_back("S " + hex(t[i] == 'n' ? '\n' : u32(t[i]))), ++i, true;
    return false;
}
static bool cap_ascii(const Text& t, size_t& i, Out& o)
{
    if (i < t.size() && u32(t[i]) < 128)
        return o.pieces.push_back("L " + hex(u32(t[i]))), ++i, true;
    return false;
}
// u followed by exactly four (two) hex digits
static bool uid(const Text& t, size_t& i, Out& o, char lead, int n)
{
    if (i >= t.size() || t[i] != char32_t(lead))
        return false;
    ++i;
    u32  v = 0;
    auto b = i;
    while (int(i - b) < n && i < t.size() && u32(t[i]) < 128 && isxdigit(int(t[i])))
    {
        v = v * 16 + u32(t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
        ++i;
    }
    if (int(i - b) < n)
    {
        o.errs.push_back({"expected char class", long(i), long(i), -1, "digit.hex"});
        if (i == b)
            return true;
    }
    o.pieces.push_back("U " + hex(v));
    return true;
}
constexpr auto bs_sym = dsl::backslash_escape.symbol<tab>();
constexpr auto bs_u   = dsl::backslash_escape.symbol<tab>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>);
struct my_limit
{
    static constexpr auto name = "my limit";
};
#define RAWS char32_t(RAW | 0xFE), char32_t(RAW | 0x80)
static Text with_raw(Text t)
{
    t += Text{char32_t(RAW | 0xFE), char32_t(RAW | 0x80)};
    return t;
}
CONFIG(0, dsl::quoted(dsl::ascii::character), with_raw(U"a\"\u00e4\U0001f642"), 4, U"a", with_raw(Text(U"\"\0~\u00e4\u07ff\uffff", 6)), {U"\"", lit(U"\""), ascii_, "ASCII"})
CONFIG(1, dsl::quoted(dsl::ascii::print, bs_sym), U"a\"\\n\t", 5, U"a", with_raw(Text(U"\"\\\tn\0\x7f~\u00e4", 8)), {U"\"", lit(U"\""), print, "ASCII.print", nullptr, "missing delimiter", {{U"\\", sym}}})
CONFIG(2, dsl::quoted(-dsl::ascii::control, bs_u), with_raw(U"a\"\\u0"), 5, U"a", with_raw(U"\"\\u1\t\u00e4\U0001f642"),
       {U"\"", lit(U"\""), no_control, "complement", nullptr, "missing delimiter", {{U"\\", [](const Text& t, size_t& i, Out& o) { return sym(t, i, o) || uid(t, i, o, 'u', 4); }}}})
CONFIG(3, dsl::triple_quoted(dsl::ascii::character), U"a\"\u00e4", 7, U"a", with_raw(U"\"\u00e4"), {U"\"\"\"", lit(U"\"\"\""), ascii_, "ASCII"})
CONFIG(4, (dsl::delimited(LEXY_LIT("(("), LEXY_LIT("))"))(dsl::ascii::lower)), U"a(){", 6, U"a", with_raw(U")({`zA\x7f\u00e4"), {U"((", lit(U"))"), lower, "ASCII.lower"})
CONFIG(5, (dsl::single_quoted.limit(dsl::ascii::newline)(-dsl::ascii::newline)), with_raw(U"a'\n\u00e4"), 5, U"a", with_raw(U"'\n\r\u00e4"), {U"'", lit(U"'"), no_newline, "complement", newline})
CONFIG(6, (dsl::single_quoted.limit<my_limit>(dsl::ascii::newline)(dsl::ascii::print, bs_sym)), U"a'\n\\", 5, U"a", with_raw(U"'\n\r\u00e4\\n"),
       {U"'", lit(U"'"), print, "ASCII.print", newline, "my limit", {{U"\\", sym}}})
CONFIG(7, (dsl::delimited(LEXY_LIT("<"), dsl::ascii::case_folding(LEXY_LIT("end")))(dsl::ascii::character)), U"eEnNd", 5, U"a", with_raw(U"eEnd"),
       {U"<",
        [](const Text& t, size_t i) {
            return i + 3 <= t.size() && (t[i] | 32) == 'e' && (t[i + 1] | 32) == 'n' && (t[i + 2] | 32) == 'd' ? 3l : -1l;
        },
        ascii_, "ASCII"})
CONFIG(8, (dsl::quoted(dsl::ascii::print, dsl::backslash_escape.capture(dsl::ascii::character), dsl::dollar_escape.symbol<tab>())), U"a\"\\$n", 5, U"a", with_raw(U"\"\\$n\t"),
       {U"\"", lit(U"\""), print, "ASCII.print", nullptr, "missing delimiter", {{U"\\", cap_ascii}, {U"$", sym}}})
CONFIG(9, (dsl::quoted(-dsl::unicode::control)), with_raw(U"a\"\u0080\u00e4\t"), 4, U"\u00e4", with_raw(U"\"\u0080\u009f\u00a0\t\U0010ffff"),
       {U"\"", lit(U"\""), [](u32 c) { return !(c < 32 || (c >= 127 && c < 160)); }, "code-point.non-control"})
CONFIG(10, (dsl::backticked(dsl::ascii::character)), U"a`\u00e4", 5, U"a", with_raw(U"`\u00e4"), {U"`", lit(U"`"), ascii_, "ASCII"})
CONFIG(11, (dsl::double_backticked(dsl::ascii::character)), U"a`\u00e4", 6, U"a", with_raw(U"`\u00e4"), {U"``", lit(U"``"), ascii_, "ASCII"})
CONFIG(12, (dsl::triple_backticked(dsl::ascii::print)), U"a`\t", 7, U"a", with_raw(U"`\t"), {U"```", lit(U"```"), print, "ASCII.print"})
CONFIG(13, (dsl::quoted(dsl::ascii::print, dsl::escape(LEXY_LIT("$$")).symbol<tab>())), U"a\"$n", 6, U"a", with_raw(U"\"$n"),
       {U"\"", lit(U"\""), print, "ASCII.print", nullptr, "missing delimiter", {{U"$$", sym}}})
CONFIG(14, (dsl::quoted(dsl::ascii::print, dsl::backslash_escape.symbol<tab>().rule(dsl::else_ >> dsl::nullopt))), U"a\"\\n", 6, U"a", with_raw(U"\"\\n"),
       {U"\"", lit(U"\""), print, "ASCII.print", nullptr, "missing delimiter",
        {{U"\\",
          [](const Text& t, size_t& i, Out& o) {
              if (!sym(t, i, o))
                  o.pieces.push_back("N");
              return true;
          }}}})
CONFIG(15, (dsl::delimited(LEXY_LIT("#"), dsl::eol)(dsl::ascii::print)), U"a\n\r#", 6, U"a", with_raw(U"\n\r\t"),
       {U"#",
        [](const Text& t, size_t i) {
            return i == t.size() ? 0l : starts(t, i, U"\r\n") ? 2l : t[i] == '\n' ? 1l : -1l;
        },
        print, "ASCII.print"})
CONFIG(16, (dsl::delimited(dsl::lit_cp<0xAB>, dsl::lit_cp<0xBB>)(dsl::unicode::character)), with_raw(U"a\u00ab\u00bb\u20ac"), 4, U"a", with_raw(U"\u00bb\u00ba\u00fb\u00ab\U0001f642"),
       {U"\u00ab", lit(U"\u00bb"), any, "code-point.character"})
CONFIG(17, (dsl::quoted(LEXY_ASCII_ONE_OF("ab"), bs_sym)), U"ab\"\\c", 5, U"a", with_raw(U"\"\\cn"), {U"\"", lit(U"\""), ab, "ab", nullptr, "missing delimiter", {{U"\\", sym}}})
CONFIG(18, (dsl::quoted(dsl::ascii::lower / dsl::lit_c<' '>)), U"a\" A", 5, U"a", with_raw(U"\" A{`@"), {U"\"", lit(U"\""), space_or_lower, "union"})
CONFIG(19, (dsl::quoted(dsl::ascii::print, dsl::escape(dsl::ascii::case_folding(LEXY_LIT("x"))).rule(LEXY_LIT("u") >> dsl::code_point_id<2>))), U"a\"xXu", 5, U"a", with_raw(U"\"xXu1"),
       {U"\"", lit(U"\""), print, "ASCII.print", nullptr, "missing delimiter",
        {{U"x", [](const Text& t, size_t& i, Out& o) { return uid(t, i, o, 'u', 2); }}, {U"X", [](const Text& t, size_t& i, Out& o) { return uid(t, i, o, 'u', 2); }}}})
CONFIG(20, (dsl::quoted(dsl::ascii::character, dsl::backslash_escape.symbol<tab>(dsl::ascii::print))), U"a\"\\nm", 5, U"a", with_raw(U"\"\\nm"),
       {U"\"", lit(U"\""), ascii_, "ASCII", nullptr, "missing delimiter",
        {{U"\\", [](const Text& t, size_t& i, Out& o) { return !starts(t, i, U"nm") ? sym(t, i, o) : (o.pieces.push_back("S " + hex('\n')), ++i, true); }}}})
CONFIG(21, (dsl::quoted(dsl::code_point)), with_raw(U"a\"\u00e4\U0001f642"), 4, U"a", with_raw(Text(U"\"\0\u00e4\u07ff\U0001f642", 5)), {U"\"", lit(U"\""), any, "code-point"})
CONFIG(22, (dsl::delimited(LEXY_LIT("/*"), LEXY_LIT("*/"))(dsl::ascii::character)), U"a*/\u00e4", 6, U"a", with_raw(U"*/\u00e4"), {U"/*", lit(U"*/"), ascii_, "ASCII"})
CONFIG(23, (dsl::quoted.limit(dsl::lit_c<';'> / dsl::ascii::newline)(dsl::ascii::alpha_digit, bs_u)), U"a\";\\u", 5, U"a", with_raw(U"\";\\u1\n"),
       {U"\"", lit(U"\""), [](u32 c) { return c < 128 && isalnum(int(c)); }, "ASCII.alpha-digit", [](u32 c) { return c == ';' || newline(c); }, "missing delimiter",
        {{U"\\", [](const Text& t, size_t& i, Out& o) { return sym(t, i, o) || uid(t, i, o, 'u', 4); }}}})

// strings: the content of a quoted string as std::string, with code point escapes encoded
struct Str
{
    static constexpr auto rule  = dsl::quoted(-dsl::ascii::control, dsl::backslash_escape.symbol<tab>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>).rule(dsl::lit_c<'U'> >> dsl::code_point_id<8>));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding>;
};
static int h0 = parts::add<40>([](auto) {
    vh::step([] { return "quoted strings with escapes as std::string"; }, [] {
        Text parts[] = {U"a", U"\u00e4", U"\\n", U"\\\\", U"\\\"", U"\\u00e4", U"\\u20AC", U"\\U0001F642", U"\\u0041", U" "};
        Text vals[]  = {U"a", U"\u00e4", U"\n", U"\\", U"\"", U"\u00e4", U"\u20ac", U"\U0001f642", U"A", U" "};
        for (int n = 0; n <= (vh::thorough() ? 5 : 4); ++n)
        {
            long m = 1;
            for (int i = 0; i < n; ++i)
                m *= 10;
            for (long k = 0; k < m; ++k)
            {
                Text src = U"\"", want;
                for (long x = k, i = 0; i < n; ++i, x /= 10)
                    src += parts[x % 10], want += vals[x % 10];
                src += U"\"";
                auto s = enc<char>(src);
                auto b = lexy::buffer<lexy::utf8_char_encoding>(s.data(), s.size());
                rec::start(b.data());
                auto r = lexy::parse<Str>(b, rec::Cb{});
                vh::traces(1);
                if (!r.is_success() || r.value() != enc<char>(want))
                    return vh::fail("string " + show(src) + " gives " + (r.has_value() ? r.value() : "nothing"));
            }
            vh::transitions(m);
        }
        vh::outcome("strings");
    });
});
PARTS_MAIN
