// C13: digits, integers, signs, code point and code unit ids.
#include "parts.hpp"
#include "rec.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <limits>
namespace dsl = lexy::dsl;
using uenc::Text;
using uenc::u32;
using u128 = unsigned __int128;

//=== the model ===//
struct Base
{
    const char* name;
    const char* lower; // digit characters by value
    const char* upper;
    int         radix;
};
static const Base bases[] = {
    {"digit.binary", "01", "01", 2},
    {"digit.octal", "01234567", "01234567", 8},
    {"digit.decimal", "0123456789", "0123456789", 10},
    {"digit.hex-lower", "0123456789abcdef", "0123456789abcdef", 16},
    {"digit.hex-upper", "0123456789ABCDEF", "0123456789ABCDEF", 16},
    {"digit.hex", "0123456789abcdef", "0123456789ABCDEF", 16},
};
static int dval(const Base& b, u32 c)
{
    for (int i = 0; i < b.radix; ++i)
        if (c == u32(b.lower[i]) || c == u32(b.upper[i]))
            return i;
    return -1;
}
struct Form
{
    int  n   = 0; // exactly n digits, 0: any number
    Text sep = {};
    bool nlz = false;
};
struct Tok
{
    bool   ok   = false;
    size_t end  = 0;         // end of the token, or where the rule stopped
    int    kind = 0;         // 0 ok, 1 expected digit at end, 2 forbidden leading zero
};
static Tok digits(const Base& b, const Form& f, const Text& t)
{
    auto   dig = [&](size_t i) { return i < t.size() && dval(b, u32(t[i])) >= 0; };
    auto   sep = [&](size_t i) { return !f.sep.empty() && t.compare(i, f.sep.size(), f.sep) == 0; };
    size_t i   = 0;
    if (!dig(0))
        return {false, 0, 1};
    i = 1;
    if (f.n)
    {
        for (int k = 1; k < f.n; ++k)
        {
            if (i <= t.size() && sep(i))
                i += f.sep.size();
            if (!dig(i))
                return {false, i, 1};
            ++i;
        }
        return {true, i, 0};
    }
    while (true)
    {
        if (i <= t.size() && sep(i))
        {
            i += f.sep.size();
            if (!dig(i))
                return {false, i, 1};
            ++i;
        }
        else if (dig(i))
            ++i;
        else
            break;
    }
    if (f.nlz && t[0] == '0' && i > 1)
        return {false, 1, 2};
    return {true, i, 0};
}

//=== C++ rules ===//
template <int B>
using base_t = std::conditional_t<B == 0, dsl::binary, std::conditional_t<B == 1, dsl::octal, std::conditional_t<B == 2, dsl::decimal, std::conditional_t<B == 3, dsl::hex_lower, std::conditional_t<B == 4, dsl::hex_upper, dsl::hex>>>>>;
// forms: 0 plain, 1 sep _, 2 no leading zero, 3 both, 4 both in the other order, 5 sep ', 6 sep of two characters, 10+n n_digits, 100+n n_digits with separator
template <int B, int F>
static constexpr auto rule()
{
    using base = base_t<B>;
    if constexpr (F == 0)
        return dsl::digits<base>;
    else if constexpr (F == 1)
        return dsl::digits<base>.sep(dsl::digit_sep_underscore);
    else if constexpr (F == 2)
        return dsl::digits<base>.no_leading_zero();
    else if constexpr (F == 3)
        return dsl::digits<base>.sep(dsl::digit_sep_underscore).no_leading_zero();
    else if constexpr (F == 4)
        return dsl::digits<base>.no_leading_zero().sep(dsl::digit_sep_underscore);
    else if constexpr (F == 5)
        return dsl::digits<base>.sep(dsl::digit_sep_tick);
    else if constexpr (F == 6)
        return dsl::digits<base>.sep(LEXY_LIT("_x"));
    else if constexpr (F < 100)
        return dsl::n_digits<F - 10, base>;
    else
        return dsl::n_digits<F - 100, base>.sep(dsl::digit_sep_underscore);
}
static Form form(int f)
{
    switch (f)
    {
    case 0: return {};
    case 1: return {0, U"_"};
    case 2: return {0, U"", true};
    case 3:
    case 4: return {0, U"_", true};
    case 5: return {0, U"'"};
    case 6: return {0, U"_x"};
    default: return f < 100 ? Form{f - 10} : Form{f - 100, U"_"};
    }
}
template <typename V>
inline V& last()
{
    static V v;
    return v;
}
template <typename R>
struct P
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::capture(R{}) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](auto l, auto pos) { return l.end() == pos ? long(l.size()) : -9; });
};
template <typename R>
struct PB
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::opt(dsl::capture(R{})) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](lexy::nullopt, auto) { return -1l; }, [](auto l, auto pos) { return l.end() == pos ? long(l.size()) : -9; });
};
template <typename R, typename V>
struct I
{
    static constexpr auto rule  = dsl::lit_c<'^'> + R{} + dsl::position;
    static constexpr auto value = lexy::callback<long>([](V v, auto pos) { return last<V>() = v, rec::at(pos); });
};
template <typename R, typename V>
struct IB
{
    static constexpr auto rule  = dsl::lit_c<'^'> + dsl::opt(R{}) + dsl::position;
    static constexpr auto value = lexy::callback<long>([](lexy::nullopt, auto) { return -1l; }, [](V v, auto pos) { return last<V>() = v, rec::at(pos); });
};
template <typename Enc, typename F>
static auto with(const Text& t, bool buffer, F f)
{
    using C   = typename Enc::char_type;
    auto full = std::basic_string<C>(1, C('^')) + uenc::to<C>(t);
    if (buffer)
    {
        auto b = lexy::buffer<Enc>(full.data(), full.size());
        rec::start(b.data() + 1);
        return f(b);
    }
    rec::start(full.data() + 1);
    return f(lexy::string_input<Enc>(full.data(), full.size()));
}
// the token rule
template <typename R, typename Enc>
static bool token(const Base& b, const Form& f, const Text& t, bool buffer, const char* what)
{
    auto m    = digits(b, f, t);
    long want = m.ok ? long(m.end) : -1;
    long got  = with<Enc>(t, buffer, [&](auto&& in) {
        auto r = lexy::parse<P<R>>(in, rec::Cb{});
        return r.has_value() ? r.value() : -1l;
    });
    auto e    = rec::errs();
    long br   = with<Enc>(t, buffer, [&](auto&& in) {
        auto r = lexy::parse<PB<R>>(in, rec::Cb{});
        return r.has_value() ? r.value() : -7l;
    });
    vh::traces(2);
    std::vector<rec::Err> ee;
    if (m.kind == 1)
        ee = {{"expected char class", long(m.end), long(m.end), -1, b.name}};
    else if (m.kind == 2)
        ee = {{"forbidden leading zero", 0, 1, -1, ""}};
    if (got != want || br != want || !(e == ee) || !rec::errs().empty())
    {
        vh::fail(std::string(what) + (buffer ? " buffer " : " string ") + uenc::show(t) + ": expected " + std::to_string(want) + rec::show(ee) + ", got " + std::to_string(got) + "/"
                 + std::to_string(br) + rec::show(e) + rec::show(rec::errs()));
        return false;
    }
    return true;
}
template <typename R>
static bool everywhere(const Base& b, const Form& f, const Text& t)
{
    return token<R, lexy::utf8_char_encoding>(b, f, t, false, "utf8_char") && token<R, lexy::utf8_char_encoding>(b, f, t, true, "utf8_char")
           && token<R, lexy::utf8_encoding>(b, f, t, true, "utf8") && token<R, lexy::utf32_encoding>(b, f, t, true, "utf32");
}
static Text alphabet(const Base& b)
{
    Text t = U"01_";
    t += char32_t(b.lower[b.radix - 1]);
    t += b.radix == 16 ? U'F' : char32_t('0' + b.radix);
    if (b.radix == 16)
        t += U'g';
    return t;
}
template <int B, int F>
static void token_form()
{
    using R = std::decay_t<decltype(rule<B, F>())>;
    vh::step([&] { return std::string(bases[B].name) + " form " + std::to_string(F); }, [&] {
        bool go = true;
        auto al = alphabet(bases[B]);
        if (F == 5)
            al += U'\'';
        if (F == 6)
            al += U'x';
        uenc::all(al, vh::thorough() ? 6 : 4, [&](const Text& t) { go = go && everywhere<R>(bases[B], form(F), t); });
        vh::transitions(1000);
        vh::outcome("form" + std::to_string(B) + "/" + std::to_string(F));
    });
    vh::step([&] { return std::string(bases[B].name) + " runs, form " + std::to_string(F); }, [&] {
        auto& b = bases[B];
        Text  dev;
        for (u32 c = 0; c < 128; ++c)
            dev += char32_t(c);
        for (u32 c : {0x80u, 0xB0u, 0x130u, 0x1030u, 0x10030u, 0x10FFFFu})
            dev += char32_t(c);
        for (size_t n = 1; n <= 19; n += vh::thorough() ? 1 : 3)
            for (size_t at = 0; at <= n; ++at)
                for (auto c : dev)
                    for (int shape = 0; shape < 2; ++shape)
                    {
                        Text t;
                        for (size_t i = 0; i < n; ++i)
                            t += shape ? char32_t(b.lower[(i * 7 + 1) % size_t(b.radix)]) : U'1';
                        if (at < n)
                            t[at] = c;
                        else
                            t += c;
                        if (!token<R, lexy::utf8_char_encoding>(b, form(F), t, true, "utf8_char") || (n % 2 && !token<R, lexy::utf32_encoding>(b, form(F), t, true, "utf32")))
                            return;
                    }
        for (size_t n : {31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 300u, 1025u, 65536u})
        {
            vh::beat();
            for (size_t at : {size_t(0), size_t(1), size_t(7), size_t(8), n / 2, n - 9, n - 2, n - 1, n})
                for (auto c : Text(U"0_'x:/g ") + char32_t(b.lower[b.radix - 1]) + char32_t(b.lower[b.radix - 1] + 1))
                {
                    Text t(n, U'1');
                    if (at < n)
                        t[at] = c;
                    else
                        t += c;
                    if (n > 2000 && at != n - 1)
                        continue;
                    if (!token<R, lexy::utf8_char_encoding>(b, form(F), t, true, "utf8_char") || (n < 2000 && !token<R, lexy::utf16_encoding>(b, form(F), t, false, "utf16")))
                        return;
                }
        }
        vh::transitions(12000);
        vh::outcome("run" + std::to_string(B) + "/" + std::to_string(F));
    });
}
#define TOKEN(ID, B)                                                                               \
    static int t##ID = parts::add<ID>([](auto) { token_form<B, 0>(), token_form<B, 1>(), token_form<B, 2>(); }); \
    static int u##ID = parts::add<ID + 1>([](auto) { token_form<B, 3>(), token_form<B, 4>(), token_form<B, 12>(); }); \
    static int v##ID = parts::add<ID + 2>([](auto) { token_form<B, 102>(), token_form<B, 13>(), token_form<B, 104>(); });
TOKEN(0, 0)
TOKEN(3, 1)
TOKEN(6, 2)
TOKEN(9, 3)
TOKEN(12, 4)
TOKEN(15, 5)
static int t20 = parts::add<18>([](auto) { token_form<2, 5>(), token_form<2, 6>(), token_form<2, 18>(), token_form<5, 108>(); });
static int t21 = parts::add<19>([](auto) { token_form<2, 26>(), token_form<5, 5>(), token_form<5, 6>(); });
// single digits
template <int B>
static void single()
{
    using R = std::decay_t<decltype(dsl::digit<base_t<B>>)>;
    vh::step([&] { return std::string("digit ") + bases[B].name; }, [&] {
        for (u32 c = 0; c < 0x400; ++c)
        {
            Text t(1, char32_t(c));
            for (auto x : {t, t + U"1"})
            {
                long want = dval(bases[B], c) >= 0 ? 1 : -1;
                for (bool buf : {false, true})
                {
                    long got = with<lexy::utf32_encoding>(x, buf, [&](auto&& in) {
                        auto r = lexy::parse<PB<R>>(in, rec::Cb{});
                        return r.value();
                    });
                    long got8 = with<lexy::utf8_char_encoding>(x, buf, [&](auto&& in) {
                        auto r = lexy::parse<PB<R>>(in, rec::Cb{});
                        return r.value();
                    });
                    if (got != want || got8 != want)
                        return vh::fail("digit " + uenc::show(x));
                }
            }
            long z = with<lexy::utf8_char_encoding>(t, true, [&](auto&& in) { return lexy::parse<PB<std::decay_t<decltype(dsl::zero)>>>(in, rec::Cb{}).value(); });
            if (z != (c == '0' ? 1 : -1))
                return vh::fail("zero " + uenc::show(t));
        }
        vh::transitions(0x400);
        vh::outcome(bases[B].name);
    });
}
static int t22 = parts::add<20>([](auto) { single<0>(), single<1>(), single<2>(), single<3>(), single<4>(), single<5>(); });

//=== integers ===//
// number as digit string; all arithmetic on u128 with the carry kept
struct Num
{
    u128 v        = 0;
    bool overflow = false; // of 128 bits
    void add(int radix, int d)
    {
        u128 hi = (v >> 64) * unsigned(radix), lo = u128(uint64_t(v)) * unsigned(radix) + unsigned(d);
        hi += lo >> 64;
        if (hi >> 64)
            overflow = true;
        v = (hi << 64) | uint64_t(lo);
    }
};
static std::string str(u128 v)
{
    std::string r;
    do
        r.insert(r.begin(), char('0' + int(v % 10)));
    while (v /= 10);
    return r;
}
static Text write(const Base& b, u128 v, bool upper)
{
    Text r;
    do
        r.insert(r.begin(), char32_t((upper ? b.upper : b.lower)[int(v % unsigned(b.radix))]));
    while (v /= unsigned(b.radix));
    return r;
}
// R: the integer rule; V: its value type; max: greatest value
template <typename R, typename V, typename Enc>
static bool integer(const Base& b, const Form& f, const Text& t, bool buffer, u128 max, const char* tag, const std::string& what)
{
    auto   m   = digits(b, f, t);
    size_t end = m.end;
    bool   rec = false, separator_next = false;
    std::vector<rec::Err> ee;
    if (!m.ok)
    {
        if (m.kind == 1)
            ee.push_back({"expected char class", long(m.end), long(m.end), -1, b.name});
        else
            ee.push_back({"forbidden leading zero", 0, 1, -1, ""});
        while (end < t.size() && dval(b, u32(t[end])) >= 0)
            ++end;
        rec            = end > 0;
        separator_next = rec && !f.sep.empty() && t.compare(end, f.sep.size(), f.sep) == 0;
    }
    if (separator_next)
        return true; // whether recovery also skips further separators is left open
    bool has = m.ok || rec, over = false;
    Num  n;
    if (has)
    {
        for (size_t i = 0; i < end; ++i)
            if (auto d = dval(b, u32(t[i])); d >= 0)
                n.add(b.radix, d), over = over || n.overflow || n.v > max;
        if (over)
            ee.push_back({tag, 0, long(end), -1, ""});
    }
    auto num = [](V v) {
        if constexpr (std::is_same_v<V, lexy::code_point>)
            return u128(v.value());
        else
            return u128(v);
    };
    long want = has ? long(end) : -1;
    long got  = with<Enc>(t, buffer, [&](auto&& in) {
        auto r = lexy::parse<I<R, V>>(in, rec::Cb{});
        return r.has_value() ? r.value() : -1l;
    });
    auto e    = rec::errs();
    auto v    = num(last<V>());
    long bw   = m.ok ? long(end) : -1;
    long br   = with<Enc>(t, buffer, [&](auto&& in) {
        auto r = lexy::parse<IB<R, V>>(in, rec::Cb{});
        return r.has_value() ? r.value() : -7l;
    });
    auto bv   = num(last<V>());
    vh::traces(2);
    bool ok = got == want && e == ee && br == bw && rec::errs().size() == size_t(m.ok && over);
    if (has && !over)
        ok = ok && v == n.v && (!m.ok || bv == n.v);
    if (!ok)
    {
        vh::fail(what + (buffer ? " buffer " : " string ") + uenc::show(t) + ": expected " + (has ? str(n.v) : "nothing") + (over ? " overflow" : "") + " end " + std::to_string(want)
                 + rec::show(ee) + ", got " + str(v) + " end " + std::to_string(got) + "/" + std::to_string(br) + rec::show(e) + rec::show(rec::errs()));
        return false;
    }
    return true;
}
// every number in the windows of interest, in several spellings
template <typename F>
static void spellings(const Base& b, const Form& fm, u128 v, F f)
{
    for (int up = 0; up < (b.radix == 16 && b.lower[10] != b.upper[10] ? 2 : 1); ++up)
    {
        auto w = write(b, v, up);
        f(w);
        if (fm.n)
        {
            // padded to the number of digits, and one more
            if (w.size() < size_t(fm.n))
                f(Text(size_t(fm.n) - w.size(), U'0') + w);
            f(Text(3, U'0') + w);
            f(w + U"1");
            if (!fm.sep.empty())
                for (size_t i = 1; i < w.size(); ++i)
                    f(w.substr(0, i) + fm.sep + w.substr(i));
            continue;
        }
        f(U"0" + w);
        f(w + U"0");
        f(w + Text(1, char32_t(b.lower[b.radix - 1])));
        if (!fm.sep.empty())
        {
            for (size_t i = 1; i <= w.size(); ++i)
                f(w.substr(0, i) + fm.sep + w.substr(i));
            Text all;
            for (auto c : w)
                all += (all.empty() ? Text() : fm.sep) + Text(1, c);
            f(all);
            f(U"0" + fm.sep + U"00" + fm.sep + all);
        }
    }
    f(Text(21, U'0') + write(b, v, false));
}
template <typename F>
static void values(u128 max, int radix, F f)
{
    auto all = vh::thorough() ? 40000u : 1100u;
    for (unsigned v = 0; v < all; ++v)
        f(u128(v));
    auto around = [&](u128 c, unsigned w) {
        for (u128 v = c > w ? c - w : 0; v <= c + w; ++v)
        {
            f(v);
            if (v == ~u128(0))
                break;
        }
    };
    u128 top = ~u128(0);
    if (max < top - 600)
        around(max, vh::thorough() ? 500 : 40);
    else
        for (unsigned i = 0; i < 40; ++i)
            f(top - i);
    for (u128 m = max; m; m /= unsigned(radix))
        around(m, 3);
    if (max < top / unsigned(radix))
        around(max * unsigned(radix), 20);
    for (u128 p = 1; p <= max; p *= unsigned(radix))
    {
        around(p, 2);
        for (int d = 1; d < radix; ++d)
            if (p <= top / unsigned(radix))
                f(p * unsigned(d));
        if (p > top / unsigned(radix))
            break;
    }
}
template <typename R, typename V>
static void integers(std::string what, int B, int F, u128 max, const char* tag)
{
    vh::step([&] { return what; }, [&] {
        auto& b  = bases[B];
        auto  fm = form(F);
        bool  go = true;
        values(max, b.radix, [&](u128 v) {
            if (go)
                spellings(b, fm, v, [&](const Text& t) { go = go && integer<R, V, lexy::utf8_char_encoding>(b, fm, t, false, max, tag, what); });
        });
        int k = 0;
        for (u128 v : {max, max / 2, max - 1, max + 1, u128(0), u128(17)})
            spellings(b, fm, v, [&](const Text& t) {
                go = go && integer<R, V, lexy::utf8_encoding>(b, fm, t, true, max, tag, what) && integer<R, V, lexy::utf32_encoding>(b, fm, t, k++ % 2, max, tag, what)
                     && integer<R, V, lexy::utf16_encoding>(b, fm, t, k % 2, max, tag, what);
            });
        // far too long, and long only because of leading zeros
        for (size_t k : {2u, 3u, 4u, 7u, 8u, 9u, 10u, 15u, 16u, 17u, 19u, 20u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 300u, 1000u})
            for (u128 v : {u128(0), u128(1), u128(17), max / 2, max - 1, max, max + 1})
            {
                auto w = write(b, v, false);
                Text ones(k, U'1');
                for (auto& t : {w + Text(k, U'0'), w + ones, w + Text(k, char32_t(b.lower[b.radix - 1])), Text(k, U'0') + w, Text(k, U'0') + w + U"0", Text(k, U'0') + fm.sep + w + fm.sep + ones})
                    go = go && integer<R, V, lexy::utf8_char_encoding>(b, fm, t, k % 2, max, tag, what);
            }
        // malformed
        uenc::all(alphabet(b), 4, [&](const Text& t) { go = go && integer<R, V, lexy::utf8_char_encoding>(b, fm, t, true, max, tag, what); });
        vh::transitions(5000);
        vh::outcome(what);
    });
}
template <typename T>
static constexpr u128 maxof()
{
    if constexpr (std::is_same_v<T, __int128>)
        return ~u128(0) >> 1;
    else if constexpr (std::is_same_v<T, u128>)
        return ~u128(0);
    else
        return u128(std::numeric_limits<T>::max());
}
template <typename T, int B, int F>
static void one(const char* name)
{
    using R = std::decay_t<decltype(dsl::integer<T>(rule<B, F>()))>;
    integers<R, T>(std::string(name) + " " + bases[B].name + " form " + std::to_string(F), B, F, maxof<T>(), "integer overflow");
}
#define TYPE(ID, T)                                                                                \
    static int i##ID = parts::add<ID>([](auto) { one<T, 2, 0>(#T), one<T, 2, 1>(#T); });           \
    static int j##ID = parts::add<ID + 1>([](auto) { one<T, 5, 0>(#T), one<T, 0, 3>(#T), one<T, 1, 2>(#T); });
TYPE(100, signed char)
TYPE(102, unsigned char)
TYPE(104, char)
TYPE(106, short)
TYPE(108, unsigned short)
TYPE(110, int)
TYPE(112, unsigned int)
TYPE(114, long)
TYPE(116, unsigned long)
TYPE(118, long long)
TYPE(120, unsigned long long)
TYPE(122, __int128)
TYPE(124, u128)
TYPE(126, char8_t)
TYPE(128, char16_t)
TYPE(130, char32_t)
TYPE(132, wchar_t)
// fixed digit counts, around what the type can hold
static int n0 = parts::add<140>([](auto) { one<unsigned char, 5, 12>("unsigned char"), one<unsigned char, 2, 12>("unsigned char"), one<unsigned char, 2, 13>("unsigned char"); });
static int n1 = parts::add<141>([](auto) { one<unsigned char, 5, 13>("unsigned char"), one<signed char, 5, 12>("signed char"), one<signed char, 2, 103>("signed char"); });
static int n2 = parts::add<142>([](auto) { one<unsigned short, 5, 14>("unsigned short"), one<short, 5, 14>("short"), one<unsigned short, 2, 105>("unsigned short"); });
static int n3 = parts::add<143>([](auto) { one<unsigned, 5, 18>("unsigned"), one<int, 5, 18>("int"), one<int, 2, 20>("int"), one<unsigned, 2, 19>("unsigned"); });
static int n4 = parts::add<144>([](auto) { one<unsigned long, 5, 26>("unsigned long"), one<long, 2, 29>("long"), one<unsigned long, 2, 30>("unsigned long"); });
static int n5 = parts::add<145>([](auto) { one<unsigned char, 0, 18>("unsigned char"), one<unsigned char, 1, 13>("unsigned char"), one<unsigned char, 0, 107>("unsigned char"); });
// bounded and unbounded
template <typename T, T Max, int B, int F>
static void bounded()
{
    using R = std::decay_t<decltype(dsl::integer<lexy::bounded<T, Max>>(rule<B, F>()))>;
    integers<R, T>("bounded " + str(u128(Max)) + " " + bases[B].name + " form " + std::to_string(F), B, F, u128(Max), "integer overflow");
}
static int b0 = parts::add<150>([](auto) { bounded<int, 100, 2, 0>(), bounded<int, 99, 2, 0>(), bounded<unsigned char, 128, 2, 1>(); });
static int b1 = parts::add<151>([](auto) { bounded<unsigned char, 250, 2, 0>(), bounded<unsigned char, 255, 2, 0>(), bounded<unsigned short, 0xFFF, 5, 1>(); });
static int b2 = parts::add<152>([](auto) { bounded<unsigned short, 0x1000, 5, 0>(), bounded<long, 3000000000, 2, 3>(), bounded<unsigned, 4294967290u, 2, 0>(); });
static int b3 = parts::add<153>([](auto) { bounded<int, 7, 0, 0>(), bounded<int, 8, 1, 0>(), bounded<int, 10, 2, 12>(), bounded<unsigned long, 0xFFFFFFFFFFFFFFFEul, 5, 26>(); });
template <typename T, int B>
static void unbounded(const char* name)
{
    using R = std::decay_t<decltype(dsl::integer<lexy::unbounded<T>>(rule<B, 1>()))>;
    vh::step([&] { return std::string("unbounded ") + name; }, [&] {
        bool go = true;
        values(maxof<T>(), bases[B].radix, [&](u128 v) {
            if (go && v <= maxof<T>())
                spellings(bases[B], form(1), v, [&](const Text& t) {
                    Num n;
                    bool big = false;
                    for (auto c : t)
                        if (auto d = dval(bases[B], u32(c)); d >= 0)
                            n.add(bases[B].radix, d), big = big || n.overflow || n.v > maxof<T>();
                    if (go && !big)
                        go = integer<R, T, lexy::utf8_char_encoding>(bases[B], form(1), t, false, maxof<T>(), "integer overflow", name);
                });
        });
        vh::transitions(1000);
        vh::outcome(std::string("unbounded") + name);
    });
}
static int b4 = parts::add<154>([](auto) { unbounded<int, 2>("int"), unbounded<unsigned char, 5>("unsigned char"), unbounded<unsigned long, 1>("unsigned long"); });
// custom digit rules with other characters in them
template <typename T>
static void custom(const char* name)
{
    constexpr auto tok = dsl::token(dsl::digits<> + dsl::if_(LEXY_LIT("u")));
    constexpr auto dot = dsl::token(dsl::digits<> + dsl::lit_c<'.'> + dsl::digits<>);
    vh::step([&] { return std::string("custom digits as ") + name; }, [&] {
        bool go = true;
        using R1 = std::decay_t<decltype(dsl::integer<T, dsl::decimal>(tok))>;
        using R2 = std::decay_t<decltype(dsl::integer<T, dsl::decimal>(dot))>;
        values(maxof<T>(), 10, [&](u128 v) {
            if (!go)
                return;
            auto w    = write(bases[2], v, false);
            bool over = v > maxof<T>();
            auto try1 = [&]<typename R>(std::type_identity<R>, const Text& t) {
                long got = with<lexy::utf8_char_encoding>(t, true, [&](auto&& in) {
                    auto r = lexy::parse<I<R, T>>(in, rec::Cb{});
                    return r.has_value() ? r.value() : -1l;
                });
                vh::traces(1);
                bool ok = got == long(t.size()) && rec::errs().size() == size_t(over) && (over || u128(last<T>()) == v);
                if (over)
                    ok = ok && rec::errs()[0] == rec::Err{"integer overflow", 0, long(t.size()), -1, ""};
                if (!ok)
                    go = false, vh::fail("custom digits " + uenc::show(t) + rec::show(rec::errs()));
            };
            try1(std::type_identity<R1>{}, w);
            try1(std::type_identity<R1>{}, w + U"u");
            for (size_t i = 1; i < w.size(); ++i)
                try1(std::type_identity<R2>{}, w.substr(0, i) + U"." + w.substr(i));
        });
        vh::transitions(1000);
        vh::outcome(std::string("custom") + name);
    });
}
static int b5 = parts::add<155>([](auto) { custom<unsigned char>("unsigned char"), custom<int>("int"), custom<unsigned long>("unsigned long"); });

//=== code point and code unit ids ===//
template <std::size_t N, int B>
static void cpid()
{
    using R = std::decay_t<decltype(dsl::code_point_id<N, base_t<B>>)>;
    auto& b = bases[B];
    auto  f = form(10 + int(N));
    for (u32 blk = 0; blk < 0x120000; blk += 0x20000)
        vh::step([&] { return "code_point_id<" + std::to_string(N) + ", " + b.name + ">"; }, [&] {
            for (u32 c = blk; c < blk + 0x20000; ++c)
            {
                if (!vh::thorough() && c % 0x1000 > 40 && (c < 0x10F000 || c > 0x110100) && c > 1000
                    && !(c >= 0xD700 && c < 0xE100 && (c + 0x20) % 0x400 < 0x40))
                    continue;
                auto w = write(b, c, c % 2);
                if (w.size() < N)
                    w = Text(N - w.size(), U'0') + w;
                if (!integer<R, lexy::code_point, lexy::utf8_char_encoding>(b, f, w, false, 0x10FFFF, "invalid code point", "code_point_id"))
                    return;
            }
            vh::transitions(0x1000);
            vh::outcome("cpid" + std::to_string(N) + b.name + std::to_string(blk));
        });
    vh::step([&] { return "code_point_id<" + std::to_string(N) + "> on all strings"; }, [&] {
        bool go = true;
        uenc::all(U"01f", vh::thorough() ? 9 : 7, [&](const Text& t) {
            go = go && integer<R, lexy::code_point, lexy::utf8_char_encoding>(b, f, t, true, 0x10FFFF, "invalid code point", "code_point_id");
        });
        vh::transitions(1000);
    });
}
static int c0 = parts::add<160>([](auto) { cpid<2, 5>(), cpid<4, 5>(), cpid<5, 5>(); });
static int c1 = parts::add<161>([](auto) { cpid<6, 5>(), cpid<7, 2>(), cpid<8, 5>(); });
static int c2 = parts::add<162>([](auto) { cpid<21, 0>(), cpid<7, 1>(), cpid<6, 3>(), cpid<3, 2>(); });
template <typename Enc, std::size_t N, int B>
static void cuid(const char* name)
{
    using R = std::decay_t<decltype(dsl::code_unit_id<Enc, N, base_t<B>>)>;
    using C = typename Enc::char_type;
    integers<R, C>(std::string("code_unit_id ") + name + std::to_string(N), B, 10 + int(N), maxof<C>(), "invalid code unit");
}
static int c3 = parts::add<163>([](auto) { cuid<lexy::utf8_encoding, 2, 5>("utf8"), cuid<lexy::utf8_encoding, 3, 2>("utf8"), cuid<lexy::utf16_encoding, 4, 5>("utf16"); });
static int c4 = parts::add<164>([](auto) { cuid<lexy::utf16_encoding, 5, 5>("utf16"), cuid<lexy::utf32_encoding, 8, 5>("utf32"), cuid<lexy::ascii_encoding, 2, 5>("ascii"); });
static int c5 = parts::add<165>([](auto) { cuid<lexy::utf16_encoding, 2, 5>("utf16"), cuid<lexy::byte_encoding, 2, 5>("byte"), cuid<lexy::utf8_encoding, 3, 1>("utf8"); });

//=== signs ===//
template <int S, typename T, typename Src>
struct Signed
{
    static constexpr auto rule = [] {
        constexpr auto i = dsl::integer<Src>;
        if constexpr (S == 0)
            return dsl::lit_c<'^'> + dsl::plus_sign + i;
        else if constexpr (S == 1)
            return dsl::lit_c<'^'> + dsl::minus_sign + i;
        else if constexpr (S == 2)
            return dsl::lit_c<'^'> + dsl::sign + i;
        else
            return dsl::lit_c<'^'> + i;
    }();
    static constexpr auto value = lexy::as_integer<T>;
};
template <int S, typename T, typename Src>
static void sign(const char* name)
{
    vh::step([&] { return std::string("sign ") + std::to_string(S) + " as " + name; }, [&] {
        bool go = true;
        values(maxof<T>() < maxof<Src>() ? maxof<T>() : maxof<Src>(), 10, [&](u128 v) {
            if (v > maxof<Src>() || v > maxof<T>())
                return;
            for (const char32_t* s : {U"", U"+", U"-", U"--", U"+-"})
            {
                Text t = Text(s) + write(bases[2], v, false);
                bool ok = !*s || (s[1] == 0 && ((*s == '+' && (S == 0 || S == 2)) || (*s == '-' && (S == 1 || S == 2))));
                __int128 want = *s == '-' ? -__int128(v) : __int128(v);
                __int128 got = 0;
                bool     has = with<lexy::utf8_char_encoding>(t, true, [&](auto&& in) {
                    auto r = lexy::parse<Signed<S, T, Src>>(in, rec::Cb{});
                    if (r.has_value())
                        got = __int128(r.value());
                    return r.has_value();
                });
                vh::traces(1);
                if (has != ok || (ok && got != want) || rec::errs().size() != size_t(!ok))
                    return go = false, vh::fail("sign on " + uenc::show(t));
            }
        });
        vh::transitions(1000);
        vh::outcome(name + std::to_string(S));
    });
}
#define SIGN(ID, S)                                                                                \
    static int s##ID = parts::add<ID>([](auto) { sign<S, int, int>("int"), sign<S, long, long>("long"), sign<S, short, unsigned char>("short"), sign<S, long long, int>("long long"); });
SIGN(170, 0)
SIGN(171, 1)
SIGN(172, 2)
SIGN(173, 3)
PARTS_MAIN
