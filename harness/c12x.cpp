// C12: literals of every length up to several words and around the 8 bit limits, and literal sets,
// operator-free tries and symbol tables of a few hundred entries, against direct comparison.
#include "parts.hpp"
#include "rec.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <utility>
namespace dsl = lexy::dsl;
namespace
{
//=== the pattern: character I of a long literal ===//
// V selects the pattern: 0 ASCII with all characters different within a word, 1 a single repeated
// character, 2 code points of one to four units
constexpr char32_t pat(int v, std::size_t i)
{
    if (v == 0)
        return char32_t('a' + (i * 7 + i / 26) % 26);
    if (v == 1)
        return U'x';
    constexpr char32_t c[] = {U'a', 0xE4, 0x20AC, 0x1F642, U'z', 0x7FF, 0xFFFD, 0x10FFFF, 0x80};
    return c[(i * 5) % 9];
}
template <int V, std::size_t N, typename I = std::make_index_sequence<N>>
struct long_lit;
template <int V, std::size_t N, std::size_t... I>
struct long_lit<V, N, std::index_sequence<I...>>
{
    static constexpr auto cp    = dsl::lit_cp<pat(V, I)...>;
    static constexpr auto bytes = dsl::lit_b<(unsigned char)(V == 2 ? 'a' + I % 26 : pat(V, I))...>;
};
template <typename L, int How>
struct Prod
{
    static constexpr auto lit() { if constexpr (How % 2 == 0) return L::cp; else return L::bytes; }
    static constexpr auto rule = [] {
        if constexpr (How < 2)
            return lit() + dsl::position;
        else
            return (lit() >> dsl::position) | (dsl::else_ >> dsl::nullopt);
    }();
    struct get
    {
        using return_type = const void*;
        const void* operator()(const void* p) const { return p; }
        template <typename T>
        const void* operator()(T p) const
        {
            if constexpr (std::is_same_v<T, lexy::nullopt>)
                return nullptr;
            else
                return &*p;
        }
    };
    static constexpr auto value = get{};
};
template <typename Enc, typename P, bool Buffer>
std::string run(const std::basic_string<typename Enc::char_type>& s)
{
    using C = typename Enc::char_type;
    auto go = [&](const auto& in, const C* b) {
        rec::start(b);
        auto r = lexy::parse<P>(in, rec::Cb{});
        vh::traces(1);
        std::string o;
        if (r.has_value())
            o = r.value() == nullptr ? "not taken" : "end " + std::to_string((const C*)(r.value()) - b);
        else
            o = "none";
        if (!rec::errs().empty())
            o += rec::show(rec::errs());
        return o;
    };
    if constexpr (Buffer)
    {
        auto b = lexy::buffer<Enc>(s.data(), s.size());
        return go(b, b.data());
    }
    else
        return go(lexy::string_input<Enc>(s.data(), s.size()), s.data());
}
template <typename Enc, typename L, int How, int V, std::size_t N>
void one(const char* ename)
{
    using C = typename Enc::char_type;
    constexpr bool wide = V == 2 && How % 2 == 0;
    std::basic_string<C> lit;
    for (std::size_t i = 0; i < N; ++i)
        if (wide)
            uenc::put(lit, pat(V, i));
        else
            lit.push_back(C(V == 2 ? 'a' + i % 26 : pat(V, i)));
    auto chk = [&](std::basic_string<C> s, long match) {
        auto at = [&](const char* in, std::string got) {
            std::string want = match == long(lit.size()) ? "end " + std::to_string(lit.size())
                               : How >= 2               ? "not taken"
                                                        : "none{" + rec::Err{"expected literal", 0, 0, match, rec::units(lit.data(), lit.size())}.show() + "}";
            if (got != want)
                return vh::fail("literal of " + std::to_string(N) + " (pattern " + std::to_string(V) + ", form " + std::to_string(How) + ") in " + ename + in + " matched up to " + std::to_string(match) + " of " + std::to_string(s.size()) + " units: got " + got + " expected " + want), false;
            return true;
        };
        return at(" buffer", run<Enc, Prod<L, How>, true>(s)) && at(" string", run<Enc, Prod<L, How>, false>(s));
    };
    std::size_t step = 1; // every position
    for (std::size_t i = 0; i <= lit.size(); i += step)
    {
        auto cut = lit.substr(0, i);
        if (!chk(cut, long(i)))
            return;
        for (int d = 0; d < 4; ++d)
        {
            auto s = lit;
            auto c = C(d == 0 ? 'A' : d == 1 ? 0 : d == 2 ? '~' : 0);
            if (i < s.size())
            {
                if (d == 3)
                    c = C(s[i] ^ 0x20);
                if (s[i] == c)
                    continue;
                s[i] = c;
            }
            else
                s.push_back(c);
            if (!chk(s, long(i)))
                return;
            if (d == 0 && i < s.size() && !chk(s.substr(0, i + 1), long(i)))
                return;
        }
        vh::transitions(6);
    }
}
template <int V, std::size_t N>
void lengths()
{
    vh::step([] { return "literal of length " + std::to_string(N) + " pattern " + std::to_string(V); }, [] {
        using L = long_lit<V, N>;
        one<lexy::utf8_char_encoding, L, 0, V, N>("utf8_char");
        one<lexy::utf8_char_encoding, L, 3, V, N>("utf8_char");
        one<lexy::utf8_encoding, L, 1, V, N>("utf8");
        one<lexy::utf8_encoding, L, 2, V, N>("utf8");
        one<lexy::utf16_encoding, L, 0, V, N>("utf16");
        one<lexy::utf32_encoding, L, 0, V, N>("utf32");
        one<lexy::utf32_encoding, L, 3, V, N>("utf32");
        if constexpr (V != 2)
            one<lexy::ascii_encoding, L, 0, V, N>("ascii"), one<lexy::byte_encoding, L, 1, V, N>("bytes"), one<lexy::default_encoding, L, 1, V, N>("default");
        vh::outcome("len" + std::to_string(N) + "/" + std::to_string(V));
    });
}
template <int V, std::size_t From, std::size_t... I>
void range(std::index_sequence<I...>)
{
    (lengths<V, From + I>(), ...);
}
int a0 = parts::add<0>([](auto) { range<0, 1>(std::make_index_sequence<17>{}); });
int a1 = parts::add<1>([](auto) { range<2, 1>(std::make_index_sequence<12>{}); });
int a2 = parts::add<2>([](auto) { range<0, 18>(std::make_index_sequence<16>{}); });
int a3 = parts::add<3>([](auto) { range<1, 1>(std::make_index_sequence<17>{}); });
int a4 = parts::add<4>([](auto) { lengths<0, 63>(), lengths<0, 64>(), lengths<0, 65>(), lengths<2, 40>(), lengths<1, 127>(); });
int a5 = parts::add<5>([](auto) { lengths<0, 128>(), lengths<0, 129>(), lengths<1, 130>(), lengths<2, 86>(); });
int a6 = parts::add<6>([](auto) { lengths<0, 255>(), lengths<0, 256>(); });
int a7 = parts::add<7>([](auto) { lengths<0, 257>(), lengths<2, 120>(), lengths<1, 300>(); });

//=== large sets and tables ===//
// entry k: one to three letters; every one-letter string, every two-letter string over 16 letters,
// and a few three-letter strings, in an order that puts longer ones before and after their prefixes
constexpr std::size_t entry_length(int k)
{
    return k % 17 == 0 ? 1 : k % 5 == 0 ? 3 : 2;
}
constexpr char entry(int k, std::size_t i)
{
    // distinct for distinct k: digits of a mixed radix, tagged by length
    if (entry_length(k) == 1)
        return char('A' + k / 17);
    return i == 0 ? char('a' + k % 20) : i == 1 ? char('A' + k / 20) : char('a' + (k * 3) % 7);
}
constexpr int Entries = 340;
template <int K, typename I = std::make_index_sequence<entry_length(K)>>
struct entry_lit;
template <int K, std::size_t... I>
struct entry_lit<K, std::index_sequence<I...>>
{
    static constexpr auto value = dsl::lit_b<(unsigned char)entry(K, I)...>;
};
template <typename I>
struct sets;
template <int... K>
struct sets<std::integer_sequence<int, K...>>
{
    static constexpr auto set = dsl::literal_set(entry_lit<K>::value...);
};
template <int N>
constexpr auto table()
{
    if constexpr (N == 0)
        return lexy::symbol_table<int>;
    else
    {
        constexpr auto t = table<N - 1>();
        return t.map(entry_lit<N - 1>::value, 1000 + N - 1);
    }
}
std::vector<std::string> entries(int n)
{
    std::vector<std::string> r;
    for (int k = 0; k < n; ++k)
    {
        std::string s;
        for (std::size_t i = 0; i < entry_length(k); ++i)
            s += entry(k, i);
        r.push_back(s);
    }
    return r;
}
template <int N>
struct SetP
{
    static constexpr auto rule  = sets<std::make_integer_sequence<int, N>>::set + dsl::position;
    static constexpr auto value = Prod<long_lit<0, 1>, 0>::value;
};
template <int N>
constexpr auto table_v = table<N>();
struct two
{
    int         v;
    const void* p;
};
template <int N>
struct SymP
{
    static constexpr auto rule  = dsl::symbol<table_v<N>> + dsl::position;
    static constexpr auto value = lexy::callback<two>([](int v, auto p) { return two{v, &*p}; });
};
template <typename F>
void texts(int n, F f)
{
    // every entry followed by nothing, by every kind of letter and cut short; every two-letter string
    std::string follow = "aAbBgGtTz~";
    for (auto& e : entries(Entries))
    {
        for (std::size_t l = 0; l <= e.size(); ++l)
            f(e.substr(0, l));
        for (char c : follow)
            f(e + c), f(e + c + "a");
    }
    for (int a = 32; a < 127; ++a)
        for (int b = 32; b < 127; ++b)
            f(std::string{char(a), char(b)}), f(std::string{char(a), char(b), char('a' + (a + b) % 7)});
}
template <int N>
void big()
{
    vh::step([] { return "literal set of " + std::to_string(N); }, [] {
        auto es   = entries(N);
        bool go   = true;
        auto test = [&](const std::string& s) {
            if (!go)
                return;
            long best = -1;
            for (auto& e : es)
                if (s.compare(0, e.size(), e) == 0)
                    best = std::max(best, long(e.size()));
            auto want = best < 0 ? std::string("none{expected literal set[0,0)}") : "end " + std::to_string(best);
            auto cmp  = [&](const char* how, std::string got) {
                // the range of the error covers what was tried
                if (best < 0 && got.substr(0, 26) == want.substr(0, 26))
                    return;
                if (got != want)
                    go = false, vh::fail("set of " + std::to_string(N) + " on '" + s + "' in " + how + " got " + got + " expected " + want);
            };
            cmp("buffer", run<lexy::utf8_char_encoding, SetP<N>, true>(s));
            cmp("string", run<lexy::default_encoding, SetP<N>, false>(s));
            vh::transitions(1);
        };
        texts(N, test);
        vh::outcome("set" + std::to_string(N));
    });
}
template <int N>
void syms()
{
    vh::step([] { return "symbol table of " + std::to_string(N); }, [] {
        auto        es = entries(N);
        const auto& t  = table_v<N>;
        if (t.size() != std::size_t(N) || t.empty())
            return vh::fail("wrong size");
        int k = 0;
        for (auto it = t.begin(); it != t.end(); ++it, ++k)
        {
            std::string key;
            for (auto p = it->symbol; *p; ++p)
                key += char(*p);
            if (k >= N || key != es[size_t(k)] || it->value != 1000 + k)
                return vh::fail("entry " + std::to_string(k) + " is " + key + "=" + std::to_string(it->value));
        }
        if (k != N)
            return vh::fail("iterates over " + std::to_string(k));
        bool go   = true;
        auto test = [&](const std::string& s) {
            if (!go)
                return;
            long best = -1, exact = -1, val = -1;
            for (int k = 0; k < N; ++k)
            {
                auto& e = es[size_t(k)];
                if (s.compare(0, e.size(), e) == 0 && best < long(e.size()))
                    best = long(e.size()), val = 1000 + k;
                if (s == e)
                    exact = 1000 + k;
            }
            auto in  = lexy::string_input<lexy::utf8_encoding>((const lexy::utf8_encoding::char_type*)s.data(), s.size());
            auto idx = t.parse(in);
            if (bool(idx) != (exact >= 0) || (idx && t[idx] != exact))
                return go = false, vh::fail("table of " + std::to_string(N) + ": parse('" + s + "') gives " + (idx ? std::to_string(t[idx]) : "nothing"));
            auto buf = lexy::buffer<lexy::utf8_char_encoding>(s.data(), s.size());
            rec::start(buf.data());
            auto r = lexy::parse<SymP<N>>(buf, rec::Cb{});
            vh::traces(2);
            vh::transitions(1);
            if (r.has_value() != (best >= 0) || (best >= 0 && (r.value().v != val || (const char*)r.value().p - buf.data() != best)))
                return go = false, vh::fail("table of " + std::to_string(N) + ": symbol on '" + s + "' gives " + (r.has_value() ? std::to_string(r.value().v) : "nothing") + " expected " + std::to_string(val));
            if (best < 0 && (rec::errs().size() != 1 || rec::errs()[0].kind != "unknown symbol" || rec::errs()[0].begin != 0))
                return go = false, vh::fail("table of " + std::to_string(N) + ": error on '" + s + "' is " + rec::show(rec::errs()));
        };
        texts(N, test);
        vh::outcome("table" + std::to_string(N));
    });
}
int b0 = parts::add<8>([](auto) { big<20>(), big<130>(); });
int b1 = parts::add<9>([](auto) { big<260>(); });
int b2 = parts::add<10>([](auto) { big<Entries>(); });
int b3 = parts::add<11>([](auto) { syms<20>(), syms<130>(); });
int b4 = parts::add<12>([](auto) { syms<300>(); });

//=== long keywords ===//
constexpr auto ident = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit_underscore);
template <int I>
struct Kw;
#define KW(I, S)                                                                                   \
    template <>                                                                                    \
    struct Kw<I>                                                                                   \
    {                                                                                              \
        static constexpr auto text  = S;                                                           \
        static constexpr auto rule  = LEXY_KEYWORD(S, ident) + dsl::position;                      \
        static constexpr auto value = Prod<long_lit<0, 1>, 0>::value;                              \
    };
#define T10 "abcdefghij"
KW(0, "k")
KW(1, "keyword")
KW(2, "keywords")
KW(3, "keywords9")
KW(4, T10 "klmnop")
KW(5, T10 "klmnopq")
KW(6, T10 T10 T10 "end")
KW(7, T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10)
KW(8, T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10)
template <int I>
void keyword()
{
    vh::step([] { return std::string("keyword ") + Kw<I>::text; }, [] {
        std::string kw = Kw<I>::text;
        auto        word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
        auto        chk  = [&](const std::string& s) {
            std::size_t end = 0;
            if (!s.empty() && isalpha((unsigned char)s[0]))
                while (end < s.size() && word(s[end]))
                    ++end;
            bool ok   = s.compare(0, kw.size(), kw) == 0 && end == kw.size();
            auto want = ok ? "end " + std::to_string(kw.size()) : "none{" + rec::Err{"expected keyword", 0, long(end), -1, kw}.show() + "}";
            for (int b = 0; b < 3; ++b)
            {
                auto got = b == 0 ? run<lexy::utf8_char_encoding, Kw<I>, true>(s) : b == 1 ? run<lexy::ascii_encoding, Kw<I>, false>(s) : run<lexy::default_encoding, Kw<I>, true>(s);
                if (got != want)
                    return vh::fail("keyword " + kw + " on '" + s + "': got " + got + " expected " + want), false;
            }
            vh::transitions(3);
            return true;
        };
        for (std::size_t i = 0; i <= kw.size(); ++i)
        {
            if (!chk(kw.substr(0, i)))
                return;
            for (char c : std::string("aZ9_ -~"))
            {
                auto s = kw;
                i < s.size() ? void(s[i] = c) : void(s += c);
                if (!chk(s) || !chk(s + "x") || !chk(s + " x") || !chk(s.substr(0, i + 1)))
                    return;
            }
        }
        for (std::size_t more = 0; more < 300; more += more < 40 ? 1 : 13)
            if (!chk(kw + std::string(more, 'q')) || !chk(kw + std::string(more, 'q') + " "))
                return;
        vh::outcome("kw" + std::to_string(I));
    });
}
int c0 = parts::add<13>([](auto) { keyword<0>(), keyword<1>(), keyword<2>(), keyword<3>(), keyword<4>(); });
int c1 = parts::add<14>([](auto) { keyword<5>(), keyword<6>(), keyword<7>(), keyword<8>(); });
} // namespace
PARTS_MAIN
