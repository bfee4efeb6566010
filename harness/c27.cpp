// C27: binary rules.
#include "parts.hpp"
#include "rec.hpp"
#include <functional>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
namespace dsl = lexy::dsl;
using Bytes   = std::vector<unsigned char>;

struct Want
{
    bool                  taken = false; // as a branch
    bool                  ok    = false; // as a rule
    long                  end   = 0;     // consumed, also on failure
    std::string           val   = "";
    std::vector<rec::Err> errs  = {};
};
using Model = std::function<Want(const Bytes&)>;
inline std::string hexs(const Bytes& b)
{
    std::string r;
    char        t[8];
    for (auto c : b)
        snprintf(t, sizeof t, "%02x ", c), r += t;
    return r;
}
template <typename T>
inline std::string sh(T v)
{
    if constexpr (std::is_same_v<T, lexy::nullopt>)
        return "else";
    else if constexpr (std::is_same_v<T, const unsigned char*>)
        return "$" + std::to_string(rec::at(v));
    else
        return std::to_string(sizeof(T) * 8) + (std::is_unsigned_v<T> ? "u" : "s") + std::to_string(v);
}
constexpr auto cb = lexy::callback<std::string>([](auto... v) {
    std::string r;
    ((r += sh(v) + " "), ...);
    return r;
});
template <typename R, bool Ws>
struct AsRule
{
    static constexpr auto rule  = R{} + dsl::position;
    static constexpr auto value = cb;
};
template <typename R>
struct AsRule<R, true> : AsRule<R, false>
{
    static constexpr auto whitespace = dsl::lit_b<0x20>;
};
template <typename R, bool Ws>
struct AsBranch
{
    static constexpr auto rule  = R{} >> dsl::position | dsl::else_ >> dsl::nullopt + dsl::position;
    static constexpr auto value = cb;
};
template <typename R>
struct AsBranch<R, true> : AsBranch<R, false>
{
    static constexpr auto whitespace = dsl::lit_b<0x20>;
};
inline vh::Guard& guard()
{
    static vh::Guard g(4096);
    return g;
}
template <typename Tree>
inline std::string toks(const Tree& t)
{
    std::string r;
    for (auto [ev, n] : t.traverse())
        if (ev == lexy::traverse_event::leaf)
            r += std::string(n.kind().name()) + "[" + std::to_string(rec::at(n.token().lexeme().begin())) + "," + std::to_string(rec::at(n.token().lexeme().end())) + ") ";
    return r;
}
template <typename R, bool Ws>
inline bool one(const Model& m, const char* tok, const Bytes& b)
{
    auto off   = Ws ? long(std::find_if(b.begin(), b.end(), [](auto c) { return c != 0x20; }) - b.begin()) : 0;
    auto w     = m(Bytes(b.begin() + off, b.end()));
    auto shift = [&](std::vector<rec::Err> e) {
        for (auto& x : e)
            x.begin += off, x.end += off;
        return rec::show(e);
    };
    auto end = off + w.end;
    if (Ws && w.ok)
        while (size_t(end) < b.size() && b[size_t(end)] == 0x20)
            ++end;
    auto p = guard().tail<unsigned char>(b.size());
    std::copy(b.begin(), b.end(), p);
    auto in = lexy::string_input<lexy::byte_encoding>(p, b.size());
    vh::traces(1);
    vh::transitions(1);
    // as a rule
    auto expect = w.ok ? w.val + "$" + std::to_string(end) + " " : "none";
    rec::start(p);
    auto r   = lexy::parse<AsRule<R, Ws>>(in, rec::Cb{});
    auto got = r.has_value() ? r.value() : "none";
    if (got != expect)
        return vh::fail("rule on " + hexs(b) + ": expected " + expect + " actual " + got), false;
    if (rec::show(rec::errs()) != shift(w.errs) || r.error_count() != w.errs.size())
        return vh::fail("errors on " + hexs(b) + ": expected " + shift(w.errs) + " actual " + rec::show(rec::errs())), false;
    // as a branch
    expect = !w.taken ? "else $" + std::to_string(off) + " " : expect;
    rec::errs().clear();
    auto br = lexy::parse<AsBranch<R, Ws>>(in, rec::Cb{});
    got     = br.has_value() ? br.value() : "none";
    if (got != expect)
        return vh::fail("branch on " + hexs(b) + ": expected " + expect + " actual " + got), false;
    auto be = w.taken ? shift(w.errs) : "{}";
    if (rec::show(rec::errs()) != be)
        return vh::fail("branch errors on " + hexs(b) + ": expected " + be + " actual " + rec::show(rec::errs())), false;
    // in a buffer, with a tree
    lexy::buffer<lexy::byte_encoding> buf(b.data(), b.size());
    rec::start(buf.data());
    lexy::parse_tree_for<decltype(buf)> t;
    auto                                tr = lexy::parse_as_tree<AsRule<R, Ws>>(t, buf, rec::Cb{});
    if (rec::show(rec::errs()) != shift(w.errs) || tr.is_fatal_error() == w.ok)
        return vh::fail("tree errors on " + hexs(b) + ": expected " + shift(w.errs) + " actual " + rec::show(rec::errs())), false;
    if (w.ok)
    {
        std::string leaves;
        auto        add = [&](const char* k, long x, long y) { leaves += std::string(k) + "[" + std::to_string(x) + "," + std::to_string(y) + ") "; };
        if (off)
            add("whitespace", 0, off);
        if (w.end || tok == std::string("literal"))
            add(tok, off, off + w.end);
        if (end != off + w.end)
            add("whitespace", off + w.end, end);
        add("position", end, end);
        if (toks(t) != leaves)
            return vh::fail("tree of " + hexs(b) + ": expected " + leaves + " actual " + toks(t)), false;
    }
    vh::outcome(rec::show(w.errs) + w.val + std::to_string(w.end));
    return true;
}
template <typename R>
inline void each(const Model& m, const char* tok, const std::vector<Bytes>& in, bool ws)
{
    for (auto& b : in)
    {
        if (!one<R, false>(m, tok, b))
            return;
        if (ws && !one<R, true>(m, tok, b))
            return;
    }
}
// every input is shorter, exact or longer; one byte (or any two) takes every value
static void variants(std::vector<Bytes>& v, const Bytes& base, bool pairs)
{
    for (size_t n = 0; n <= base.size(); ++n)
        v.push_back(Bytes(base.begin(), base.begin() + long(n)));
    for (size_t i = 0; i < base.size(); ++i)
        for (int c = 0; c < 256; ++c)
        {
            auto b = base;
            b[i]   = (unsigned char)c;
            v.push_back(b);
        }
    static const int few[] = {0, 1, 0x20, 0x7F, 0x80, 0xFE, 0xFF};
    for (size_t i = 0; pairs && i < base.size(); ++i)
        for (size_t j = i + 1; j < base.size(); ++j)
            for (int c : few)
                for (int d : few)
                {
                    auto b = base;
                    b[i] = (unsigned char)c, b[j] = (unsigned char)d;
                    v.push_back(b);
                }
}
static std::vector<Bytes> inputs(size_t n, std::vector<unsigned char> fill)
{
    std::vector<Bytes> v;
    for (auto f : fill)
        for (size_t k = n ? n - 1 : 0; k <= n + 1; ++k)
            variants(v, Bytes(k, f), k == n || vh::thorough());
    // distinct bytes
    Bytes d;
    for (size_t k = 0; k < n; ++k)
        d.push_back((unsigned char)(0x11 * (k + 1) + 0x70 * (k % 2)));
    variants(v, d, true);
    return v;
}
static std::vector<Bytes> two_bytes()
{
    std::vector<Bytes> v{{}};
    for (int a = 0; a < 256; ++a)
    {
        v.push_back({(unsigned char)a});
        for (int b = 0; b < 256; ++b)
            v.push_back({(unsigned char)a, (unsigned char)b});
    }
    return v;
}
//=== bytes ===//
static Model bytes_model(size_t n, std::function<bool(unsigned)> p, std::string name)
{
    return [=](const Bytes& b) {
        size_t i = 0;
        while (i < n && i < b.size() && p(b[i]))
            ++i;
        Want w;
        w.taken = w.ok = i == n;
        w.end          = long(i);
        if (!w.ok)
            w.errs = {{"expected char class", long(i), long(i), -1, name}};
        return w;
    };
}
struct Odd
{
    static constexpr auto name()
    {
        return "odd";
    }
    constexpr bool operator()(unsigned char c) const
    {
        return c % 2 == 1;
    }
};
#define RULE(...) std::decay_t<decltype(__VA_ARGS__)>
template <size_t N>
inline void bytes_n()
{
    auto any = [](unsigned) { return true; };
    vh::step([] { return "bytes<" + std::to_string(N) + ">"; }, [&] { each<RULE(dsl::bytes<N>)>(bytes_model(N, any, "byte"), "any", inputs(N, {0, 0xFF, 'a'}), true); });
    vh::step([] { return "bytes<" + std::to_string(N) + ">.ascii()"; }, [&] { each<RULE(dsl::bytes<N>.ascii())>(bytes_model(N, [](unsigned c) { return c < 128; }, "byte.ASCII"), "token", inputs(N, {0, 0x7F}), true); });
    vh::step([] { return "bytes<" + std::to_string(N) + ">.set()"; }, [&] {
        each<RULE((dsl::bytes<N>.template set<1, 0x80, 0xFF>()))>(bytes_model(N, [](unsigned c) { return c == 1 || c == 128 || c == 255; }, "byte.set"), "token", inputs(N, {1, 0x80, 0xFF}), true);
        each<RULE((dsl::bytes<N>.template set<0>()))>(bytes_model(N, [](unsigned c) { return c == 0; }, "byte.set"), "token", inputs(N, {0}), false);
    });
    vh::step([] { return "bytes<" + std::to_string(N) + ">.range()"; }, [&] {
        each<RULE((dsl::bytes<N>.template range<0x10, 0x90>()))>(bytes_model(N, [](unsigned c) { return c >= 16 && c <= 0x90; }, "byte.range"), "token", inputs(N, {0x10, 0x90}), true);
        each<RULE((dsl::bytes<N>.template range<0x80, 0xFF>()))>(bytes_model(N, [](unsigned c) { return c >= 128; }, "byte.range"), "token", inputs(N, {0x80, 0xFF}), false);
        each<RULE((dsl::bytes<N>.template range<0, 0>()))>(bytes_model(N, [](unsigned c) { return c == 0; }, "byte.range"), "token", inputs(N, {0}), false);
    });
    vh::step([] { return "bytes<" + std::to_string(N) + ">.if_()"; }, [&] { each<RULE((dsl::bytes<N>.template if_<Odd>()))>(bytes_model(N, [](unsigned c) { return c % 2; }, "odd"), "token", inputs(N, {1, 0xFF}), true); });
}
static int b0 = parts::add<0>([](auto) {
    bytes_n<1>();
    bytes_n<2>();
    vh::step([] { return "byte on all two-byte inputs"; }, [] { each<RULE(dsl::byte)>(bytes_model(1, [](unsigned) { return true; }, "byte"), "any", two_bytes(), true); });
    vh::step([] { return "bytes<2> on all two-byte inputs"; }, [] { each<RULE((dsl::bytes<2>.range<0x40, 0xC0>()))>(bytes_model(2, [](unsigned c) { return c >= 64 && c <= 0xC0; }, "byte.range"), "token", two_bytes(), false); });
});
static int b1 = parts::add<1>([](auto) {
    bytes_n<3>();
    bytes_n<4>();
});
static int b2 = parts::add<2>([](auto) {
    bytes_n<5>();
    bytes_n<8>();
});
static int b3 = parts::add<3>([](auto) {
    bytes_n<9>();
    bytes_n<16>();
    bytes_n<17>();
});
//=== padding ===//
template <size_t N, unsigned char V>
inline void padding()
{
    vh::step([] { return "padding_bytes<" + std::to_string(N) + "," + std::to_string(V) + ">"; },
             [] {
                 Model m = [](const Bytes& b) {
                     Want w;
                     w.taken = w.ok = b.size() >= N;
                     w.end          = long(std::min(b.size(), N));
                     if (!w.ok)
                         w.errs = {{"expected char class", w.end, w.end, -1, "byte"}};
                     else
                         for (size_t i = 0; i < N; ++i)
                             if (b[i] != V)
                             {
                                 unsigned char s[] = {V};
                                 w.errs.push_back({"expected literal", long(i), long(i), 0, rec::units(s, 1)});
                             }
                     return w;
                 };
                 each<RULE((dsl::padding_bytes<N, V>))>(m, "any", inputs(N, {V, (unsigned char)(V + 1)}), true);
             });
}
static int p0 = parts::add<4>([](auto) {
    padding<1, 0>();
    padding<2, 0>();
    padding<3, 0>();
    padding<4, 0>();
    padding<7, 0>();
    padding<8, 0>();
    padding<16, 0>();
    vh::step([] { return "padding_bytes<2> is zero"; }, [] {
        static_assert(std::is_same_v<RULE(dsl::padding_bytes<2>), RULE((dsl::padding_bytes<2, 0>))>);
    });
});
static int p1 = parts::add<5>([](auto) {
    padding<1, 0xFF>();
    padding<2, 0xFF>();
    padding<5, 0x20>();
    padding<3, 'x'>();
    padding<4, 0x80>();
});
//=== integers ===//
static Model bint_model(size_t n, bool big, Model inner = nullptr)
{
    return [=](const Bytes& b) {
        Want w = inner ? inner(b) : bytes_model(n, [](unsigned) { return true; }, "byte")(b);
        if (!w.ok)
            return w;
        if (w.end != long(n))
        {
            w.ok   = false;
            w.errs = {{"mismatched byte count", 0, w.end, -1, ""}};
            return w;
        }
        unsigned long long v = 0;
        for (size_t i = 0; i < n; ++i)
            v = v * 256 + (big ? b[i] : b[n - 1 - i]);
        w.val = std::to_string(n * 8) + "u" + std::to_string(v) + " ";
        return w;
    };
}
static std::vector<Bytes> ints(size_t n)
{
    auto v = inputs(n, {0, 0xFF, 0x80});
    // any two bytes take any value
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j)
        {
            int step = n == 2 || vh::thorough() ? 1 : n == 4 ? 5 : 17;
            for (int a = 0; a < 256; a += step)
                for (int b = 0; b < 256; b += step)
                {
                    Bytes x(n, 0);
                    for (size_t k = 0; k < n; ++k)
                        x[k] = (unsigned char)(k * 0x25 + 0x81);
                    x[i] = (unsigned char)a, x[j] = (unsigned char)b;
                    v.push_back(x);
                }
        }
    return v;
}
constexpr bool native_big = __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__;
#define BINT(ID, RULE_, N, BIG)                                                                    \
    static int i##ID = parts::add<6 + ID>([](auto) {                                               \
        vh::step([] { return #RULE_; }, [] { each<RULE(dsl::RULE_)>(bint_model(N, BIG), "any", ints(N), N == 1); }); \
        vh::step([] { return #RULE_ " with whitespace"; }, [] { each<RULE(dsl::RULE_)>(bint_model(N, BIG), "any", inputs(N, {0x20, 0xFF}), true); }); \
    });
BINT(0, bint8, 1, false)
BINT(1, bint16, 2, native_big)
BINT(2, little_bint16, 2, false)
BINT(3, big_bint16, 2, true)
BINT(4, bint32, 4, native_big)
BINT(5, little_bint32, 4, false)
BINT(6, big_bint32, 4, true)
BINT(7, bint64, 8, native_big)
BINT(8, little_bint64, 8, false)
BINT(9, big_bint64, 8, true)
// integers of specific tokens
static Model lit_model(Bytes t)
{
    return [=](const Bytes& b) {
        size_t i = 0;
        while (i < t.size() && i < b.size() && t[i] == b[i])
            ++i;
        Want w;
        w.taken = w.ok = i == t.size();
        w.end          = long(i);
        if (!w.ok)
            w.errs = {{"expected literal", 0, 0, long(i), rec::units(t, t.size())}};
        return w;
    };
}
static Model while_model(std::function<bool(unsigned)> p) // token(while_one(p))
{
    return [=](const Bytes& b) {
        size_t i = 0;
        while (i < b.size() && p(b[i]))
            ++i;
        Want w;
        w.taken = w.ok = i > 0;
        w.end          = long(i);
        if (!w.ok)
            w.errs = {{"missing token", 0, 0, -1, ""}};
        return w;
    };
}
static std::vector<Bytes> small(std::vector<unsigned char> alphabet, size_t n)
{
    std::vector<Bytes> v{{}};
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i].size() < n)
            for (auto c : alphabet)
            {
                auto b = v[i];
                b.push_back(c);
                v.push_back(b);
            }
    return v;
}
static int k0 = parts::add<16>([](auto) {
    auto low = [](unsigned c) { return c < 0x80; };
    vh::step([] { return "integers of byte classes"; }, [=] {
        each<RULE((dsl::little_bint16(dsl::bytes<2>.ascii())))>(bint_model(2, false, bytes_model(2, low, "byte.ASCII")), "token", two_bytes(), false);
        each<RULE((dsl::big_bint16(dsl::bytes<2>.ascii())))>(bint_model(2, true, bytes_model(2, low, "byte.ASCII")), "token", two_bytes(), false);
        each<RULE((dsl::bint8(dsl::byte.range<0x20, 0x90>())))>(bint_model(1, true, bytes_model(1, [](unsigned c) { return c >= 32 && c <= 0x90; }, "byte.range")), "token", two_bytes(), true);
        each<RULE((dsl::big_bint32(dsl::bytes<4>.ascii())))>(bint_model(4, true, bytes_model(4, low, "byte.ASCII")), "token", inputs(4, {0, 0x7F}), true);
        each<RULE((dsl::little_bint64(dsl::bytes<8>.ascii())))>(bint_model(8, false, bytes_model(8, low, "byte.ASCII")), "token", inputs(8, {0, 0x7F}), true);
        each<RULE((dsl::little_bint32(dsl::bytes<3>.ascii())))>(bint_model(4, false, bytes_model(3, low, "byte.ASCII")), "token", inputs(3, {0, 0x7F}), true);
        each<RULE((dsl::little_bint32(dsl::bytes<5>)))>(bint_model(4, false, bytes_model(5, [](unsigned) { return true; }, "byte")), "token", inputs(5, {0, 0x7F}), true);
    });
    vh::step([] { return "integers of literals"; }, [] {
        each<RULE((dsl::big_bint16(dsl::lit_b<0x12, 0x84>)))>(bint_model(2, true, lit_model({0x12, 0x84})), "literal", two_bytes(), true);
        each<RULE((dsl::little_bint16(dsl::lit_b<0x12, 0x84>)))>(bint_model(2, false, lit_model({0x12, 0x84})), "literal", two_bytes(), false);
        each<RULE((dsl::bint8(dsl::lit_b<0xF0>)))>(bint_model(1, false, lit_model({0xF0})), "literal", two_bytes(), true);
        each<RULE((dsl::big_bint32(dsl::lit_b<1, 2, 3, 0xF4>)))>(bint_model(4, true, lit_model({1, 2, 3, 0xF4})), "literal", small({1, 2, 3, 0xF4}, 5), false);
    });
    vh::step([] { return "integers of tokens of variable length"; }, [=] {
        auto v = small({0x31, 0x82, 0x20, 0x43}, 6);
        auto p = [](unsigned c) { return c != 0x20; };
        each<RULE((dsl::big_bint16(dsl::token(dsl::while_one(dsl::byte.range<0x21, 0xFF>())))))>(bint_model(2, true, while_model(p)), "token", v, true);
        each<RULE((dsl::bint8(dsl::token(dsl::while_one(dsl::byte.range<0x21, 0xFF>())))))>(bint_model(1, true, while_model(p)), "token", v, false);
        each<RULE((dsl::little_bint32(dsl::token(dsl::while_one(dsl::byte.range<0x21, 0xFF>())))))>(bint_model(4, false, while_model(p)), "token", v, true);
        auto v9 = small({0x81, 0x20, 0x43}, 9);
        each<RULE((dsl::little_bint64(dsl::token(dsl::while_one(dsl::byte.range<0x21, 0xFF>())))))>(bint_model(8, false, while_model(p)), "token", v9, false);
        each<RULE((dsl::big_bint64(dsl::token(dsl::while_one(dsl::byte.range<0x21, 0xFF>())))))>(bint_model(8, true, while_model(p)), "token", v9, false);
    });
});
//=== bits ===//
static Model bits_model(std::string pat)
{
    return [=](const Bytes& b) {
        bool ok = !b.empty();
        for (size_t i = 0; ok && i < 8; ++i)
            if (pat[i] != '_' && int(b[0] >> (7 - i) & 1) != pat[i] - '0')
                ok = false;
        Want w;
        w.taken = w.ok = ok;
        w.end          = ok;
        if (!ok)
            w.errs = {{"expected char class", 0, 0, -1, "bits"}};
        return w;
    };
}
static std::vector<Bytes> bit_inputs()
{
    std::vector<Bytes> v{{}};
    for (int a = 0; a < 256; ++a)
    {
        v.push_back({(unsigned char)a});
        v.push_back({(unsigned char)a, (unsigned char)~a});
        v.push_back({(unsigned char)a, 0x20});
    }
    return v;
}
template <int D>
constexpr auto bit_()
{
    if constexpr (D == 0)
        return dsl::bit::_0;
    else if constexpr (D == 1)
        return dsl::bit::_1;
    else
        return dsl::bit::_;
}
// four bits given as a ternary number
template <int A, int B>
struct Pat
{
    static constexpr auto rule()
    {
        return dsl::bits(bit_<A / 27 % 3>(), bit_<A / 9 % 3>(), bit_<A / 3 % 3>(), bit_<A % 3>(), bit_<B / 27 % 3>(), bit_<B / 9 % 3>(),
                         bit_<B / 3 % 3>(), bit_<B % 3>());
    }
    static std::string text()
    {
        std::string r;
        for (int x : {A, B})
            for (int d : {27, 9, 3, 1})
                r += "01_"[x / d % 3];
        return r;
    }
};
template <int A, int B>
inline void pat()
{
    vh::step([] { return "bits " + Pat<A, B>::text(); }, [] { each<RULE((Pat<A, B>::rule()))>(bits_model(Pat<A, B>::text()), "token", bit_inputs(), A % 4 == 0); });
}
template <int From, int... I>
inline void pats(std::integer_sequence<int, I...>)
{
    (pat<From + I, (From + I) * 7 % 81>(), ...);
    (pat<(From + I) * 11 % 81, 80 - From - I>(), ...);
}
#define PATS(ID, FROM)                                                                             \
    static int q##ID = parts::add<17 + ID>([](auto) { pats<FROM>(std::make_integer_sequence<int, 9>{}); });
PATS(0, 0)
PATS(1, 9) PATS(2, 18) PATS(3, 27) PATS(4, 36) PATS(5, 45) PATS(6, 54) PATS(7, 63) PATS(8, 72)
inline std::string bin4(int v)
{
    std::string r;
    for (int i = 3; i >= 0; --i)
        r += char('0' + (v >> i & 1));
    return r;
}
template <int... V>
inline void nibbles(std::integer_sequence<int, V...>)
{
    auto in = bit_inputs();
    (each<RULE((dsl::bits(dsl::bit::nibble<V>, dsl::bit::any<4>)))>(bits_model(bin4(V) + "____"), "token", in, false), ...);
    (each<RULE((dsl::bits(dsl::bit::any<4>, dsl::bit::nibble<V>)))>(bits_model("____" + bin4(V)), "token", in, false), ...);
    (each<RULE((dsl::bits(dsl::bit::nibble<V>, dsl::bit::nibble<15 - V>)))>(bits_model(bin4(V) + bin4(15 - V)), "token", in, false), ...);
    (each<RULE((dsl::bits(dsl::bit::_1, dsl::bit::nibble<V>, dsl::bit::any<2>, dsl::bit::_0)))>(bits_model("1" + bin4(V) + "__0"), "token", in, false), ...);
}
static int n0 = parts::add<26>([](auto) {
    vh::step([] { return "nibbles 0-7"; }, [] { nibbles(std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7>{}); });
    vh::step([] { return "nibbles 8-15"; }, [] { nibbles(std::integer_sequence<int, 8, 9, 10, 11, 12, 13, 14, 15>{}); });
    vh::step([] { return "any<N>"; }, [] {
        auto in = bit_inputs();
        using namespace dsl::bit;
        each<RULE((dsl::bits(dsl::bit::any<8>)))>(bits_model("________"), "token", in, true);
        each<RULE((dsl::bits(_1, dsl::bit::any<7>)))>(bits_model("1_______"), "token", in, true);
        each<RULE((dsl::bits(dsl::bit::any<7>, _0)))>(bits_model("_______0"), "token", in, true);
        each<RULE((dsl::bits(_1, _1, _0, dsl::bit::any<5>)))>(bits_model("110_____"), "token", in, true);
        each<RULE((dsl::bits(dsl::bit::any<3>, _1, _0, dsl::bit::any<3>)))>(bits_model("___10___"), "token", in, true);
        each<RULE((dsl::bits(dsl::bit::any<2>, _0, dsl::bit::any<4>, _1)))>(bits_model("__0____1"), "token", in, true);
        each<RULE((dsl::bint8(dsl::bits(_1, _0, dsl::bit::any<6>))))>(bint_model(1, true, bits_model("10______")), "token", in, true);
        each<RULE((dsl::bint8(dsl::bits(_0, dsl::bit::any<6>, _1))))>(bint_model(1, true, bits_model("0______1")), "token", in, true);
    });
});
//=== byte order marks ===//
template <typename Enc, lexy::encoding_endianness E>
inline void bom(Bytes mark)
{
    std::vector<Bytes> v = two_bytes();
    variants(v, mark, true);
    auto l = mark;
    l.push_back(0x41);
    variants(v, l, true);
    for (auto x : small({0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0}, 4))
        v.push_back(x);
    each<RULE((dsl::bom<Enc, E>))>(lit_model(mark), "literal", v, true);
    vh::outcome("bom");
}
static int m0 = parts::add<27>([](auto) {
    using E = lexy::encoding_endianness;
    vh::step([] { return "UTF-8 byte order mark"; }, [] {
        bom<lexy::utf8_encoding, E::little>({0xEF, 0xBB, 0xBF});
        bom<lexy::utf8_encoding, E::big>({0xEF, 0xBB, 0xBF});
        bom<lexy::utf8_encoding, E::bom>({0xEF, 0xBB, 0xBF});
        bom<lexy::utf8_char_encoding, E::little>({0xEF, 0xBB, 0xBF});
        bom<lexy::utf8_char_encoding, E::big>({0xEF, 0xBB, 0xBF});
    });
    vh::step([] { return "UTF-16 little byte order mark"; }, [] { bom<lexy::utf16_encoding, E::little>({0xFF, 0xFE}); });
    vh::step([] { return "UTF-16 big byte order mark"; }, [] { bom<lexy::utf16_encoding, E::big>({0xFE, 0xFF}); });
    vh::step([] { return "UTF-32 little byte order mark"; }, [] { bom<lexy::utf32_encoding, E::little>({0xFF, 0xFE, 0, 0}); });
    vh::step([] { return "UTF-32 big byte order mark"; }, [] { bom<lexy::utf32_encoding, E::big>({0, 0, 0xFE, 0xFF}); });
    vh::step([] { return "no byte order mark"; }, [] {
        bom<lexy::ascii_encoding, E::little>({});
        bom<lexy::byte_encoding, E::big>({});
        bom<lexy::default_encoding, E::bom>({});
    });
});
PARTS_MAIN
