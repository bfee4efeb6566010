// C02: repetition at scale - long lists and counts around the 8 and 16 bit limits, combinations of
// many alternatives, flag sets of every width - against a direct computation on the text.
#include "parts.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
namespace dsl = lexy::dsl;
namespace
{
struct Out
{
    bool                     ok = true;
    std::vector<long>        items;
    long                     end = 0;
    std::vector<std::string> errors;
    std::string              str() const
    {
        // long lists are summarised by count, first, last and a positional checksum
        std::string s = ok ? "value" : "none";
        if (ok)
        {
            s += " n=" + std::to_string(items.size());
            unsigned long h = 7;
            for (auto v : items)
                h = h * 1000003 + (unsigned long)v;
            if (items.size() <= 20)
                for (auto v : items)
                    s += " " + std::to_string(v);
            else
                s += " #" + std::to_string(h);
            s += " end=" + std::to_string(end);
        }
        for (auto& e : errors)
            s += " !" + e;
        return s;
    }
};
std::string err(const char* kind, std::size_t b, std::size_t e)
{
    return std::string(kind) + "@" + std::to_string(b) + "-" + std::to_string(e);
}

//=== observation ===//
// position of an iterator as an offset from the start of the input
template <typename It>
struct Origin
{
    static inline It begin;
    static long      of(It it)
    {
        if constexpr (std::is_pointer_v<It>)
            return long(it - begin);
        else
        {
            long n = 0;
            for (auto i = begin; i != it; ++i)
                ++n;
            return n;
        }
    }
};
Out* out;
template <typename R>
void item(const lexy::lexeme<R>& l)
{
    using It = typename R::iterator;
    if constexpr (std::is_pointer_v<It>)
        out->items.push_back(Origin<It>::of(l.begin()));
    else
        // counting from the start for every item would be quadratic
        out->items.push_back(long(out->items.size()));
}
struct Sink
{
    struct cb
    {
        using return_type = int;
        template <typename... T>
        void operator()(const T&... v)
        {
            (item(v), ...);
        }
        int finish() &&
        {
            return 0;
        }
    };
    cb sink() const
    {
        return {};
    }
};
struct Val
{
    using return_type = int;
    template <typename T>
    static void put(const T& v)
    {
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, lexy::nullopt>)
            ;
        else if constexpr (std::is_enum_v<T> || std::is_same_v<T, bool>)
            out->items.push_back(long(v));
        else if constexpr (std::is_same_v<T, std::size_t>)
            out->items.push_back(long(v));
        else if constexpr (std::is_pointer_v<T>)
            out->end = Origin<T>::of(v);
        else
            put2(v, 0);
    }
    template <typename R>
    static void put2(const lexy::lexeme<R>& l, int)
    {
        item(l);
        if constexpr (std::is_pointer_v<typename R::iterator>)
            out->items.push_back(Origin<typename R::iterator>::of(l.end()));
    }
    template <typename It>
    static void put2(It it, long)
    {
        out->end = Origin<It>::of(it);
    }
    template <typename... Args>
    int operator()(const Args&... a) const
    {
        (put(a), ...);
        return 0;
    }
};
struct Both : Val
{
    Sink::cb sink() const
    {
        return {};
    }
};
template <typename Rule>
struct G
{
    static constexpr auto name  = "G";
    static constexpr auto rule  = Rule{} + dsl::position;
    static constexpr auto value = Both{};
};
template <typename G, typename Input>
std::string observe(const Input& in)
{
    using It = typename lexy::input_reader<Input>::iterator;
    Out o;
    out                = &o;
    Origin<It>::begin  = in.reader().position();
    auto on            = lexy::callback<void>([&](auto, const auto& e) {
        using E = std::decay_t<decltype(e)>;
        long b = Origin<It>::of(e.position()), x = b;
        const char* k = "?";
        {
            if constexpr (requires { e.end(); })
                x = Origin<It>::of(e.end());
            if constexpr (requires { e.message(); })
                k = e.message();
            else if constexpr (requires { e.name(); })
                k = e.name();
            else if constexpr (requires { e.string(); })
                k = "literal";
        }
        o.errors.push_back(err(k, std::size_t(b), std::size_t(x)));
    });
    auto r = lexy::parse<G>(in, on);
    o.ok   = r.has_value();
    if (lexy::match<G>(in) != o.errors.empty())
        return "match disagrees";
    return o.str();
}
// the items of the model are offsets; a range input reports their number instead
std::string ordinal(Out o, bool renumber)
{
    if (renumber)
        for (std::size_t i = 0; i < o.items.size(); ++i)
            o.items[i] = long(i);
    return o.str();
}
enum Kinds
{
    all = 1,
    plain_range = 2
};
template <typename Rule>
void run(const char* name, const std::string& what, const std::string& t, const Out& e, int kinds = all | plain_range)
{
    vh::step([&] { return std::string(name) + " on " + what; },
             [&] {
                 vh::transitions(t.size() + 1);
                 auto x = e.str();
                 vh::outcome(x.size() > 60 ? x.substr(0, 60) : x);
                 auto check = [&](const char* k, const std::string& want, const std::string& got) {
                     vh::traces(1);
                     if (want != got)
                         vh::fail(std::string(k) + ": expected " + want + " actual " + got);
                 };
                 check("string", x, observe<G<Rule>>(lexy::string_input<lexy::ascii_encoding>(t.data(), t.size())));
                 check("buffer", x, observe<G<Rule>>(lexy::buffer<lexy::utf8_char_encoding>(t.data(), t.size())));
                 if (kinds & all)
                 {
                     std::u16string u(t.begin(), t.end());
                     check("utf16", x, observe<G<Rule>>(lexy::string_input<lexy::utf16_encoding>(u.data(), u.size())));
                 }
                 if ((kinds & plain_range) && t.size() < 2000)
                 {
                     std::list<char> l(t.begin(), t.end());
                     check("range", ordinal(e, true), observe<G<Rule>>(lexy::range_input<lexy::ascii_encoding, std::list<char>::const_iterator>(l.begin(), l.end())));
                 }
             });
}
std::vector<std::size_t> sizes()
{
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i <= (vh::thorough() ? 140u : 40u); ++i)
        v.push_back(i);
    for (std::size_t s : {64, 128, 256, 512, 1024, 4096, 32768, 65536})
        for (long d = -1; d <= 1; ++d)
            v.push_back(s + std::size_t(d));
    if (vh::thorough())
        for (std::size_t s : {70000, 131072, 200000})
            v.push_back(s);
    return v;
}
constexpr auto A = dsl::capture(LEXY_LIT("a"));

//=== lists ===//
// policy: 0 no separator, 1 sep, 2 trailing_sep
// The text of a list: n items; dup: an extra separator after item dup; tail
struct Shape
{
    std::string text, what;
};
std::vector<Shape> shapes(std::size_t n, bool sep)
{
    std::vector<Shape> v;
    auto make = [&](std::size_t hole, std::size_t dup, bool trailing, const char* tail) {
        std::string s;
        for (std::size_t i = 0; i < n; ++i)
        {
            s += i == hole ? 'b' : 'a';
            if (sep && (i + 1 < n || trailing))
                s += ',';
            if (i == dup)
                s += ',';
        }
        s += tail;
        v.push_back({s, std::to_string(n) + " items" + (hole < n ? ", hole " + std::to_string(hole) : "") + (dup < n ? ", extra separator " + std::to_string(dup) : "") + (trailing ? ", trailing" : "") + ", then \"" + tail + "\""});
    };
    std::size_t no = ~std::size_t(0);
    for (auto tail : {"", "b", ",b", ",,"})
        for (int tr = 0; tr < (sep ? 2 : 1); ++tr)
            make(no, no, tr, tail);
    for (std::size_t k : {std::size_t(0), std::size_t(1), n / 2, n - 2, n - 1})
        if (k < n)
        {
            make(k, no, false, "");
            make(no, k, false, "");
        }
    return v;
}
// item_branch: the item is a branch (a missing item ends the list)
Out list_model(const std::string& t, int policy, bool item_branch, bool optional)
{
    Out         o;
    std::size_t p    = 0;
    auto        is   = [&](std::size_t i, char c) { return i < t.size() && t[i] == c; };
    auto        fail = [&](std::size_t at) {
        o.ok = false;
        o.errors.push_back(err("literal", at, at));
        return o;
    };
    if (!is(0, 'a'))
    {
        if (!optional)
            return fail(0);
        o.end = 0;
        return o;
    }
    o.items.push_back(0);
    p = 1;
    while (true)
    {
        if (policy != 0)
        {
            if (!is(p, ','))
                break;
            ++p;
        }
        if (is(p, 'a'))
        {
            o.items.push_back(long(p));
            ++p;
        }
        else if (!item_branch)
            return fail(p);
        else
        {
            if (policy == 1)
                o.errors.push_back(err("unexpected trailing separator", p - 1, p));
            break;
        }
    }
    o.end = long(p);
    return o;
}
constexpr auto NB = LEXY_LIT("") + A;
template <typename Rule>
void lists(const char* name, int policy, bool branch, bool optional)
{
    for (auto n : sizes())
        for (auto& s : shapes(n, policy != 0))
            run<Rule>(name, s.what, s.text, list_model(s.text, policy, branch, optional));
}
#define LISTS(ID, POLICY, BRANCH, OPT, ...)                                                        \
    [[maybe_unused]] int l##ID = parts::add<ID>([](auto) { lists<LEXY_DECAY_DECLTYPE(__VA_ARGS__)>(#__VA_ARGS__, POLICY, BRANCH, OPT); });
LISTS(0, 0, true, false, dsl::list(A))
LISTS(1, 1, true, false, dsl::list(A, dsl::sep(LEXY_LIT(","))))
LISTS(2, 2, true, false, dsl::list(A, dsl::trailing_sep(LEXY_LIT(","))))
LISTS(3, 1, false, false, dsl::list(NB, dsl::sep(LEXY_LIT(","))))
LISTS(4, 0, true, true, dsl::opt(dsl::list(A)))
LISTS(5, 1, true, true, dsl::opt(dsl::list(A, dsl::sep(LEXY_LIT(",")))))
LISTS(6, 2, true, true, dsl::opt(dsl::list(A, dsl::trailing_sep(LEXY_LIT(",")))))

//=== counted repetition ===//
// count ':' items
template <typename Rule>
void repeats(const char* name, int policy, int mode) // mode 0 discard, 1 list, 2 capture
{
    for (auto n : sizes())
        for (long d : {-1l, 0l, 1l})
            for (int tr = 0; tr < (policy ? 3 : 1); ++tr)
            {
                if (long(n) + d < 0)
                    continue;
                std::size_t m = std::size_t(long(n) + d);
                std::string t = std::to_string(n) + ":";
                std::size_t z = t.size();
                for (std::size_t i = 0; i < m; ++i)
                {
                    t += 'a';
                    if (policy && i + 1 < m)
                        t += ',';
                }
                t += tr == 1 ? "," : tr == 2 ? ",," : "";
                Out         o;
                std::size_t p  = z;
                auto        is = [&](char c) { return p < t.size() && t[p] == c; };
                for (std::size_t i = 0; i < n && o.ok; ++i)
                {
                    if (i > 0 && policy)
                    {
                        if (is(','))
                            ++p;
                        else
                        {
                            o.ok = false;
                            break;
                        }
                    }
                    if (!is('a'))
                        o.ok = false;
                    else
                    {
                        if (mode == 1)
                            o.items.push_back(long(p));
                        ++p;
                    }
                }
                if (!o.ok)
                    o.errors.push_back(err("literal", p, p));
                else if (n > 0 && is(',') && (policy == 1 || policy == 2))
                {
                    if (policy == 1)
                        o.errors.push_back(err("unexpected trailing separator", p, p + 1));
                    ++p;
                }
                if (o.ok && mode == 2)
                    o.items = {long(z), long(p)};
                o.end = long(p);
                run<Rule>(name, "count " + std::to_string(n) + " with " + std::to_string(m) + " items, tail " + std::to_string(tr), t, o, all);
            }
}
#define REPEATS(ID, POLICY, MODE, ...)                                                             \
    [[maybe_unused]] int r##ID = parts::add<ID>([](auto) { repeats<LEXY_DECAY_DECLTYPE(__VA_ARGS__)>(#__VA_ARGS__, POLICY, MODE); });
constexpr auto REP = dsl::repeat(dsl::integer<std::size_t>(dsl::digits<>) + LEXY_LIT(":"));
constexpr auto L   = LEXY_LIT("a");
REPEATS(10, 0, 0, REP(L))
REPEATS(11, 1, 0, REP(L, dsl::sep(LEXY_LIT(","))))
REPEATS(12, 2, 0, REP(L, dsl::trailing_sep(LEXY_LIT(","))))
REPEATS(13, 3, 0, REP(L, dsl::ignore_trailing_sep(LEXY_LIT(","))))
REPEATS(14, 0, 1, REP.list(A))
REPEATS(15, 1, 1, REP.list(A, dsl::sep(LEXY_LIT(","))))
REPEATS(16, 2, 1, REP.list(A, dsl::trailing_sep(LEXY_LIT(","))))
REPEATS(17, 3, 1, REP.list(A, dsl::ignore_trailing_sep(LEXY_LIT(","))))
REPEATS(18, 0, 2, REP.capture(L))
REPEATS(19, 1, 2, REP.capture(L, dsl::sep(LEXY_LIT(","))))

//=== fixed repetition ===//
template <std::size_t N, int Policy, typename Rule>
void times(const char* name)
{
    for (std::size_t m = N - 1; m <= N + 1; ++m)
        for (auto tail : {"", ",", ",,", "b"})
        {
            std::string t;
            for (std::size_t i = 0; i < m; ++i)
            {
                t += 'a';
                if (Policy && i + 1 < m)
                    t += ',';
            }
            t += tail;
            Out         o;
            std::size_t p  = 0;
            auto        is = [&](char c) { return p < t.size() && t[p] == c; };
            for (std::size_t i = 0; i < N && o.ok; ++i)
            {
                if (i > 0 && Policy && !(is(',') && ++p))
                    o.ok = false;
                else if (!is('a'))
                    o.ok = false;
                else
                {
                    o.items.push_back(long(p)), ++p;
                    o.items.push_back(long(p));
                }
            }
            if (!o.ok)
                o.errors.push_back(err("literal", p, p));
            else if (is(',') && (Policy == 1 || Policy == 2))
            {
                if (Policy == 1)
                    o.errors.push_back(err("unexpected trailing separator", p, p + 1));
                ++p;
            }
            o.end = long(p);
            run<Rule>(name, std::to_string(m) + " items then \"" + tail + "\" for " + std::to_string(N), t, o, all);
        }
}
template <std::size_t N>
void times_all()
{
    times<N, 0, LEXY_DECAY_DECLTYPE(dsl::times<N>(A))>("times(A)");
    times<N, 1, LEXY_DECAY_DECLTYPE(dsl::times<N>(A, dsl::sep(LEXY_LIT(","))))>("times(A, sep)");
    times<N, 2, LEXY_DECAY_DECLTYPE(dsl::times<N>(A, dsl::trailing_sep(LEXY_LIT(","))))>("times(A, trailing_sep)");
    times<N, 3, LEXY_DECAY_DECLTYPE(dsl::times<N>(A, dsl::ignore_trailing_sep(LEXY_LIT(","))))>("times(A, ignore_trailing_sep)");
}
[[maybe_unused]] int t0 = parts::add<20>([](auto) { times_all<1>(), times_all<2>(), times_all<3>(); });
[[maybe_unused]] int t1 = parts::add<21>([](auto) { times_all<4>(), times_all<5>(), times_all<8>(); });
[[maybe_unused]] int t2 = parts::add<22>([](auto) { times_all<9>(), times_all<17>(); });

//=== combinations of many alternatives ===//
struct dup_tag
{
    static constexpr auto name = "dup";
};
struct missing_tag
{
    static constexpr auto name = "missing";
};
// kind: 0 combination, 1 partial, 2 with own errors
Out comb_model(const std::string& t, std::size_t n, int kind)
{
    Out         o;
    bool        seen[26] = {};
    std::size_t have = 0, p = 0;
    while (have < n)
    {
        if (p < t.size() && t[p] >= 'a' && std::size_t(t[p] - 'a') < n)
        {
            auto& s = seen[t[p] - 'a'];
            if (s)
                o.errors.push_back(err(kind == 2 ? "dup" : "combination duplicate", p, p + 1));
            else
            {
                s = true;
                ++have;
                o.items.push_back(long(p));
            }
            ++p;
        }
        else if (kind == 1)
            break;
        else
        {
            o.ok = false;
            o.errors.push_back(err(kind == 2 ? "missing" : "exhausted choice", p, p));
            return o;
        }
    }
    o.end = long(p);
    return o;
}
template <std::size_t N, int Kind, typename Rule>
void comb(const char* name)
{
    auto go = [&](const std::string& t) {
        run<Rule>(name, "\"" + (t.size() > 60 ? t.substr(0, 60) + "..." : t) + "\"", t, comb_model(t, N, Kind), all);
    };
    std::string id;
    for (std::size_t i = 0; i < N; ++i)
        id += char('a' + i);
    std::vector<std::string> orders;
    for (std::size_t r = 0; r < N; ++r)
    {
        orders.push_back(id.substr(r) + id.substr(0, r));
        orders.push_back(std::string(orders.back().rbegin(), orders.back().rend()));
    }
    for (auto& o : orders)
    {
        go(o);
        go(o + "z"), go(o + o);
        for (std::size_t k = 0; k < N; ++k)
            go(o.substr(0, k)), go(o.substr(0, k) + "z" + o.substr(k));
    }
    for (auto& o : {orders[0], orders[1], orders[N / 2]})
        for (std::size_t i = 0; i <= N; ++i)
            for (std::size_t j = 0; j < N; ++j)
            {
                auto a = o, b = o;
                a.insert(i, 1, char('a' + j));
                go(a);
                a.insert(i, 1, char('a' + j));
                go(a);
                if (i < N)
                    b[i] = char('a' + j), go(b), go(b + b);
            }
    // many duplicates
    for (std::size_t k : {5u, 7u, 8u, 127u, 128u, 255u, 256u, 300u})
        go("a" + std::string(k, 'a') + id.substr(1)), go(id.substr(0, N - 1) + std::string(k, id[0]) + id.substr(N - 1));
    if (N <= 4) // everything
    {
        std::vector<std::string> level{""};
        for (std::size_t l = 0; l <= N + 2; ++l)
        {
            std::vector<std::string> next;
            for (auto& t : level)
            {
                go(t);
                for (std::size_t j = 0; j <= N; ++j)
                    next.push_back(t + char(j == N ? 'z' : 'a' + j));
            }
            level = std::move(next);
        }
    }
}
template <char C>
constexpr auto alt = dsl::capture(dsl::lit_c<C>);
template <std::size_t... I>
void comb_all(std::index_sequence<I...>)
{
    constexpr auto N = sizeof...(I);
    comb<N, 0, LEXY_DECAY_DECLTYPE(dsl::combination(alt<char('a' + I)>...))>("combination");
    comb<N, 1, LEXY_DECAY_DECLTYPE(dsl::partial_combination(alt<char('a' + I)>...))>("partial_combination");
    comb<N, 2, LEXY_DECAY_DECLTYPE(dsl::combination(alt<char('a' + I)>...).template missing_error<missing_tag>.template duplicate_error<dup_tag>)>("combination with own errors");
}
[[maybe_unused]] int c0 = parts::add<30>([](auto) { comb_all(std::make_index_sequence<2>{}), comb_all(std::make_index_sequence<3>{}); });
[[maybe_unused]] int c1 = parts::add<31>([](auto) { comb_all(std::make_index_sequence<4>{}), comb_all(std::make_index_sequence<8>{}); });
[[maybe_unused]] int c2 = parts::add<32>([](auto) { comb_all(std::make_index_sequence<9>{}); });
[[maybe_unused]] int c3 = parts::add<33>([](auto) { comb_all(std::make_index_sequence<17>{}); });

//=== flags of every width ===//
template <typename Int>
struct En
{
    enum class E : Int
    {
        none = 0,
        a    = 1,
        b    = 2,
        c    = Int(Int(1) << (sizeof(Int) * 8 - 2)),
        d    = Int(std::make_unsigned_t<Int>(1) << (sizeof(Int) * 8 - 1)),
        e    = Int(a | b | 8),
        f    = Int(std::make_unsigned_t<Int>(~std::make_unsigned_t<Int>(0)))
    };
    static constexpr auto table = lexy::symbol_table<E>.template map<LEXY_SYMBOL("a")>(E::a).template map<LEXY_SYMBOL("b")>(E::b).template map<LEXY_SYMBOL("c")>(E::c).template map<LEXY_SYMBOL("d")>(E::d).template map<LEXY_SYMBOL("e")>(E::e).template map<LEXY_SYMBOL("f")>(E::f);
};
template <typename Int, typename En<Int>::E Default, typename Rule>
void flags(const char* name)
{
    using E                = typename En<Int>::E;
    E                 v[]  = {E::a, E::b, E::c, E::d, E::e, E::f};
    std::vector<std::string> level{""};
    for (int l = 0; l <= (vh::thorough() ? 6 : 4); ++l)
    {
        std::vector<std::string> next;
        for (auto& t : level)
        {
            Out         o;
            Int         x = Int(Default);
            std::size_t p = 0;
            for (; p < t.size() && t[p] >= 'a' && t[p] <= 'f'; ++p)
            {
                Int f = Int(v[t[p] - 'a']);
                if (Int(x & f) == f)
                    o.errors.push_back(err("duplicate flag", p, p + 1));
                x = Int(x | f);
            }
            o.items = {long(x)};
            o.end   = long(p);
            vh::step([&] { return std::string(name) + " on \"" + t + "\""; },
                     [&] {
                         vh::transitions(t.size() + 1);
                         vh::traces(2);
                         auto a = observe<G<Rule>>(lexy::string_input<lexy::ascii_encoding>(t.data(), t.size()));
                         auto b = observe<G<Rule>>(lexy::buffer<lexy::utf8_encoding>(reinterpret_cast<const char8_t*>(t.data()), t.size()));
                         vh::outcome(o.str());
                         if (a != o.str() || b != o.str())
                             vh::fail("expected " + o.str() + " actual " + a + " and " + b);
                     });
            for (char c : {'a', 'b', 'c', 'd', 'e', 'f', 'z'})
                next.push_back(t + c);
        }
        level = std::move(next);
    }
}
template <typename Int>
void flags_all(const char* name)
{
    using E = typename En<Int>::E;
    flags<Int, E::none, LEXY_DECAY_DECLTYPE(dsl::flags(dsl::symbol<En<Int>::table>))>(name);
    flags<Int, E::b, LEXY_DECAY_DECLTYPE(dsl::flags<E::b>(dsl::symbol<En<Int>::table>))>(name);
    flags<Int, E::d, LEXY_DECAY_DECLTYPE(dsl::flags<E::d>(dsl::symbol<En<Int>::table>))>(name);
}
[[maybe_unused]] int f0 = parts::add<40>([](auto) { flags_all<unsigned char>("8 bit flags"), flags_all<signed char>("signed 8 bit flags"); });
[[maybe_unused]] int f1 = parts::add<41>([](auto) { flags_all<unsigned short>("16 bit flags"), flags_all<int>("int flags"); });
[[maybe_unused]] int f2 = parts::add<42>([](auto) { flags_all<unsigned>("32 bit flags"), flags_all<unsigned long>("64 bit flags"); });
} // namespace
PARTS_MAIN
