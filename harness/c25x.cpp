// C25: a scan production against the same production written as a rule: same trace (including what is tried and
// given up), parse tree, errors and value on every input.
#include "vh.hpp"
#include <iterator>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
namespace
{
namespace dsl      = lexy::dsl;
constexpr auto A   = LEXY_LIT("a");
constexpr auto B   = LEXY_LIT("b");
constexpr auto C   = LEXY_LIT("c");
constexpr auto AB  = LEXY_LIT("ab");
constexpr auto ABC = LEXY_LIT("abc");
constexpr auto id  = dsl::identifier(dsl::ascii::alpha);
struct Text
{
    using return_type = std::string;
    template <typename... T>
    std::string operator()(const T&... t) const
    {
        std::string s = "(";
        auto        f = [&](const auto& v) {
            using V = std::decay_t<decltype(v)>;
            if constexpr (std::is_same_v<V, std::string>)
                s += v;
            else if constexpr (std::is_integral_v<V>)
                s += std::to_string(v);
            else if constexpr (std::is_same_v<V, lexy::nullopt>)
                s += "~";
            else
                s += std::string(v.begin(), v.end());
            s += ",";
        };
        (f(t), ...);
        return s + ")";
    }
};
constexpr Text text{};
struct Q // branch production that may fail late
{
    static constexpr auto name  = "Q";
    static constexpr auto rule  = A >> B + dsl::opt(C);
    static constexpr auto value = text;
};
struct T : lexy::token_production
{
    static constexpr auto name  = "T";
    static constexpr auto rule  = A >> B + dsl::if_(C);
    static constexpr auto value = lexy::noop;
};
struct K
{
    static constexpr auto name  = "K";
    static constexpr auto rule  = id.reserve(LEXY_LIT("ab"));
    static constexpr auto value = text;
};
// inside of both: whitespace, a surrounding production and something behind
template <typename P, bool Ws>
struct Root;
template <typename P>
struct Root<P, false>
{
    static constexpr auto name  = "Root";
    static constexpr auto rule  = dsl::opt(LEXY_LIT("x")) + dsl::p<P> + dsl::opt(LEXY_LIT("c")) + dsl::eof;
    static constexpr auto value = text;
};
template <typename P>
struct Root<P, true> : Root<P, false>
{
    static constexpr auto whitespace = dsl::lit_c<' '>;
};
using S  = std::string;
template <typename V>
using SR = lexy::scan_result<V>;
#define RULE(N, ...)                                                                                                   \
    struct N##_r                                                                                                       \
    {                                                                                                                  \
        static constexpr auto name  = #N;                                                                              \
        static constexpr auto rule  = __VA_ARGS__;                                                                     \
        static constexpr auto value = text;                                                                            \
    };
#define SCAN(N, ...)                                                                                                   \
    struct N##_s : lexy::scan_production<S>                                                                            \
    {                                                                                                                  \
        static constexpr auto name = #N;                                                                               \
        template <typename Ctx, typename R>                                                                            \
        static SR<S> scan(lexy::rule_scanner<Ctx, R>& s)                                                               \
        {                                                                                                              \
            __VA_ARGS__                                                                                                \
        }                                                                                                              \
    };
#define OR_FAIL                                                                                                        \
    if (!s)                                                                                                            \
        return lexy::scan_failed;
// a value-less production
RULE(Choice, ABC | AB | A >> A | dsl::else_ >> B)
SCAN(Choice, if (s.branch(ABC)) return S("()"); if (s.branch(AB)) return S("()"); if (s.branch(A >> A)) { OR_FAIL return S("()"); } s.parse(B); OR_FAIL return S("()");)
RULE(Prod, dsl::p<Q> | dsl::else_ >> C)
SCAN(Prod, SR<S> r; if (s.branch(r, dsl::p<Q>)) { OR_FAIL return "(" + r.value() + ",)"; } s.parse(C); OR_FAIL return S("()");)
RULE(While, dsl::while_(A | B >> C) + C)
SCAN(While, while (true) { if (s.branch(A)) continue; if (s.branch(B >> C)) { OR_FAIL continue; } break; } s.parse(C); OR_FAIL return S("()");)
RULE(Peek, dsl::peek(A + B) >> dsl::p<Q> | dsl::peek(C) >> C | dsl::else_ >> A)
SCAN(Peek, if (s.peek(A + B)) { SR<S> r; s.parse(r, dsl::p<Q>); OR_FAIL return "(" + r.value() + ",)"; } if (s.peek(C)) { s.parse(C); return S("()"); } s.parse(A); OR_FAIL return S("()");)
RULE(PeekNot, dsl::peek_not(AB) >> A | dsl::else_ >> AB)
SCAN(PeekNot, if (s.branch(dsl::peek_not(AB))) { s.parse(A); OR_FAIL return S("()"); } s.parse(AB); OR_FAIL return S("()");)
RULE(Int, dsl::integer<signed char>(dsl::digits<dsl::octal>) + dsl::opt(A >> dsl::integer<int>(dsl::digits<dsl::hex>)))
SCAN(Int, auto v = s.template integer<signed char>(dsl::digits<dsl::octal>); OR_FAIL SR<int> w; if (s.branch(w, A >> dsl::integer<int>(dsl::digits<dsl::hex>))) { OR_FAIL return "(" + std::to_string(v.value()) + "," + std::to_string(w.value()) + ",)"; }
     return "(" + std::to_string(v.value()) + ",~,)";)
RULE(Ident, dsl::p<K> + dsl::opt(LEXY_KEYWORD("c", id)))
SCAN(Ident, SR<S> r; s.parse(r, dsl::p<K>); OR_FAIL auto o = s.branch(LEXY_KEYWORD("c", id)); return "(" + r.value() + (o ? ",)" : ",~,)");)
RULE(Capture, dsl::capture(dsl::token(A + dsl::while_(B))) + dsl::capture(dsl::p<T>))
SCAN(Capture, auto a = s.capture(dsl::token(A + dsl::while_(B))); OR_FAIL auto q = s.capture(dsl::p<T>); OR_FAIL return Text{}(a.value(), q.value());)
RULE(Recover, dsl::try_(A + B + C, dsl::find(C).limit(B)))
SCAN(Recover, s.parse(A + B + C); if (!s) { auto g = s.error_recovery(); bool ok = false; while (true) { if (s.peek(C)) { ok = true; break; } if (s.peek(B) || s.is_at_eof()) break; s.discard(dsl::ascii::character); }
     if (ok) std::move(g).finish(); else { std::move(g).cancel(); return lexy::scan_failed; } } return S("()");)
RULE(Set, (dsl::literal_set(A, ABC) | LEXY_LIT("b") / LEXY_LIT("c")) + dsl::ascii::case_folding(LEXY_LIT("B")))
SCAN(Set, if (!s.branch(dsl::literal_set(A, ABC))) { if (!s.branch(LEXY_LIT("b") / LEXY_LIT("c"))) { s.fatal_error(lexy::exhausted_choice{}, s.position()); return lexy::scan_failed; } } s.parse(dsl::ascii::case_folding(LEXY_LIT("B"))); OR_FAIL return S("()");)

template <typename P>
std::string show(const std::string& in, int what)
{
    auto        input = lexy::string_input<lexy::utf8_char_encoding>(in.data(), in.size());
    std::string out;
    auto        it = std::back_inserter(out);
    if (what == 0)
        lexy::trace_to<P>(it, input);
    else if (what == 1)
    {
        lexy::parse_tree_for<decltype(input)> tree;
        auto                                  r = lexy::parse_as_tree<P>(tree, input, lexy_ext::report_error.to(it));
        out += r.is_success() ? "ok" : r.is_fatal_error() ? "fatal" : "rec";
        if (!tree.empty())
            lexy::visualize_to(std::back_inserter(out), tree);
        out += std::string(tree.remaining_input().begin(), tree.remaining_input().end());
    }
    else
    {
        auto r = lexy::parse<P>(input, lexy_ext::report_error.to(it));
        out += r.is_success() ? "ok" : r.is_fatal_error() ? "fatal" : "rec";
        if (r.has_value())
            out += r.value();
    }
    return out;
}
template <typename Rule, typename Scan, bool Ws>
void pair(const char* chars)
{
    std::string        alphabet = std::string(chars) + (Ws ? " " : "");
    const std::size_t  max      = alphabet.size() > 5 ? (vh::thorough() ? 6 : 5) : vh::thorough() ? 7 : 6;
    std::vector<std::string> all{""};
    for (std::size_t i = 0; i < all.size(); ++i)
        if (all[i].size() < max)
            for (char c : alphabet)
                all.push_back(all[i] + c);
    for (auto& in : all)
        vh::step([&] { return std::string(Rule::name) + (Ws ? " with whitespace" : "") + " on \"" + in + "\""; },
                 [&] {
                     // (a scan has to look ahead and skip piecewise to recover, which the trace shows)
                     for (int what = std::is_same_v<Rule, Recover_r> ? 1 : 0; what < 3; ++what)
                     {
                         auto want = show<Root<Rule, Ws>>(in, what), got = show<Root<Scan, Ws>>(in, what);
                         vh::transitions(in.size());
                         vh::traces(2);
                         if (what == 0)
                             vh::outcome(Rule::name + want);
                         if (want != got)
                             vh::fail(std::string(what == 0 ? "trace" : what == 1 ? "tree" : "parse") + " as a scan:\n" + got + "\nas a rule:\n" + want);
                     }
                 });
}
void run()
{
#define PAIR(N, ...)                                                                                                   \
    pair<N##_r, N##_s, false>(__VA_ARGS__);                                                                            \
    pair<N##_r, N##_s, true>(__VA_ARGS__);
    PAIR(Choice, "abcx")
    PAIR(Prod, "abcx")
    PAIR(While, "abcx")
    PAIR(Peek, "abcx")
    PAIR(PeekNot, "abcx")
    PAIR(Int, "17aFx")
    PAIR(Ident, "abc1x")
    PAIR(Capture, "abcx")
    PAIR(Recover, "abcx")
    PAIR(Set, "abBcx")
}
} // namespace
VH_MAIN(run)
