// C25: manual scanning behaves like the rules it invokes.
// Every sequence of scanner operations up to a depth on every short input, through lexy::scan and
// through dsl::scan under each action, compared after every single operation with a small reference
// scanner that knows the documented effect of each operation.
#include "parts.hpp"
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>
#include <memory>
#include <optional>

namespace
{
namespace dsl = lexy::dsl;
constexpr auto A  = LEXY_LIT("a");
constexpr auto B  = LEXY_LIT("b");
constexpr auto AB = LEXY_LIT("ab");

//=== what the runs write down ===//
struct Log
{
    std::vector<std::string> ops, errs;
    std::string              tree;
    void                     clear()
    {
        ops.clear();
        errs.clear();
        tree.clear();
    }
};
inline std::string str(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
        r += s + "; ";
    return r;
}
struct TagE
{
    static LEXY_CONSTEVAL auto name()
    {
        return "my error";
    }
};
struct TagF
{
    static LEXY_CONSTEVAL auto name()
    {
        return "my fatal error";
    }
};
template <typename It>
struct Errs
{
    Log* log;
    It   begin;
    bool names;
    struct S
    {
        using return_type = std::size_t;
        const Errs* self;
        std::size_t n = 0;
        long        at(It it) const
        {
            return long(std::distance(self->begin, it));
        }
        template <typename Ctx, typename Reader, typename Tag>
        void operator()(const Ctx& c, const lexy::error<Reader, Tag>& e)
        {
            ++n;
            std::string r;
            if constexpr (std::is_same_v<Tag, lexy::expected_literal>)
                r = "literal " + std::string(e.string(), e.string() + e.length()) + "@" + std::to_string(e.index()) + " ["
                    + std::to_string(at(e.position())) + ")";
            else if constexpr (std::is_same_v<Tag, lexy::expected_char_class>)
                r = std::string(e.name()) + " [" + std::to_string(at(e.position())) + ")";
            else if constexpr (std::is_same_v<Tag, lexy::expected_keyword>)
                r = "keyword";
            else
                r = std::string(e.message()) + " [" + std::to_string(at(e.begin())) + "," + std::to_string(at(e.end())) + ")";
            r += " in ";
            if (self->names)
                r += c.production();
            self->log->errs.push_back(r + "@" + std::to_string(at(c.position())));
        }
        std::size_t finish() &&
        {
            return n;
        }
    };
    S sink() const
    {
        return {this, 0};
    }
};

//=== the productions that are scanned ===//
struct St // the parse state
{
    int         tag = 0;
    const int*  ops = nullptr;
    int         n   = 0;
    int         ret = 0; // 0: by state, 1: always a value, 2: never
    void*       run = nullptr;
};
struct P
{
    static LEXY_CONSTEVAL auto name()
    {
        return "P";
    }
    static constexpr auto rule  = dsl::capture(A) + B;
    static constexpr auto value = lexy::callback<int>([](auto lex) { return 100 + int(std::distance(lex.begin(), lex.end())); });
};
struct PB
{
    static LEXY_CONSTEVAL auto name()
    {
        return "PB";
    }
    static constexpr auto rule  = dsl::capture(A) >> dsl::capture(B);
    static constexpr auto value = lexy::callback<int>([](auto a, auto b) { return 200 + 10 * int(std::distance(a.begin(), a.end())) + int(std::distance(b.begin(), b.end())); });
};
struct N // no value
{
    static LEXY_CONSTEVAL auto name()
    {
        return "N";
    }
    static constexpr auto rule = A + dsl::opt(B >> B);
};
struct T : lexy::token_production
{
    static LEXY_CONSTEVAL auto name()
    {
        return "T";
    }
    static constexpr auto rule = B + dsl::if_(A);
};
struct L // a list, the value of which is made by a sink
{
    static LEXY_CONSTEVAL auto name()
    {
        return "L";
    }
    static constexpr auto rule  = dsl::list(dsl::capture(A), dsl::sep(B));
    static constexpr auto value = lexy::count;
};
struct Rest
{
    static constexpr auto rule = dsl::while_(A | B) + dsl::eof;
};

enum Op
{
    o_lit,
    o_lit2,
    o_cap,
    o_capres,
    o_pos,
    o_prod,
    o_prod_t,
    o_noval,
    o_list,
    o_branch,
    o_branch2,
    o_branch_val,
    o_branch_prod,
    o_branch_prod_t,
    o_branch_noval,
    o_peek,
    o_peek_eof,
    o_discard,
    o_discard2,
    o_discard_alpha,
    o_error,
    o_error_range,
    o_error_msg,
    o_fatal,
    o_fatal_msg,
    o_fatal_msg_range,
    o_recover,
    o_finish,
    o_cancel,
    o_int,
    o_int_base,
    o_captok,
    o_eof,
    o_try,
    o_two,
    o_choice,
    o_remaining,
    o_count
};
inline const char* opname(int o)
{
    static const char* n[] = {"parse(a)",        "parse(ab)",        "capture(b)",      "parse(result,capture(a))",
                              "parse(position)", "parse(P{})",       "parse<P>()",      "parse(p<N>)",
                              "parse<L>()",      "branch(a)",        "branch(a>>b)",    "branch(result,a>>position+b)",
                              "branch(result,PB{})", "branch<PB>(result)", "branch(p<N>)", "peek(ab)",
                              "peek(eof)",       "discard(a)",       "discard(ab)",     "discard(alpha)",
                              "error(pos)",      "error(range)",     "error(msg)",      "fatal_error(tag)",
                              "fatal_error(msg)", "fatal_error(msg,range)", "error_recovery()", "finish()",
                              "cancel()",        "integer<int8>(digits)", "integer<int,hex>(n_digits)", "capture(p<T>)",
                              "parse(eof)",      "parse(try_(ab))",  "parse<Two>(position+a+position)", "parse(a|b>>a)",
                              "remaining_input()"};
    static_assert(sizeof(n) / sizeof(*n) == o_count);
    return n[o];
}

//=== the reference scanner ===//
struct Node
{
    std::string label;
    long        b, e;
    std::string kids; // of a production
    bool        prod = false;
};
struct Model
{
    std::string_view t;
    bool             ws    = false; // whitespace is skipped
    bool             names = true;
    std::string      ctx; // the surrounding production
    long             ctx0 = 0;
    long             pos  = 0;
    enum
    {
        ok,
        failed,
        recovery
    } st = ok;
    int                            guards = 0;
    Log                            log;
    std::vector<std::vector<Node>> frames{1};

    static std::string show(const std::vector<Node>& v)
    {
        std::string r;
        for (auto& n : v)
            r += n.prod ? n.label + "(" + n.kids + ")" : n.label + "[" + std::to_string(n.b) + "," + std::to_string(n.e) + ")";
        return r;
    }
    void token(const char* kind, long b, long e)
    {
        auto& f = frames.back();
        if (b == e && kind != std::string("position") && kind != std::string("EOF") && kind != std::string("literal"))
            return;
        if (kind == std::string("error token") && !f.empty() && f.back().label == "error token" && !f.back().prod)
        {
            f.back().e = e;
            return;
        }
        f.push_back({kind, b, e, "", false});
    }
    void skip()
    {
        if (!ws)
            return;
        long b = pos;
        while (pos < long(t.size()) && t[pos] == ' ')
            ++pos;
        token("whitespace", b, pos);
    }
    void err(const std::string& s)
    {
        log.errs.push_back(s + " in " + (names ? ctx : "") + "@" + std::to_string(ctx0));
    }
    bool at(char c) const
    {
        return pos < long(t.size()) && t[pos] == c;
    }
    bool lit(const std::string& s, bool skipws = true)
    {
        long i = 0;
        while (i < long(s.size()) && pos + i < long(t.size()) && t[pos + i] == s[i])
            ++i;
        if (i < long(s.size()))
        {
            token("error token", pos, pos + i);
            err("literal " + s + "@" + std::to_string(i) + " [" + std::to_string(pos) + ")");
            pos += i;
            return false;
        }
        token("literal", pos, pos + i);
        pos += i;
        if (skipws)
            skip();
        return true;
    }
    template <typename F>
    bool production(const char* name, F f)
    {
        auto c = ctx;
        auto c0 = ctx0;
        ctx  = name;
        ctx0 = pos;
        long b = pos;
        frames.emplace_back();
        bool r    = f();
        auto kids = std::move(frames.back());
        frames.pop_back();
        ctx  = c;
        ctx0 = c0;
        if (r)
        {
            if (kids.empty())
                kids.push_back({"position", b, b, "", false});
            frames.back().push_back({name, b, pos, show(kids), true});
        }
        else
            token("error token", b, pos);
        return r;
    }
    bool match(const std::string& s, long& end) const
    {
        end = pos;
        for (char c : s)
        {
            if (end >= long(t.size()) || t[end] != c)
                return false;
            ++end;
        }
        return true;
    }
    std::string lexeme(long b, long e) const
    {
        return "<" + std::to_string(b) + "," + std::to_string(e) + ">";
    }
    // The effect of one operation; the result is what the scanner's user sees.
    std::string apply(int op)
    {
        bool        r = true, is_branch = false;
        std::string v = "-"; // no value
        if (op == o_recover)
        {
            if (st != failed || guards == 4)
                return "n/a";
            ++guards;
            st = recovery;
            return "recovering";
        }
        if (op == o_finish || op == o_cancel)
        {
            if (guards == 0)
                return "n/a";
            --guards;
            st = op == o_finish ? ok : failed;
            return op == o_finish ? "finished" : "cancelled";
        }
        switch (op)
        {
        case o_error:
            err("my error [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
            return "raised";
        case o_error_range:
            err("my error [0," + std::to_string(pos) + ")");
            return "raised";
        case o_error_msg:
            err("msg [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
            return "raised";
        case o_fatal:
            err("my fatal error [0," + std::to_string(pos) + ")");
            st = failed;
            return "raised";
        case o_fatal_msg:
            err("fatal [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
            st = failed;
            return "raised";
        case o_fatal_msg_range:
            err("fatal [0," + std::to_string(pos) + ")");
            st = failed;
            return "raised";
        case o_remaining: {
            long e = pos;
            while (e < long(t.size()) && (t[e] == 'a' || t[e] == 'b'))
                ++e;
            return e == long(t.size()) ? "only letters" : "not only letters";
        }
        default:
            break;
        }
        if (st == failed)
        {
            switch (op)
            {
            case o_branch:
            case o_branch2:
            case o_branch_noval:
            case o_peek:
            case o_peek_eof:
            case o_discard:
            case o_discard2:
            case o_discard_alpha:
                return "false";
            case o_branch_val:
            case o_branch_prod:
            case o_branch_prod_t:
                return "false -";
            case o_lit:
            case o_lit2:
            case o_noval:
            case o_eof:
            case o_try:
            case o_choice:
                return "";
            default:
                return "-";
            }
        }
        long e;
        switch (op)
        {
        case o_lit:
            r = lit("a");
            v = "";
            break;
        case o_lit2:
            r = lit("ab");
            v = "";
            break;
        case o_cap:
        case o_capres: {
            long b = pos;
            if ((r = lit(op == o_cap ? "b" : "a", false)))
            {
                v = lexeme(b, pos);
                skip();
            }
            break;
        }
        case o_pos:
            v = std::to_string(pos);
            token("position", pos, pos);
            break;
        case o_prod:
        case o_prod_t:
            r = production("P", [&] { return lit("a") && lit("b"); });
            if (r)
                v = "101";
            break;
        case o_noval:
            r = production("N", [&] {
                if (!lit("a"))
                    return false;
                if (at('b'))
                    return lit("b") && lit("b");
                return true;
            });
            v = "";
            break;
        case o_list: {
            int n = 0;
            r     = production("L", [&] {
                if (!lit("a"))
                    return false;
                ++n;
                while (at('b'))
                {
                    long sep = pos;
                    lit("b", false);
                    skip();
                    long end = pos;
                    if (!at('a'))
                    {
                        // recovered
                        err("unexpected trailing separator [" + std::to_string(sep) + "," + std::to_string(end) + ")");
                        break;
                    }
                    lit("a");
                    ++n;
                }
                return true;
            });
            if (r)
                v = std::to_string(n);
            break;
        }
        case o_branch:
            is_branch = true;
            if (!at('a'))
                return "false";
            lit("a");
            break;
        case o_branch2:
            is_branch = true;
            if (!at('a'))
                return "false";
            lit("a");
            r = lit("b");
            break;
        case o_branch_val: {
            is_branch = true;
            if (!at('a'))
                return "false -";
            lit("a");
            long p = pos;
            token("position", pos, pos);
            r = lit("b");
            v = r ? std::to_string(p) : "-";
            break;
        }
        case o_branch_prod:
        case o_branch_prod_t:
            is_branch = true;
            if (!at('a'))
                return "false -";
            r = production("PB", [&] { return lit("a") && lit("b"); });
            v = r ? "211" : "-";
            break;
        case o_branch_noval:
            is_branch = true;
            if (!at('a'))
                return "false";
            r = production("PB", [&] { return lit("a") && lit("b"); });
            break;
        case o_peek:
            return match("ab", e) ? "true" : "false";
        case o_peek_eof:
            return pos == long(t.size()) ? "true" : "false";
        case o_discard:
        case o_discard2: {
            r = match(op == o_discard ? "a" : "ab", e);
            if (r)
            {
                token("error token", pos, e);
                pos = e;
            }
            return r ? "true" : "false";
        }
        case o_discard_alpha:
            r = at('a') || at('b');
            if (r)
            {
                token("error token", pos, pos + 1);
                ++pos;
            }
            return r ? "true" : "false";
        case o_int: {
            long b = pos, val = 0;
            while (at('1'))
            {
                ++pos;
                val = val * 10 + 1;
            }
            if (pos == b)
            {
                err("digit.decimal [" + std::to_string(pos) + ")");
                r = false;
                break;
            }
            token("digits", b, pos);
            if (val > 127)
            {
                err("integer overflow [" + std::to_string(b) + "," + std::to_string(pos) + ")");
                v = "overflow";
            }
            else
                v = std::to_string(val);
            skip();
            break;
        }
        case o_int_base: {
            long b = pos, val = 0, i = 0;
            while (i < 2 && (at('1') || at('a') || at('b')))
            {
                val = val * 16 + (at('1') ? 1 : at('a') ? 10 : 11);
                ++pos;
                ++i;
            }
            if (i < 2)
            {
                token("digits", b, pos);
                err("digit.hex [" + std::to_string(pos) + ")");
                // an integer that has started is recovered
                r = i > 0;
                v = r ? "recovered" : "-";
                if (r)
                    skip();
                break;
            }
            token("digits", b, pos);
            v = std::to_string(val);
            skip();
            break;
        }
        case o_captok: {
            long b = pos;
            bool w = ws;
            ws     = false;
            r      = production("T", [&] {
                if (!lit("b"))
                    return false;
                if (at('a'))
                    lit("a");
                return true;
            });
            ws     = w;
            if (r)
            {
                v = lexeme(b, pos);
                skip();
            }
            break;
        }
        case o_eof:
            v = "";
            if (pos == long(t.size()))
                token("EOF", pos, pos);
            else
                err("expected EOF [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
            break;
        case o_try:
            v = "";
            if (!lit("ab"))
                skip(); // as whatever recovers would
            break;
        case o_two: {
            long p = pos;
            token("position", pos, pos);
            if ((r = lit("a")))
            {
                v = std::to_string(p) + "/" + std::to_string(pos);
                token("position", pos, pos);
            }
            break;
        }
        case o_choice:
            v = "";
            if (at('a'))
                lit("a");
            else if (at('b'))
            {
                lit("b");
                r = lit("a");
            }
            else
            {
                err("exhausted choice [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
                r = false;
            }
            break;
        default:
            vh::fail("no model of " + std::to_string(op));
        }
        if (!r)
            st = failed;
        if (is_branch)
            return v == "-" && (op == o_branch || op == o_branch2 || op == o_branch_noval) ? "true" : "true " + v;
        return v;
    }
};

//=== the real scanner ===//
template <typename It>
struct Run
{
    It          begin;
    Log         log;
    const int*  ops;
    int         n;
    const char* bad = nullptr;
    bool        quiet = false; // errors are not reported
    std::string want;
    long        at(It it) const
    {
        return long(std::distance(begin, it));
    }
    template <typename Lexeme>
    std::string lexeme(const Lexeme& l) const
    {
        return "<" + std::to_string(at(l.begin())) + "," + std::to_string(at(l.end())) + ">";
    }
    template <typename Sc>
    void status(const Sc& s)
    {
        auto  rest = s.remaining_input().reader();
        auto& o    = log.ops.back();
        o += " -> ";
        o += s ? "ok " : "not ok ";
        o += std::to_string(at(s.position()));
        if (s.is_at_eof())
            o += " eof";
        if (rest.position() != s.position())
            bad = "remaining_input() starts elsewhere";
    }
    template <typename Sc>
    std::string apply(int op, Sc& s, void* guards, int& nguards)
    {
        using Reader = decltype(s.remaining_input().reader());
        using Lex    = lexy::lexeme<Reader>;
        using G      = decltype(s.error_recovery());
        auto val     = [](const auto& r) { return r ? std::to_string(r.value()) : std::string("-"); };
        auto lex     = [&](const auto& r) { return r ? lexeme(r.value()) : std::string("-"); };
        auto b       = [](bool x) { return std::string(x ? "true" : "false"); };
        auto p       = [&](const auto& r) { return r ? std::to_string(at(r.value())) : std::string("-"); };
        auto gs      = static_cast<G*>(guards);
        switch (op)
        {
        case o_lit:
            s.parse(A);
            return "";
        case o_lit2:
            s.parse(AB);
            return "";
        case o_cap:
            return lex(s.capture(B));
        case o_capres: {
            lexy::scan_result<Lex> r;
            s.parse(r, dsl::capture(A));
            return lex(r);
        }
        case o_pos: {
            lexy::scan_result<It> r;
            s.parse(r, dsl::position);
            return p(r);
        }
        case o_prod:
            return val(s.parse(P{}));
        case o_prod_t:
            return val(s.template parse<P>());
        case o_noval:
            s.parse(dsl::p<N>);
            return "";
        case o_list:
            return val(s.template parse<L>());
        case o_branch:
            return b(s.branch(A));
        case o_branch2:
            return b(s.branch(A >> B));
        case o_branch_val: {
            lexy::scan_result<It> r;
            bool                  x = s.branch(r, A >> dsl::position + B);
            return b(x) + " " + p(r);
        }
        case o_branch_prod: {
            lexy::scan_result<int> r;
            bool                   x = s.branch(r, PB{});
            return b(x) + " " + val(r);
        }
        case o_branch_prod_t: {
            lexy::scan_result<int> r;
            bool                   x = s.template branch<PB>(r);
            return b(x) + " " + val(r);
        }
        case o_branch_noval:
            return b(s.branch(dsl::p<PB>));
        case o_peek:
            return b(s.peek(AB));
        case o_peek_eof:
            return b(s.peek(dsl::eof));
        case o_discard:
            return b(s.discard(A));
        case o_discard2:
            return b(s.discard(AB));
        case o_discard_alpha:
            return b(s.discard(dsl::ascii::alpha));
        case o_error:
            s.error(TagE{}, s.position());
            return "raised";
        case o_error_range:
            s.error(TagE{}, begin, s.position());
            return "raised";
        case o_error_msg:
            s.error("msg", s.position());
            return "raised";
        case o_fatal:
            s.fatal_error(TagF{}, begin, s.position());
            return "raised";
        case o_fatal_msg:
            s.fatal_error("fatal", s.position());
            return "raised";
        case o_fatal_msg_range:
            s.fatal_error("fatal", begin, s.position());
            return "raised";
        case o_recover:
            // only allowed in the failed state; the driver knows
            ::new (static_cast<void*>(gs + nguards)) G(s.error_recovery());
            ++nguards;
            return "recovering";
        case o_finish:
            std::move(gs[--nguards]).finish();
            return "finished";
        case o_cancel:
            std::move(gs[--nguards]).cancel();
            return "cancelled";
        case o_int: {
            auto r = s.template integer<std::int8_t>(dsl::digits<>);
            return !r ? "-" : quiet && want == "overflow" ? want : overflowed() ? "overflow" : std::to_string(int(r.value()));
        }
        case o_int_base: {
            auto e = log.errs.size();
            auto r = s.template integer<int, dsl::hex>(dsl::n_digits<2, dsl::hex>);
            return !r ? "-" : quiet && want == "recovered" ? want : log.errs.size() > e ? "recovered" : std::to_string(r.value());
        }
        case o_captok:
            return lex(s.capture(dsl::p<T>));
        case o_eof:
            s.parse(dsl::eof);
            return "";
        case o_try:
            s.parse(dsl::try_(AB));
            return "";
        case o_two: {
            struct It2
            {
                It a, b;
            };
            auto r = s.template parse<It2>(dsl::position + A + dsl::position);
            return r ? std::to_string(at(r.value().a)) + "/" + std::to_string(at(r.value().b)) : "-";
        }
        case o_choice:
            s.parse(A | B >> A);
            return "";
        case o_remaining: {
            return lexy::match<Rest>(s.remaining_input()) ? "only letters" : "not only letters";
        }
        }
        return "?";
    }
    bool overflowed() const
    {
        return !log.errs.empty() && log.errs.back().substr(0, 16) == "integer overflow" && fresh != log.errs.size();
    }
    std::size_t fresh = 0;
    // Runs the operations next to the reference.
    template <typename Sc>
    void go(Sc& s, Model& m)
    {
        using G = decltype(s.error_recovery());
        alignas(G) unsigned char guards[4 * sizeof(G)];
        int                      ng = 0;
        log.ops.push_back("start");
        status(s);
        m.log.ops.push_back("start");
        mstatus(m);
        compare(m);
        for (int i = 0; i < n && !bad; ++i)
        {
            want = m.apply(ops[i]);
            if (want == "n/a")
                continue;
            fresh = log.errs.size();
            log.ops.push_back(apply(ops[i], s, guards, ng));
            status(s);
            m.log.ops.push_back(want);
            mstatus(m);
            compare(m);
            vh::transitions(1);
        }
    }
    static void mstatus(Model& m)
    {
        auto& o = m.log.ops.back();
        o += " -> ";
        o += m.st == Model::ok ? "ok " : "not ok ";
        o += std::to_string(m.pos);
        if (m.pos == long(m.t.size()))
            o += " eof";
    }
    void compare(const Model& m)
    {
        if (bad)
            vh::fail(std::string(bad) + " after " + str(log.ops));
        if (log.ops != m.log.ops)
            vh::fail("on '" + std::string(m.t) + "': operations: expected " + str(m.log.ops) + " actual " + str(log.ops)), bad = "mismatch";
        if (!quiet && log.errs != m.log.errs)
            vh::fail("on '" + std::string(m.t) + "': errors: expected " + str(m.log.errs) + " actual " + str(log.errs)), bad = "mismatch";
    }
};

//=== inputs ===//
inline std::vector<std::string> texts(const char* alpha, int maxlen)
{
    std::vector<std::string> r{""};
    for (size_t i = 0, len = 0; int(len) < maxlen; ++len)
    {
        size_t end = r.size();
        for (; i < end; ++i)
            for (const char* c = alpha; *c; ++c)
                r.push_back(r[i] + *c);
    }
    return r;
}
struct WS
{
    static constexpr auto whitespace = LEXY_LIT(" ");
    // ignored
    static constexpr auto rule  = B;
    static constexpr auto value = 3;
};
//=== lexy::scan ===//
template <typename Result>
void final_status(const Result& r, const Model& m, bool counted)
{
    bool succ = m.st == Model::ok && m.log.errs.empty(), rec = m.st == Model::ok && !m.log.errs.empty(), fatal = m.st != Model::ok;
    if (r.is_success() != succ || r.is_error() == succ || r.is_recovered_error() != rec || r.is_fatal_error() != fatal || bool(r) != succ)
        vh::fail("on '" + std::string(m.t) + "' after " + str(m.log.ops) + ": wrong final status");
    if constexpr (requires { r.error_count(); })
        if (counted && r.error_count() != m.log.errs.size())
            vh::fail("wrong error count");
    vh::traces(1);
}
template <int Mode>
void scan_once(const std::string& text, const int* ops, int n)
{
    Model m;
    m.t = text;
    m.ctx = "scanner control production";
    if constexpr (Mode == 0)
    {
        auto             input = lexy::string_input(text.data(), text.size());
        Run<const char*> run{input.data(), {}, ops, n};
        Errs<const char*> cb{&run.log, input.data(), true};
        auto             s = lexy::scan(input, cb);
        run.go(s, m);
        auto res = std::move(s).finish();
        final_status(res, m, true);
        if (res.errors() != m.log.errs.size())
            vh::fail("the error callback's result is lost");
    }
    else if constexpr (Mode == 1)
    {
        m.ws    = true;
        m.names = false;
        auto              input = lexy::string_input<lexy::ascii_encoding>(text.data(), text.size());
        Run<const char*>  run{input.data(), {}, ops, n};
        Errs<const char*> cb{&run.log, input.data(), false};
        auto              s = lexy::scan<WS>(input, cb);
        run.go(s, m);
        final_status(std::move(s).finish(), m, true);
    }
    else if constexpr (Mode == 2)
    {
        auto              input = lexy::buffer<lexy::utf8_char_encoding>(text.data(), text.size());
        using It          = const char*;
        Run<It>           run{input.data(), {}, ops, n};
        Errs<It>          cb{&run.log, input.data(), true};
        const St          st{7, nullptr, 0, 0, nullptr};
        auto              s = lexy::scan(input, st, cb);
        run.go(s, m);
        if (&s.parse_state() != &st || s.parse_state().tag != 7)
            vh::fail("parse_state() is another state");
        final_status(std::move(s).finish(), m, true);
    }
    else
    {
        std::list<char>      l(text.begin(), text.end());
        using It          = std::list<char>::const_iterator;
        const auto&          cl = l;
        lexy::range_input    input(cl.begin(), cl.end());
        Run<It>              run{cl.begin(), {}, ops, n};
        Errs<It>             cb{&run.log, cl.begin(), true};
        St                   st{9, nullptr, 0, 0, nullptr};
        auto                 s = lexy::scan(input, st, cb);
        run.go(s, m);
        if (&s.parse_state() != &st)
            vh::fail("parse_state() is another state");
        final_status(std::move(s).finish(), m, true);
    }
    vh::outcome(str(m.log.ops));
}

//=== dsl::scan ===//
struct RunBase
{
    Model*   m;
    RunBase() : m(nullptr) {}
};
template <typename It>
struct RuleRun : RunBase
{
    Run<It>* run;
    long     begin_at = -1;
    std::string seen; // what the value callback got
};
template <typename Sc>
int do_scan(Sc& s, St& st)
{
    using It  = decltype(s.position());
    auto& rr  = *static_cast<RuleRun<It>*>(st.run);
    rr.begin_at = rr.run->at(s.begin());
    rr.run->go(s, *rr.m);
    return st.ret == 1 || (st.ret == 0 && s) ? 1 : 0;
}
template <bool Ws>
struct WsBase
{};
template <>
struct WsBase<true>
{
    static constexpr auto whitespace = LEXY_LIT(" ");
};
// the value of the scan is an int, then a position
struct SInt
{
    static LEXY_CONSTEVAL auto name()
    {
        return "S";
    }
    using scan_result = lexy::scan_result<int>;
    template <typename Sc>
    static scan_result scan(Sc& s, St& st)
    {
        static_assert(std::is_same_v<typename Sc::production, SInt>);
        if (!do_scan(s, st))
            return lexy::scan_failed;
        return 5000;
    }
    static constexpr auto rule  = dsl::scan + dsl::position;
    static constexpr auto value = lexy::callback_with_state<int>([](St& st, int i, auto pos) {
        using It = decltype(pos);
        auto& rr = *static_cast<RuleRun<It>*>(st.run);
        rr.seen += "int " + std::to_string(i) + " at " + std::to_string(rr.run->at(pos));
        return i + 1;
    });
};
// in a production with whitespace, behind other rules, the values of which it takes
struct SArgs : WsBase<true>
{
    static LEXY_CONSTEVAL auto name()
    {
        return "S";
    }
    using scan_result = lexy::scan_result<void>;
    template <typename Sc, typename Lex, typename Pos>
    static scan_result scan(Sc& s, St& st, Lex l, Pos p)
    {
        auto& rr = *static_cast<RuleRun<Pos>*>(st.run);
        rr.seen += "args " + rr.run->lexeme(l) + " " + std::to_string(rr.run->at(p)) + "; ";
        return bool(do_scan(s, st));
    }
    static constexpr auto rule
        = dsl::parse_as<lexy::string_lexeme<lexy::utf8_char_encoding>>(dsl::capture(LEXY_LIT("("))) + dsl::parse_as<const char*>(dsl::position) + dsl::scan;
    static constexpr auto value = lexy::callback_with_state<int>([](St& st) {
        auto& rr = *static_cast<RuleRun<const char*>*>(st.run);
        rr.seen += "no value";
        return 1;
    });
};
template <typename Prod>
struct Outer // to see that a failed scan cancels its production only
{
    static LEXY_CONSTEVAL auto name()
    {
        return "O";
    }
    static constexpr auto rule  = dsl::try_(dsl::p<Prod>);
    static constexpr auto value = lexy::callback<int>([](auto... a) { return (0 + ... + a); });
};
template <typename Tree>
std::string show_tree(const Tree& tree, decltype(tree.remaining_input().begin()) begin)
{
    std::string r;
    for (auto [ev, node] : tree.traverse())
    {
        if (ev == lexy::traverse_event::enter)
            r += std::string(node.kind().name()) + "(";
        else if (ev == lexy::traverse_event::exit)
            r += ")";
        else
            r += std::string(node.kind().name()) + "[" + std::to_string(std::distance(begin, node.lexeme().begin())) + ","
                 + std::to_string(std::distance(begin, node.lexeme().end())) + ")";
    }
    return r;
}
// Mode: 0 parse, 1 tree, 2 validate, 3 match, then the same with the other production
template <int Mode>
void rule_once(const std::string& text_, const int* ops, int n, int ret)
{
    constexpr bool args = Mode >= 4;
    using Prod          = std::conditional_t<args, SArgs, SInt>;
    using Enc           = std::conditional_t<args, lexy::utf8_char_encoding, lexy::default_encoding>;
    using Ch            = typename Enc::char_type;
    auto  text = args ? "(" + text_ : text_;
    lexy::buffer<Enc> input(reinterpret_cast<const Ch*>(text.data()), text.size());
    using It = const Ch*;
    Run<It>     run{input.data(), {}, ops, n};
    run.quiet = Mode % 4 == 3; // match does not report errors
    Errs<It>    cb{&run.log, input.data(), true};
    RuleRun<It> rr;
    Model       m;
    rr.run = &run;
    rr.m   = &m;
    St st{3, ops, n, ret, &rr};
    m.t   = text;
    m.ctx = "S";
    m.ws  = args;
    std::string seen;
    if (args)
    {
        m.lit("(");
        m.token("position", m.pos, m.pos);
        seen = "args <0,1> " + std::to_string(m.pos) + "; ";
    }
    long start = m.pos;
    bool success, recovered;
    std::string tree;
    bool has_tree = false;
    long rest     = -1;
    int  value    = -1;
    if constexpr (Mode % 4 == 0)
    {
        auto r    = lexy::parse<Prod>(input, st, cb);
        success   = r.has_value();
        recovered = r.is_recovered_error();
        if (r.has_value())
            value = r.value();
        if (r.error_count() != run.log.errs.size())
            vh::fail("wrong error count");
    }
    else if constexpr (Mode % 4 == 1)
    {
        lexy::parse_tree_for<decltype(input)> t;
        auto                                  r = lexy::parse_as_tree<Prod>(t, input, st, cb);
        success   = r.is_success() || r.is_recovered_error();
        recovered = r.is_recovered_error();
        has_tree  = true;
        if (success)
        {
            tree = show_tree(t, input.data());
            rest = t.remaining_input().begin() - input.data();
            if (t.remaining_input().end() != input.data() + input.size())
                vh::fail("on '" + text + "': remaining input of the tree ends at " + std::to_string(t.remaining_input().end() - input.data()));
        }
        else if (!t.empty())
            vh::fail("a tree although parsing failed");
    }
    else if constexpr (Mode % 4 == 2)
    {
        auto r    = lexy::validate<Prod>(input, st, cb);
        success   = r.is_success() || r.is_recovered_error();
        recovered = r.is_recovered_error();
    }
    else
    {
        success   = lexy::match<Prod>(input, st);
        recovered = success && !m.log.errs.empty();
    }
    bool want = ret == 1 || (ret == 0 && m.st == Model::ok);
    auto say  = [&] { return "on '" + text + "' after " + str(m.log.ops) + " ret " + std::to_string(ret) + ": "; };
    if (success != want && !(Mode % 4 == 3))
        vh::fail(say() + "success " + std::to_string(success));
    if (recovered != (want && !m.log.errs.empty()) && Mode % 4 != 3)
        vh::fail(say() + "recovered " + std::to_string(recovered));
    if (Mode % 4 == 3 && success != (want && m.log.errs.empty()))
        vh::fail(say() + "match " + std::to_string(success));
    if (rr.begin_at != start)
        vh::fail(say() + "begin() " + std::to_string(rr.begin_at));
    if (want)
    {
        if constexpr (!args)
            m.token("position", m.pos, m.pos);
        if (Mode % 4 == 0)
            seen += args ? "no value" : "int 5000 at " + std::to_string(m.pos);
    }
    if (rr.seen != seen)
        vh::fail(say() + "values: expected " + seen + " actual " + rr.seen);
    if (Mode % 4 == 0 && value != (want ? args ? 1 : 5001 : -1))
        vh::fail(say() + "value " + std::to_string(value));
    if (has_tree && want)
    {
        auto w = "S(" + Model::show(m.frames[0]) + ")";
        if (tree != w)
            vh::fail(say() + "tree: expected " + w + " actual " + tree);
        if (rest != m.pos)
            vh::fail(say() + "remaining input at " + std::to_string(rest));
        vh::outcome(w);
    }
    vh::outcome(str(m.log.ops));
    vh::traces(1);
}
template <typename F>
void sequences(int depth, const char* what, const std::vector<std::string>& in, F f)
{
    std::vector<int> ops(depth, 0);
    while (true)
    {
        vh::step(
            [&] {
                std::string r = what;
                for (int o : ops)
                    r += std::string(" ") + opname(o);
                return r;
            },
            [&] {
                for (auto& t : in)
                    f(t, ops.data(), depth);
                vh::beat();
            });
        int i = depth - 1;
        while (i >= 0 && ++ops[i] == o_count)
            ops[i--] = 0;
        if (i < 0)
            break;
    }
}
template <int Mode>
void scan_all(const char* what)
{
    const char* alpha = Mode == 1 ? "ab " : "ab1";
    sequences(1, what, texts(alpha, 6), [](auto& t, auto o, int n) { scan_once<Mode>(t, o, n); });
    sequences(2, what, texts(alpha, vh::thorough() ? 6 : 5), [](auto& t, auto o, int n) { scan_once<Mode>(t, o, n); });
    sequences(3, what, texts(alpha, vh::thorough() ? 5 : Mode < 2 ? 4 : 3), [](auto& t, auto o, int n) { scan_once<Mode>(t, o, n); });
    if (vh::thorough() || Mode == 0)
        sequences(4, what, texts(alpha, vh::thorough() ? 3 : 2), [](auto& t, auto o, int n) { scan_once<Mode>(t, o, n); });
}
template <int Mode>
void rule_all(const char* what)
{
    const char* alpha = Mode >= 4 ? "ab " : "ab1";
    auto        go    = [](auto& t, auto o, int n) {
        for (int ret = 0; ret < 3; ++ret)
            rule_once<Mode>(t, o, n, ret);
    };
    sequences(1, what, texts(alpha, 6), go);
    sequences(2, what, texts(alpha, vh::thorough() ? 5 : 3), go);
    if (Mode == 1 || Mode == 5 || vh::thorough())
        sequences(3, what, texts(alpha, vh::thorough() ? 4 : 3), [](auto& t, auto o, int n) { rule_once<Mode>(t, o, n, 0); });
    if (vh::thorough() && (Mode == 1 || Mode == 5))
        sequences(4, what, texts(alpha, 2), [](auto& t, auto o, int n) { rule_once<Mode>(t, o, n, 0); });
}

//=== a failed scan only cancels its own production ===//
template <int>
void outer_once(const std::string& text, const int* ops, int n, int ret)
{
    lexy::buffer<> input(text.data(), text.size());
    using It = const char*;
    Run<It>     run{input.data(), {}, ops, n};
    Errs<It>    cb{&run.log, input.data(), true};
    RuleRun<It> rr;
    Model       m;
    rr.run = &run;
    rr.m   = &m;
    St st{3, ops, n, ret, &rr};
    m.t   = text;
    m.ctx = "S";
    lexy::parse_tree_for<decltype(input)> t;
    auto                                  r = lexy::parse_as_tree<Outer<SInt>>(t, input, st, cb);
    bool want = ret == 1 || (ret == 0 && m.st == Model::ok);
    auto say  = [&] { return "on '" + text + "' after " + str(m.log.ops) + " ret " + std::to_string(ret) + ": "; };
    if (r.is_fatal_error() || r.is_success() != m.log.errs.empty())
        vh::fail(say() + "status of the outer production");
    std::string w;
    if (want)
    {
        m.token("position", m.pos, m.pos);
        w = "O(S(" + Model::show(m.frames[0]) + "))";
    }
    else
    {
        m.frames[0].clear();
        m.token("error token", 0, m.pos);
        w = "O(" + Model::show(m.frames[0]) + ")";
    }
    auto tree = show_tree(t, input.data());
    if (tree != w)
        vh::fail(say() + "tree: expected " + w + " actual " + tree);
    if (t.remaining_input().begin() != input.data() + m.pos)
        vh::fail(say() + "remaining input");
    auto v = lexy::parse<Outer<SInt>>(input, (rr.seen.clear(), run = Run<It>{input.data(), {}, ops, n}, m = Model(), m.t = text, m.ctx = "S", st), cb);
    if (!v.has_value() || v.value() != (want ? 5001 : 0))
        vh::fail(say() + "value of the outer production");
    vh::traces(2);
    vh::outcome(w);
}
//=== recursion ===//
struct Rc
{
    static LEXY_CONSTEVAL auto name()
    {
        return "Rc";
    }
    static constexpr auto max_recursion_depth = 3;
    using scan_result                         = lexy::scan_result<std::string>;
    template <typename Sc>
    static scan_result scan(Sc& s)
    {
        std::string d = std::to_string(s.recursion_depth());
        while (true)
        {
            scan_result r;
            if (s.branch(r, LEXY_LIT("(") >> dsl::recurse<Rc> + LEXY_LIT(")")))
            {
                if (!r)
                    return lexy::scan_failed;
                d += "(" + r.value() + ")";
            }
            else if (s.branch(LEXY_LIT("[")))
            {
                auto q = s.template parse<std::string>(dsl::recurse<Rc>);
                s.parse(LEXY_LIT("]"));
                if (!s)
                    return lexy::scan_failed;
                d += "[" + q.value_or(std::string("?")) + "]";
            }
            else
                break;
        }
        d += std::to_string(s.recursion_depth());
        return d;
    }
    static constexpr auto rule  = dsl::scan;
    static constexpr auto value = lexy::forward<std::string>;
};
struct RcTop
{
    static LEXY_CONSTEVAL auto name()
    {
        return "RcTop";
    }
    static constexpr auto max_recursion_depth = 3;
    static constexpr auto rule  = dsl::p<Rc> + dsl::eof;
    static constexpr auto value = lexy::forward<std::string>;
};
struct RcModel
{
    std::string_view         t;
    long                     pos = 0;
    std::vector<std::string> errs;
    bool                     rule(int depth, std::string& out)
    {
        long b = pos;
        auto e = [&](const std::string& s) { errs.push_back(s + " in Rc@" + std::to_string(b)); };
        out    = std::to_string(depth);
        while (pos < long(t.size()) && (t[pos] == '(' || t[pos] == '['))
        {
            char        open = t[pos++], close = open == '(' ? ')' : ']';
            std::string sub;
            if (depth == 3)
            {
                e("maximum recursion depth exceeded [" + std::to_string(pos) + "," + std::to_string(pos) + ")");
                return false;
            }
            if (!rule(depth + 1, sub))
                return false;
            if (pos >= long(t.size()) || t[pos] != close)
            {
                e(std::string("literal ") + close + "@0 [" + std::to_string(pos) + ")");
                return false;
            }
            ++pos;
            out += open + sub + close;
        }
        out += std::to_string(depth);
        return true;
    }
};
template <int>
void recursion()
{
    for (auto& t : texts("()[]x", vh::thorough() ? 8 : 7))
        vh::step([&] { return "recursive scan of " + t; },
                 [&] {
                     lexy::string_input input(t.data(), t.size());
                     Log                log;
                     Errs<const char*>  cb{&log, input.data(), true};
                     auto               r = lexy::parse<RcTop>(input, cb);
                     RcModel            m{t};
                     std::string        v;
                     bool               ok = m.rule(0, v);
                     if (ok && m.pos != long(t.size()))
                         m.errs.push_back("expected EOF [" + std::to_string(m.pos) + "," + std::to_string(m.pos) + ") in RcTop@0");
                     if (r.has_value() != ok || r.is_success() != m.errs.empty())
                         vh::fail("status");
                     if (ok && r.value() != v)
                         vh::fail("value: expected " + v + " actual " + r.value());
                     if (log.errs != m.errs)
                         vh::fail("errors: expected " + str(m.errs) + " actual " + str(log.errs));
                     vh::outcome(v);
                     vh::traces(1);
                     vh::transitions(t.size() + 1);
                 });
}
//=== context variables of the surrounding rules ===//
struct Vars
{
    struct Tf
    {};
    struct Tc
    {};
    static constexpr auto flag    = dsl::context_flag<Tf>;
    static constexpr auto counter = dsl::context_counter<Tc>;
    using scan_result             = lexy::scan_result<std::string>;
    struct Sub // sees the same variables
    {
        static constexpr auto rule  = flag.is_set() >> LEXY_LIT("") | dsl::else_ >> dsl::error<TagE>;
        static constexpr auto value = lexy::noop;
    };
    template <typename Sc>
    static scan_result scan(Sc& s, const std::vector<int>& ops)
    {
        std::string r;
        for (int o : ops)
            switch (o)
            {
            case 0:
                s.parse(flag.set());
                break;
            case 1:
                s.parse(flag.reset());
                break;
            case 2:
                s.parse(flag.toggle());
                break;
            case 3:
                r += s.branch(flag.is_set()) ? "s" : "r";
                break;
            case 4:
                r += s.branch(flag.is_reset()) ? "R" : "S";
                break;
            case 5:
                s.parse(counter.inc());
                break;
            case 6:
                s.parse(counter.dec());
                break;
            case 7:
                r += s.branch(counter.template is<1>()) ? "1" : s.branch(counter.is_zero()) ? "0" : "n";
                break;
            case 8: {
                auto v = s.template parse<int>(counter.value());
                r += "<" + std::to_string(v.value()) + ">";
                break;
            }
            }
        auto f = s.template parse<bool>(flag.value());
        r += f.value() ? "T" : "F";
        return r;
    }
    static constexpr auto rule  = flag.create() + counter.create() + dsl::scan + flag.value() + counter.value();
    static constexpr auto value = lexy::callback<std::string>([](std::string s, bool f, int c) { return s + (f ? " T " : " F ") + std::to_string(c); });
};
template <int>
void variables()
{
    const int len = vh::thorough() ? 6 : 5;
    for (int n = 0; n <= len; ++n)
    {
        std::vector<int> ops(n, 0);
        while (true)
        {
            vh::step(
                [&] {
                    std::string r = "context variables ";
                    for (int o : ops)
                        r += std::to_string(o) + " ";
                    return r;
                },
                [&] {
                    bool        f = false;
                    int         c = 0;
                    std::string want;
                    for (int o : ops)
                        switch (o)
                        {
                        case 0:
                            f = true;
                            break;
                        case 1:
                            f = false;
                            break;
                        case 2:
                            f = !f;
                            break;
                        case 3:
                            want += f ? "s" : "r";
                            break;
                        case 4:
                            want += f ? "S" : "R";
                            break;
                        case 5:
                            ++c;
                            break;
                        case 6:
                            --c;
                            break;
                        case 7:
                            want += c == 1 ? "1" : c == 0 ? "0" : "n";
                            break;
                        case 8:
                            want += "<" + std::to_string(c) + ">";
                            break;
                        }
                    want += f ? "T" : "F";
                    want += (f ? " T " : " F ") + std::to_string(c);
                    lexy::string_input<> input("", std::size_t(0));
                    auto               r = lexy::parse<Vars>(input, ops, lexy::noop);
                    if (!r.is_success() || r.value() != want)
                        vh::fail("expected " + want + " actual " + (r.has_value() ? r.value() : "nothing"));
                    vh::outcome(want);
                    vh::traces(1);
                    vh::transitions(ops.size());
                });
            int i = n - 1;
            while (i >= 0 && ++ops[i] == 9)
                ops[i--] = 0;
            if (i < 0)
                break;
        }
    }
}
//=== a scan behind a condition: branches of lists and choices ===//
struct Item
{
    static LEXY_CONSTEVAL auto name()
    {
        return "Item";
    }
    using scan_result = lexy::scan_result<std::string>;
    template <typename Sc, typename Lex>
    static scan_result scan(Sc& s, Lex l)
    {
        // <letter> then digits up to the same letter
        std::string r(l.begin(), l.end());
        if (!(s.position() == l.end()) || !(s.begin() == s.position()))
            return "wrong position";
        while (!s.is_at_eof() && *s.position() != *l.begin())
        {
            auto d = s.capture(dsl::digit<>);
            if (!d)
            {
                auto g = s.error_recovery();
                if (!s.discard(dsl::ascii::alpha))
                {
                    std::move(g).cancel();
                    return lexy::scan_failed;
                }
                std::move(g).finish();
                r += "?";
            }
            else
                r += *d.value().begin();
        }
        if (!s.branch(dsl::ascii::alpha))
        {
            s.error("unterminated", l.begin(), s.position());
            r += "!";
        }
        return r;
    }
    static constexpr auto rule  = dsl::capture(dsl::ascii::alpha) >> dsl::scan;
    static constexpr auto value = lexy::forward<std::string>;
};
struct Items
{
    static LEXY_CONSTEVAL auto name()
    {
        return "Items";
    }
    static constexpr auto rule  = dsl::list(dsl::p<Item> | dsl::capture(LEXY_LIT(","))) + dsl::eof;
    static constexpr auto value = lexy::fold_inplace<std::string>(std::string(), [](std::string& s, std::string v) { s += "{" + v + "}"; },
                                                                  [](std::string& s, lexy::string_lexeme<>) { s += ","; }) >> lexy::forward<std::string>;
};
// the scanning item as a production of its own value
struct Whole : lexy::scan_production<int>
{
    template <typename Sc>
    static scan_result scan(Sc& s)
    {
        if (s.peek(LEXY_LIT("a")))
            return s.position() == s.begin() ? 7 : 8;
        return lexy::scan_failed;
    }
};
struct WholeTop
{
    static constexpr auto rule  = dsl::p<Whole> + dsl::p<Whole>;
    static constexpr auto value = lexy::callback<int>([](int a, int b) { return a * 10 + b; });
};
template <int>
void items()
{
    for (auto& t : texts("ab1,", vh::thorough() ? 8 : 7))
        vh::step([&] { return "scanned items " + t; },
                 [&] {
                     lexy::string_input input(t.data(), t.size());
                     Log                log;
                     Errs<const char*>  cb{&log, input.data(), true};
                     auto               r = lexy::parse<Items>(input, cb);
                     std::vector<std::string> errs;
                     std::string              v;
                     size_t                   i = 0, n = 0;
                     bool                     ok = true;
                     auto is = [&](const char* s) { return i < t.size() && strchr(s, t[i]); };
                     while (ok && is("ab,"))
                     {
                         ++n;
                         if (is(","))
                         {
                             v += ",";
                             ++i;
                             continue;
                         }
                         auto b   = i;
                         auto ctx = " in Item@" + std::to_string(b);
                         char q = t[i++];
                         v += "{";
                         v += q;
                         while (i < t.size() && t[i] != q)
                         {
                             if (t[i] == '1')
                             {
                                 v += "1";
                                 ++i;
                                 continue;
                             }
                             errs.push_back("digit.decimal [" + std::to_string(i) + ")" + ctx);
                             if (t[i] == ',')
                             {
                                 ok = false;
                                 break;
                             }
                             v += "?";
                             ++i;
                         }
                         if (!ok)
                             break;
                         if (i < t.size())
                             ++i;
                         else
                         {
                             errs.push_back("unterminated [" + std::to_string(b) + "," + std::to_string(i) + ")" + ctx);
                             v += "!";
                         }
                         v += "}";
                     }
                     if (n == 0)
                     {
                         ok = false;
                         errs.push_back("exhausted choice [0,0) in Items@0");
                     }
                     if (ok && i != t.size())
                         errs.push_back("expected EOF [" + std::to_string(i) + "," + std::to_string(i) + ") in Items@0");
                     if (r.has_value() != ok || r.is_success() != errs.empty())
                         vh::fail("status");
                     if (ok && r.value() != v)
                         vh::fail("value: expected " + v + " actual " + r.value());
                     if (log.errs != errs)
                         vh::fail("errors: expected " + str(errs) + " actual " + str(log.errs));
                     auto w = lexy::parse<WholeTop>(input, lexy::noop);
                     bool a = !t.empty() && t[0] == 'a';
                     if (w.has_value() != a || (a && w.value() != 77) || w.is_success() != a)
                         vh::fail("scan_production");
                     vh::outcome(v);
                     vh::traces(2);
                     vh::transitions(t.size() + 1);
                 });
}
//=== scan_result ===//
struct Cnt
{
    int id;
    int moved = 0;
    Cnt(int i) : id(i) {}
    Cnt(const Cnt& o) : id(o.id) {}
    Cnt(Cnt&& o) noexcept : id(o.id)
    {
        o.moved = 1;
    }
    Cnt& operator=(const Cnt&) = default;
};
template <int>
void results()
{
    vh::step([] { return "scan_result"; },
             [] {
                 using R = lexy::scan_result<Cnt>;
                 auto chk = [](bool b, const char* w) {
                     if (!b)
                         vh::fail(w);
                     vh::transitions(1);
                 };
                 R none, failed = lexy::scan_failed;
                 chk(!none && !failed && !none.has_value() && !failed.has_value(), "empty results");
                 Cnt c(5);
                 R   l = c;
                 chk(l && l.has_value() && l.value().id == 5 && c.moved == 0, "result of an lvalue");
                 const Cnt k(6);
                 R         kl = k;
                 chk(kl.value().id == 6, "result of a const lvalue");
                 R m = std::move(c);
                 chk(m.value().id == 5 && c.moved == 1, "result of an rvalue");
                 R conv = 9;
                 chk(conv.value().id == 9, "converted result");
                 R mv = std::move(m);
                 chk(mv.value().id == 5, "moved result");
                 static_assert(std::is_same_v<decltype(std::declval<const R&>().value()), const Cnt&>);
                 static_assert(std::is_same_v<decltype(std::declval<R&&>().value()), Cnt&&>);
                 Cnt out = std::move(mv).value();
                 chk(out.id == 5 && mv.value().moved == 1, "value() of an rvalue");
                 Cnt fb(3);
                 chk(l.value_or(fb).id == 5 && none.value_or(fb).id == 3 && l.value_or(Cnt(8)).id == 5 && none.value_or(Cnt(8)).id == 8, "value_or");
                 chk(fb.moved == 0 && l.value().moved == 0, "value_or of lvalues copies");
                 Cnt f1 = std::move(none).value_or(Cnt(4));
                 Cnt f2 = std::move(l).value_or(Cnt(4));
                 chk(f1.id == 4 && f2.id == 5 && l.value().moved == 1, "value_or of an rvalue");
                 lexy::scan_result<void> v, vt = true, vf = false, vx = lexy::scan_failed;
                 chk(!v && vt && !vf && !vx && vt.has_value() && !vf.has_value(), "void results");
                 lexy::scan_result<std::unique_ptr<int>> p = std::make_unique<int>(4);
                 chk(*p.value() == 4, "move-only result");
                 auto q = std::move(p).value();
                 chk(*q == 4 && !p.value(), "move-only value");
                 lexy::scan_result deduced(3);
                 static_assert(std::is_same_v<decltype(deduced), lexy::scan_result<int>>);
                 vh::traces(1);
             });
}
auto i0  = parts::add<0>([](auto) { scan_all<0>("scan(string_input)"); });
auto i1  = parts::add<1>([](auto) { scan_all<1>("scan<whitespace>(string_input)"); });
auto i2  = parts::add<2>([](auto) { scan_all<2>("scan(buffer, state)"); });
auto i3  = parts::add<3>([](auto) { scan_all<3>("scan(range_input, state)"); });
auto i4  = parts::add<4>([](auto) { rule_all<0>("dsl::scan, parse"); });
auto i5  = parts::add<5>([](auto) { rule_all<1>("dsl::scan, parse_as_tree"); });
auto i6  = parts::add<6>([](auto) { rule_all<2>("dsl::scan, validate"); });
auto i7  = parts::add<7>([](auto) { rule_all<3>("dsl::scan, match"); });
auto i8  = parts::add<8>([](auto) { rule_all<4>("dsl::scan with arguments, parse"); });
auto i9  = parts::add<9>([](auto) { rule_all<5>("dsl::scan with arguments, parse_as_tree"); });
auto i10 = parts::add<10>([](auto) { rule_all<6>("dsl::scan with arguments, validate"); });
auto i11 = parts::add<11>([](auto) { rule_all<7>("dsl::scan with arguments, match"); });
auto i12 = parts::add<12>([](auto) {
    auto go = [](auto& t, auto o, int n) {
        for (int ret = 0; ret < 3; ++ret)
            outer_once<0>(t, o, n, ret);
    };
    sequences(1, "failed dsl::scan", texts("ab1", 5), go);
    sequences(2, "failed dsl::scan", texts("ab1", vh::thorough() ? 5 : 3), go);
    if (vh::thorough())
        sequences(3, "failed dsl::scan", texts("ab1", 3), go);
});
auto i13 = parts::add<13>([](auto) { recursion<0>(); });
auto i14 = parts::add<14>([](auto) { variables<0>(); });
auto i15 = parts::add<15>([](auto) {
    items<0>();
    results<0>();
});
} // namespace
PARTS_MAIN
