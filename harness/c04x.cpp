// C04: agreement of the actions on grammars with every kind of rule, and every way of showing a trace.
#include "engine.hpp"
#include "parts.hpp"
#include "viz.hpp"
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/input/range_input.hpp>
#include <list>
namespace
{
enum class tk
{
    a,
    num,
    word,
    sp,
};
[[maybe_unused]] constexpr const char* token_kind_name(tk k)
{
    return k == tk::a ? "the-a" : k == tk::num ? "number" : k == tk::word ? "word" : "sp";
}
struct Any
{
    using return_type = int;
    template <typename... Args>
    constexpr int operator()(Args&&...) const
    {
        return 0;
    }
    struct S
    {
        using return_type = int;
        template <typename... Args>
        void operator()(Args&&...)
        {}
        int finish() &&
        {
            return 0;
        }
    };
    auto sink() const
    {
        return S{};
    }
};
#define VALUE static constexpr auto value = Any{}
#define NAME(N)                                                                                    \
    static constexpr auto name = N;                                                                \
    VALUE
template <int>
struct G;

//=== a trace, as text and as events ===//
struct Ev
{
    enum T
    {
        start,
        token,
        back,
        error,
        reco,
        op,
        debug,
        finish,
        cancel
    } type;
    unsigned    line, col;
    std::size_t depth; // of the line
    std::string name;
    long        b = 0, e = 0;
};
inline bool eat(std::string& s, const std::string& p)
{
    if (s.compare(0, p.size(), p) != 0)
        return false;
    s.erase(0, p.size());
    return true;
}
inline viz::u32 unit(char c)
{
    return static_cast<unsigned char>(c);
}
inline std::string lexeme_text(const viz::O& o, const std::string& in, long b, long e)
{
    std::vector<viz::u32> u;
    for (long i = b; i < e; ++i)
        u.push_back(unit(in[std::size_t(i)]));
    return viz::lex(o, viz::e_utf8, u);
}
// `in`: position of a line and column
inline long offset(const std::string& in, unsigned l, unsigned c)
{
    std::size_t i = 0;
    for (; l > 1; --l)
    {
        i = in.find('\n', i);
        if (i == std::string::npos)
            return -1;
        ++i;
    }
    auto r = i + c - 1;
    for (; i < r; ++i)
        if (i >= in.size() || in[i] == '\n')
            return -1;
    return long(r);
}
inline std::vector<Ev> events(const std::string& text, const std::string& in, std::string& bad)
{
    std::vector<Ev>   out;
    std::vector<char> open; // kind of frame
    std::size_t       i = 0;
    auto              o = viz::opt(8);
    while (i < text.size() && bad.empty())
    {
        auto nl   = text.find('\n', i);
        auto line = text.substr(i, nl - i);
        if (nl == std::string::npos)
            bad = "a line does not end";
        i = nl + 1;
        Ev  ev{};
        int n = 0;
        if (sscanf(line.c_str(), "%u:%u: %n", &ev.line, &ev.col, &n) != 2 || n == 0)
        {
            bad = "no location: " + line;
            break;
        }
        char loc[40];
        snprintf(loc, sizeof loc, "%2u:%3u: ", ev.line, ev.col);
        if (!eat(line, loc))
        {
            bad = "malformed location: " + line;
            break;
        }
        ev.b = ev.e = offset(in, ev.line, ev.col);
        if (ev.b < 0)
        {
            bad = "there is no such location: " + std::string(loc) + line;
            break;
        }
        ev.depth = open.size();
        if (open.empty() != out.empty())
        {
            bad = "more than one root";
            break;
        }
        if (!open.empty() && !eat(line, std::string(2 * (open.size() - 1), ' ')))
            bad = "indentation: " + line;
        else if (line == "-x")
            ev.type = Ev::cancel;
        else if (line == "- finish")
            ev.type = Ev::finish;
        else if (!open.empty() && !eat(line, "- "))
            bad = "no event: " + line;
        else if (line == "error recovery:")
            ev.type = Ev::reco;
        else if (eat(line, "error: "))
            ev.type = Ev::error, ev.name = line;
        else if (eat(line, "operation: "))
            ev.type = Ev::op, ev.name = line;
        else if (eat(line, "debug: "))
            ev.type = Ev::debug, ev.name = line;
        else if (line.back() == ':' && line.find(": ") == std::string::npos)
        {
            ev.type = Ev::start;
            line.pop_back();
            ev.name = line;
        }
        else
        {
            auto colon = line.find(": ");
            ev.name    = line.substr(0, colon);
            ev.type    = ev.name == "backtracked" ? Ev::back : Ev::token;
            if (colon != std::string::npos)
            {
                auto payload = line.substr(colon + 2);
                while (std::size_t(ev.e) <= in.size() && lexeme_text(o, in, ev.b, ev.e) != payload)
                    ++ev.e;
                if (std::size_t(ev.e) > in.size())
                    bad = "the input does not have at this location: " + line;
            }
        }
        if (ev.type == Ev::cancel || ev.type == Ev::finish)
            open.pop_back();
        out.push_back(ev);
        if (ev.type == Ev::start || ev.type == Ev::reco)
            open.push_back(1);
    }
    if (bad.empty() && !open.empty())
        bad = "the trace ends inside something";
    return out;
}
// The trace of the events, shown with other options.
inline std::string render(const std::vector<Ev>& evs, const std::string& in, viz::O o)
{
    std::string r;
    o.sp        = true;
    auto plain  = o;
    plain.col   = false;
    bool first  = true;
    for (auto& e : evs)
    {
        if (e.depth > o.depth)
            continue;
        char loc[40];
        snprintf(loc, sizeof loc, "%2u:%3u: ", e.line, e.col);
        if (!first)
            r += "\n";
        first = false;
        r += viz::style(o, "2", loc);
        if (e.depth)
        {
            for (std::size_t i = 1; i < e.depth; ++i)
                r += o.uni ? "\xE2\x94\x82  " : "  ";
            if (e.type == Ev::cancel)
                r += (o.uni ? "\xE2\x94\x94" : "-") + viz::style(o, "33", o.uni ? "\xE2\x95\xB3" : "x");
            else if (e.type == Ev::finish)
                r += o.uni ? "\xE2\x94\xB4" : "- finish";
            else
                r += o.uni ? "\xE2\x94\x9C\xE2\x94\x80\xE2\x94\x80" : "- ";
        }
        auto cut = e.depth == o.depth;
        switch (e.type)
        {
        case Ev::start:
            r += viz::style(o, "1", e.name) + (cut ? ": " + viz::ellipsis(o) : ":");
            break;
        case Ev::reco:
            r += viz::style(o, "33;1", "error recovery") + viz::style(o, "33", ":") + (cut ? " " + viz::ellipsis(o) : "");
            break;
        case Ev::token:
            r += viz::style(o, "1", e.name);
            if (e.b != e.e)
                r += ": " + lexeme_text(o, in, e.b, e.e);
            break;
        case Ev::back:
            r += viz::style(o, "33;1", "backtracked") + ": " + viz::style(o, "33", lexeme_text(plain, in, e.b, e.e));
            break;
        case Ev::error:
            r += viz::style(o, "31;1", "error") + viz::style(o, "31", ": " + e.name);
            break;
        case Ev::op:
            r += viz::style(o, "1", "operation") + ": " + e.name;
            break;
        case Ev::debug:
            r += viz::style(o, "34;1", "debug") + viz::style(o, "34", ": " + e.name);
            break;
        default:
            break;
        }
    }
    return r + "\n";
}

//=== what the events say about the tree ===//
struct Node
{
    std::string       name;
    bool              tok = false;
    long              b = 0, e = 0;
    std::vector<Node> kids;
};
inline void add_token(std::vector<Node>& v, const std::string& name, long b, long e)
{
    if (name == "error token" && b == e)
        return;
    if (name == "error token" && !v.empty() && v.back().tok && v.back().name == name && v.back().e == b)
        v.back().e = e;
    else
        v.push_back({name, true, b, e, {}});
}
inline std::string dump(const Node& n)
{
    std::string s = n.name;
    if (n.tok)
        return s + "[" + std::to_string(n.b) + "," + std::to_string(n.e) + ")";
    s += "{";
    for (auto& k : n.kids)
        s += dump(k);
    return s + "}";
}
inline void flat(const Node& n, std::string& s, bool merge = true)
{
    if (n.tok)
        s += dump(n);
    for (auto& k : n.kids)
        flat(k, s);
}
// Transparent productions are called T..., operations are not part of the structure.
inline Node tree_of(const std::vector<Ev>& evs)
{
    std::vector<Node> stack;
    Node              root;
    for (auto& e : evs)
        switch (e.type)
        {
        case Ev::start:
            stack.push_back({e.name, false, e.b, 0, {}});
            break;
        case Ev::reco:
            stack.push_back({"", false, e.b, 0, {}});
            break;
        case Ev::token:
            add_token(stack.back().kids, e.name, e.b, e.e);
            break;
        case Ev::finish:
        case Ev::cancel: {
            auto n = stack.back();
            stack.pop_back();
            bool production = !n.name.empty() && n.name != "operation chain";
            if (stack.empty())
            {
                if (e.type == Ev::cancel)
                    n.name = "<fatal>";
                return n;
            }
            auto& up = stack.back().kids;
            if (e.type == Ev::cancel && production) // also a transparent one
                add_token(up, "error token", n.b, e.b);
            else if (e.type == Ev::finish && production && n.name[0] != 'T')
            {
                if (n.kids.empty())
                    n.kids.push_back({"position", true, n.b, n.b, {}});
                up.push_back(n);
            }
            else
                for (auto& k : n.kids)
                    if (k.tok)
                        add_token(up, k.name, k.b, k.e);
                    else
                        up.push_back(k);
            break;
        }
        default:
            break;
        }
    return root;
}
template <typename N, typename Idx>
Node real_node(N n, Idx idx, bool ops)
{
    Node r;
    r.name = n.kind().name();
    r.tok  = n.kind().is_token();
    if (r.tok)
    {
        r.b = idx(n.lexeme().begin());
        r.e = idx(n.lexeme().end());
        return r;
    }
    for (auto c : n.children())
        r.kids.push_back(real_node(c, idx, ops));
    return r;
}
inline std::vector<std::string> error_lines(const std::vector<std::string>& errs, const std::string& in)
{
    std::vector<uint32_t> u;
    for (char c : in)
        u.push_back(unit(c));
    std::vector<std::string> r;
    for (auto& x : errs)
    {
        auto w  = x;
        auto in_ = w.rfind(" in ");
        auto br = w.rfind('[', in_);
        auto b  = std::stol(w.substr(br + 1));
        w       = w.substr(0, br);
        if (w.compare(0, 12, "expected cc ") == 0)
            w = "expected " + w.substr(12);
        else if (w.compare(0, 10, "expected '") == 0)
            w = w.substr(0, w.rfind('#'));
        r.push_back(w + "@" + eng::loc_of(u, int(b)));
    }
    return r;
}
struct Opts
{
    const char* alphabet;
    int         maxlen, thorough_len;
    bool        ops = false; // operations: compare the tokens of the tree only
    bool        wide = false;
};
template <typename Gr, typename TK>
void agree_tk(const std::string& in, const Opts& op)
{
    using In = lexy::string_input<lexy::utf8_char_encoding>;
    In   input(in.data(), in.size());
    auto idx     = [&](const char* p) { return long(p - in.data()); };
    eng::base_it<const char*> = in.data();

    std::string text, bad;
    lexy::trace_to<Gr, TK>(std::back_inserter(text), input);
    auto evs = events(text, in, bad);
    if (!bad.empty())
        return vh::fail("trace: " + bad + "\n" + text);
    vh::transitions(evs.size());

    auto val = lexy::validate<Gr>(input, eng::errs);
    auto par = lexy::parse<Gr>(input, eng::errs);
    using Tree = std::conditional_t<std::is_void_v<TK>, lexy::parse_tree_for<In>, lexy::parse_tree_for<In, TK>>;
    Tree tree;
    auto trr = lexy::parse_as_tree<Gr>(tree, input, eng::errs);
    vh::traces(5);
    auto errs = eng::join(val.errors());
    vh::eq("errors of parse", errs, eng::join(par.errors()));
    vh::eq("errors of parse_as_tree", errs, eng::join(trr.errors()));
    auto status = eng::status(val);
    vh::eq("status of parse", std::to_string(status), std::to_string(eng::status(par)));
    vh::eq("status of parse_as_tree", std::to_string(status), std::to_string(eng::status(trr)));
    vh::check(lexy::match<Gr>(input) == val.errors().empty(), "match iff there is no error");
    bool fatal = evs.back().type == Ev::cancel;
    vh::eq("status", std::to_string(fatal ? 2 : val.errors().empty() ? 0 : 1), std::to_string(status));
    vh::check(par.has_value() == !fatal, "a value iff not fatal");
    vh::eq("number of errors", std::to_string(val.errors().size()), std::to_string(lexy::validate<Gr>(input, lexy::count).errors()));

    // errors
    std::vector<std::string> terrs, ctx;
    std::vector<const Ev*>   frames;
    std::size_t              k = 0;
    for (auto& e : evs)
    {
        if (e.type == Ev::error)
        {
            terrs.push_back(e.name + "@" + std::to_string(e.line) + ":" + std::to_string(e.col));
            // its context is one of the productions around
            if (k < val.errors().size())
            {
                auto& x  = val.errors()[k++];
                auto  in_ = x.rfind(" in "), at = x.rfind('@');
                auto  nm = x.substr(in_ + 4, at - in_ - 4);
                auto  p  = std::stol(x.substr(at + 1));
                bool  ok_name = false, innermost = true, ok_pos = false;
                for (auto f = frames.rbegin(); f != frames.rend(); ++f)
                {
                    if ((*f)->type != Ev::start || (*f)->name == "operation chain")
                        continue;
                    if (innermost)
                        ok_pos = (*f)->b == p;
                    innermost = false;
                    if ((*f)->name[0] != 'T')
                    {
                        ok_name = (*f)->name == nm;
                        break;
                    }
                }
                if (!ok_name || !ok_pos)
                    vh::fail("the error " + x + " is elsewhere in the trace\n" + text);
            }
        }
        if (e.type == Ev::start || e.type == Ev::reco)
            frames.push_back(&e);
        if (e.type == Ev::finish || e.type == Ev::cancel)
            frames.pop_back();
    }
    vh::eq("errors of the trace", eng::join(error_lines(val.errors(), in)), eng::join(terrs));
    // positions of the trace never go back, except for errors
    // tree
    auto want = tree_of(evs);
    vh::check(tree.empty() == fatal, "a tree iff not fatal");
    if (!fatal)
    {
        auto have = real_node(tree.root(), idx, op.ops);
        if (op.ops)
        {
            std::string a, b;
            flat(want, a);
            flat(have, b);
            vh::eq("tokens of tree and trace", a, b);
        }
        else
            vh::eq("tree", dump(want), dump(have));
    }
    // other ways to show it
    if (in.size() <= 3 || op.wide)
    {
        static const struct
        {
            unsigned f, depth;
        } cfg[] = {{1, 32}, {2, 32}, {3, 32}, {4, 32}, {7, 32}, {15, 32}, {0, 0}, {0, 1}, {0, 2}, {1, 2}, {3, 1}, {2, 0}, {0, 3}, {0, 4}};
        for (auto& c : cfg)
        {
            auto        o = viz::opt(c.f, 0, 0, c.depth);
            std::string t;
            lexy::trace_to<Gr, TK>(std::back_inserter(t), input, viz::real(o));
            auto w = render(evs, in, o);
            vh::traces(1);
            if (w != t)
                return vh::fail("trace with flags " + std::to_string(c.f) + " depth " + std::to_string(c.depth) + ": expected\n" + w
                                + "actual\n" + t);
        }
    }
    // other inputs
    if constexpr (std::is_void_v<TK>)
    {
        std::string t;
        lexy::buffer<lexy::utf8_char_encoding> buf(in.data(), in.size());
        lexy::trace_to<Gr>(std::back_inserter(t), buf);
        vh::eq("trace of a buffer", text, t);
        if (in.size() <= 4)
        {
            std::list<char> l(in.begin(), in.end());
            t.clear();
            lexy::trace_to<Gr>(std::back_inserter(t), lexy::range_input<lexy::utf8_char_encoding, std::list<char>::iterator>(l.begin(), l.end()));
            vh::eq("trace of a list", text, t);
        }
    }
    vh::outcome(text);
}
template <typename Gr>
void agree(const Opts& op, const char* what)
{
    eng::all_strings(op.alphabet, vh::thorough() ? op.thorough_len : op.maxlen, [&](const std::string& s) {
        vh::step([&] { return std::string(what) + " on '" + eng::show_input(s) + "'"; },
                 [&] {
                     agree_tk<Gr, void>(s, op);
                     agree_tk<Gr, tk>(s, op);
                 });
    });
}
#define RUN(ID, ...)                                                                               \
    [[maybe_unused]] const int reg##ID = parts::add<ID>(                                           \
        [](auto i) { agree<std::conditional_t<true, G<ID>, decltype(i)>>(Opts __VA_ARGS__, "grammar " #ID); });

constexpr auto num  = dsl::token(dsl::digits<>).kind<tk::num>;
constexpr auto word = dsl::token(dsl::while_one(dsl::ascii::lower)).kind<tk::word>;

//=== 1: whitespace that can fail, nested whitespace, token productions ===//
struct tagged
{
    static constexpr auto name = "tagged";
};
struct WsTok : lexy::token_production
{
    NAME("WsTok");
    static constexpr auto rule = dsl::lit_c<'b'> >> dsl::opt(dsl::lit_c<' '>) + dsl::if_(dsl::lit_c<'b'> >> dsl::position);
};
struct WsOwn
{
    NAME("WsOwn");
    static constexpr auto whitespace = dsl::lit_c<'#'>;
    static constexpr auto rule       = dsl::lit_c<'('> + dsl::try_(dsl::list(dsl::lit_c<'b'>), dsl::find(dsl::lit_c<')'>)) + dsl::lit_c<')'>;
};
struct WsRule
{
    NAME("WsRule");
    static constexpr auto rule = dsl::lit_c<' '> | dsl::lit_c<'#'> >> dsl::lit_c<'#'>;
};
template <>
struct G<1>
{
    NAME("G");
    static constexpr auto whitespace = dsl::lit_c<' '> | dsl::lit_c<'#'> >> dsl::lit_c<'#'>;
    static constexpr auto rule       = dsl::list(dsl::lit_c<'a'>.kind<tk::a> | dsl::p<WsTok> | dsl::lit_c<'('> >> dsl::lit_c<'b'>) + dsl::eof;
};
RUN(1, {"ab #(", 5, 6})
template <>
struct G<2>
{
    NAME("G");
    static constexpr auto whitespace = dsl::inline_<WsRule>;
    static constexpr auto rule
        = dsl::try_(dsl::p<WsOwn>) + dsl::opt(dsl::no_whitespace(dsl::lit_c<'b'> >> dsl::lit_c<'b'>)) + dsl::if_(dsl::p<WsTok>) + dsl::eof;
};
RUN(2, {"b #()", 6, 7})

//=== delimited, with escapes that parse productions ===//
struct Esc
{
    NAME("Esc");
    static constexpr auto rule = dsl::lit_c<'n'> >> dsl::opt(dsl::lit_c<'n'>);
};
struct EscU
{
    NAME("TEscU");
    static constexpr auto rule = dsl::code_point_id<2>;
};
struct EscUP : lexy::transparent_production
{
    NAME("TEsc");
    static constexpr auto rule = dsl::lit_c<'u'> >> dsl::p<Esc>;
};
template <>
struct G<3>
{
    NAME("G");
    static constexpr auto rule
        = dsl::quoted(dsl::ascii::alnum, dsl::dollar_escape.rule(dsl::p<Esc>).rule(dsl::p<EscUP>)) + dsl::eof;
};
RUN(3, {"\"$nu\n", 6, 7})
template <>
struct G<4>
{
    NAME("G");
    static constexpr auto rule = dsl::opt(dsl::delimited(dsl::lit_c<'<'>, dsl::lit_c<'>'>)
                                              .limit(LEXY_ASCII_ONE_OF("\n"))(dsl::ascii::alnum, dsl::dollar_escape.rule(dsl::p<Esc>)))
                                 + dsl::if_(dsl::quoted.limit(LEXY_ASCII_ONE_OF("\n"))(LEXY_ASCII_ONE_OF("n"))) + dsl::opt(dsl::newline);
};
RUN(4, {"<>$n\n\"", 6, 7})

//=== recursion ===//
template <>
struct G<5>
{
    NAME("G");
    static constexpr auto max_recursion_depth = 3;
    static constexpr auto rule
        = dsl::lit_c<'['> >> dsl::recurse<G<5>> + dsl::lit_c<']'> | dsl::lit_c<'('> >> dsl::try_(dsl::recurse<G<5>>, dsl::find(dsl::lit_c<')'>)) + dsl::lit_c<')'>
          | dsl::lit_c<'a'>.kind<tk::a>;
};
RUN(5, {"[]()a", 6, 8})
struct Arr6;
struct Item6
{
    NAME("Item");
    static constexpr auto rule = word | num | dsl::recurse_branch<Arr6>;
};
struct Arr6
{
    NAME("Arr");
    static constexpr auto rule = dsl::square_bracketed.opt_list(dsl::recurse<Item6>, dsl::sep(dsl::comma));
};
template <>
struct G<6>
{
    NAME("G");
    static constexpr auto rule = dsl::p<Arr6> + dsl::eof;
};
RUN(6, {"[],a1", 6, 8})

//=== expressions ===//
struct Atom7
{
    NAME("Atom");
    static constexpr auto rule = num;
};
template <>
struct G<7> : lexy::expression_production
{
    NAME("G");
    static constexpr auto max_operator_nesting = 4;
    static constexpr auto atom                 = dsl::p<Atom7> | dsl::parenthesized(dsl::recurse<G<7>>);
    struct neg : dsl::prefix_op
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'-'>);
        using operand            = dsl::atom;
    };
    struct mul : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'*'>);
        using operand            = neg;
    };
    struct eqs : dsl::infix_op_single
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'='>);
        using operand            = mul;
    };
    struct lst : dsl::infix_op_list
    {
        static constexpr auto op = dsl::op(dsl::lit_c<','>);
        using operand            = eqs;
    };
    using operation = lst;
};
RUN(7, {"1-*=,()", 5, 6, true})
struct Expr8 : lexy::expression_production
{
    NAME("Expr");
    static constexpr auto max_operator_nesting = 8;
    static constexpr auto atom = word | num | dsl::error<tagged>;
    struct post : dsl::postfix_op
    {
        static constexpr auto op = dsl::op(dsl::square_bracketed.opt(dsl::recurse<Expr8>)) ;
        using operand            = dsl::atom;
    };
    struct add : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'+'>) / dsl::op(LEXY_LIT("++"));
        using operand            = dsl::atom;
    };
    using operation = add;
};
template <>
struct G<8>
{
    NAME("G");
    static constexpr auto whitespace = dsl::lit_c<' '>;
    static constexpr auto rule       = dsl::terminator(dsl::lit_c<';'>).opt_list(dsl::p<Expr8>, dsl::sep(dsl::comma)) + dsl::eof;
};
RUN(8, {"a1+ ;,", 5, 7, true})

//=== context ===//
template <>
struct G<9>
{
    NAME("G");
    static constexpr auto cnt  = dsl::context_counter<struct ctr>;
    static constexpr auto flg  = dsl::context_flag<struct flag>;
    static constexpr auto var  = dsl::context_identifier<struct idv>(dsl::identifier(dsl::ascii::lower));
    static constexpr auto rule = cnt.create() + flg.create() + var.create() + dsl::while_(dsl::lit_c<'+'> >> cnt.inc() + flg.toggle())
                                 + var.capture() + (cnt.is<2>() >> dsl::lit_c<'2'> | flg.is_set() >> dsl::lit_c<'1'> | dsl::else_ >> dsl::opt(dsl::lit_c<'0'>))
                                 + dsl::try_(var.rematch()) + dsl::eof;
};
RUN(9, {"+a2b1", 6, 7})

//=== identifiers, symbols, keywords ===//
template <>
struct G<10>
{
    NAME("G");
    static constexpr auto id   = dsl::identifier(dsl::ascii::lower);
    static constexpr auto kw   = LEXY_KEYWORD("if", id);
    static constexpr auto sym  = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(1).map<LEXY_SYMBOL("ab")>(2);
    static constexpr auto ws   = dsl::lit_c<' '>;
    static constexpr auto whitespace = ws;
    static constexpr auto rule = dsl::opt(kw >> id.reserve(kw)) + dsl::if_(id.reserve(kw, dsl::literal_set(LEXY_LIT("f")))) + dsl::if_(dsl::symbol<sym>(dsl::identifier(dsl::lit_c<'a'> / dsl::lit_c<'b'>)))
                                 + dsl::opt(dsl::symbol<sym>) + dsl::if_(dsl::lit_c<'.'> >> kw) + dsl::eof;
};
RUN(10, {"ifab .", 6, 7})

//=== numbers ===//
template <>
struct G<11>
{
    NAME("G");
    static constexpr auto rule = dsl::minus_sign + dsl::opt(dsl::integer<unsigned char>(dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero())) + dsl::if_(dsl::lit_c<','> >> dsl::integer<unsigned char>(dsl::n_digits<2, dsl::hex>))
                                 + dsl::opt(dsl::lit_c<'x'> >> dsl::code_point_id<2>) + dsl::eof;
};
RUN(11, {"-09',", 6, 8})

//=== combination, flags, repetition ===//
struct Comb
{
    NAME("Comb");
    static constexpr auto rule = dsl::lit_c<'a'>.kind<tk::a> >> dsl::opt(dsl::lit_c<'!'>);
};
template <>
struct G<12>
{
    NAME("G");
    static constexpr auto rule = dsl::partial_combination(dsl::p<Comb>, dsl::lit_c<'b'>, LEXY_LIT("bc")) + dsl::if_(dsl::lit_c<'.'> >> dsl::combination(dsl::p<Comb>, dsl::lit_c<'c'>).missing_error<tagged>)
                                 + dsl::if_(dsl::lit_c<','> >> dsl::twice(dsl::p<Comb>, dsl::trailing_sep(dsl::lit_c<'c'>)));
};
RUN(12, {"abc!.,", 5, 6})
enum class fl
{
    none = 0,
    a    = 1,
    b    = 2,
};
template <>
struct G<13>
{
    NAME("G");
    static constexpr auto tab  = lexy::symbol_table<fl>.map<LEXY_SYMBOL("a")>(fl::a).map<LEXY_SYMBOL("b")>(fl::b);
    static constexpr auto rule = dsl::flags(dsl::symbol<tab>) + dsl::if_(dsl::lit_c<':'> >> dsl::repeat(dsl::integer<int>(dsl::digits<>)).list(dsl::p<Comb>)) + dsl::eof;
};
RUN(13, {"ab:12!", 5, 6})

//=== manual scanning ===//
struct Scan14 : lexy::scan_production<int>
{
    static constexpr auto name = "Scan";
    template <typename Reader, typename Context>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        auto begin = s.position();
        if (s.branch(dsl::lit_c<'('>))
        {
            int n = 0;
            while (!s.branch(dsl::lit_c<')'>))
            {
                auto r = s.template parse<Comb>();
                if (!s)
                {
                    auto rec = s.error_recovery();
                    while (!s.is_at_eof() && !s.peek(dsl::lit_c<')'>))
                        s.discard(dsl::ascii::character);
                    std::move(rec).finish();
                    if (s.is_at_eof())
                    {
                        s.error(tagged{}, begin, s.position());
                        return lexy::scan_failed;
                    }
                }
                ++n;
            }
            if (n == 0)
                s.error(tagged{}, begin, s.position());
            return n;
        }
        s.parse(dsl::newline);
        return 1;
    }
};
template <>
struct G<14>
{
    NAME("G");
    static constexpr auto rule = dsl::try_(dsl::p<Scan14>, dsl::find(dsl::lit_c<'!'>)) + dsl::opt(dsl::lit_c<'!'> >> dsl::p<Scan14>);
};
RUN(14, {"(a!)\n", 6, 7})

//=== debugging, effects, parse_as, transparent and inline productions ===//
struct Tr15 : lexy::transparent_production
{
    NAME("Tr");
    static constexpr auto rule = dsl::lit_c<'a'>.kind<tk::a> >> LEXY_DEBUG("in") + dsl::opt(dsl::p<Comb>);
};
struct Em15
{
    NAME("Em");
    static constexpr auto rule = dsl::if_(dsl::lit_c<'b'>);
};
struct Nest15
{
    NAME("Nest");
    static constexpr auto rule = dsl::peek(dsl::lit_c<'('>) >> dsl::parenthesized(dsl::p<Tr15> + dsl::p<Em15>);
};
template <>
struct G<15>
{
    NAME("G");
    static constexpr auto rule = LEXY_DEBUG("start") + dsl::p<Em15> + dsl::inline_<Comb> + dsl::try_(dsl::p<Tr15> | dsl::p<Nest15>, dsl::lit_c<'!'>) + dsl::p<Em15> + LEXY_DEBUG("end") + dsl::eof;
};
RUN(15, {"ab!()", 6, 7})

//=== lookahead and backtracking ===//
template <>
struct G<16>
{
    NAME("G");
    static constexpr auto rule = dsl::opt(dsl::peek(dsl::lit_c<'a'> + dsl::lit_c<'b'>) >> dsl::p<Comb>)
                                 + (dsl::lookahead(dsl::lit_c<'!'>, dsl::newline) >> dsl::until(dsl::lit_c<'!'>) | dsl::peek_not(LEXY_LIT("ba")) >> dsl::opt(dsl::lit_c<'b'>) | dsl::error<tagged>)
                                 + dsl::while_(dsl::lit_c<'a'>.kind<tk::a> | dsl::newline | LEXY_LIT("ba") >> dsl::lit_c<'!'>) + dsl::eol;
};
RUN(16, {"ab!\n", 6, 8})

//=== lists with recovery; productions as separators and terminators ===//
struct Sep17
{
    NAME("Sep");
    static constexpr auto rule = dsl::lit_c<','> >> dsl::if_(dsl::lit_c<' '>);
};
struct End17
{
    NAME("End");
    static constexpr auto rule = dsl::lit_c<';'> >> dsl::if_(dsl::lit_c<';'>);
};
template <>
struct G<17>
{
    NAME("G");
    static constexpr auto rule = dsl::terminator(dsl::p<End17>).list(dsl::p<Comb>, dsl::sep(dsl::p<Sep17>)) + dsl::opt(dsl::list(dsl::p<Comb>, dsl::sep(dsl::p<Sep17>)));
};
RUN(17, {"a,; !", 6, 7})
template <>
struct G<18>
{
    NAME("G");
    static constexpr auto rule = dsl::curly_bracketed.limit(dsl::newline).try_(dsl::p<Comb> + dsl::lit_c<'b'>) + dsl::opt(dsl::newline) + dsl::round_bracketed.opt_list(dsl::p<Comb>, dsl::ignore_trailing_sep(dsl::comma));
};
RUN(18, {"{}ab\n", 6, 7})

//=== text ===//
template <>
struct G<19>
{
    NAME("G");
    static constexpr auto rule = dsl::while_(dsl::ascii::case_folding(LEXY_LIT("ab")) | dsl::literal_set(LEXY_LIT("b"), LEXY_LIT("bb")) | dsl::unicode::simple_case_folding(LEXY_LIT("\u00E4")))
                                 + dsl::try_(dsl::code_point, dsl::nullopt) + dsl::if_(dsl::any);
};
RUN(19, {"aAb\xC3\xA4", 5, 7})
struct Rec20
{
    NAME("Rec");
    static constexpr auto rule = dsl::recover(dsl::p<Comb>, dsl::lit_c<';'>).limit(dsl::newline);
};
template <>
struct G<20>
{
    NAME("G");
    static constexpr auto rule = dsl::try_(dsl::lit_c<'b'> + dsl::p<Comb> + dsl::lit_c<'.'>, dsl::recover(dsl::p<Comb>, dsl::lit_c<';'>).limit(dsl::newline))
                                 + dsl::try_(dsl::lit_c<'a'>.error<tagged>, dsl::until(dsl::lit_c<'.'>).or_eof());
};
RUN(20, {"ab.;\n", 6, 7})
// failing in nested productions
struct A21;
struct C21
{
    NAME("C");
    static constexpr auto rule = dsl::lit_c<'c'> >> dsl::must(dsl::lit_c<'a'>).error<tagged>;
};
struct B21
{
    NAME("B");
    static constexpr auto rule = dsl::lit_c<'b'> + dsl::p<C21> + dsl::opt(dsl::newline);
};
struct TB21 : lexy::transparent_production
{
    NAME("TB");
    static constexpr auto rule = dsl::p<B21> + dsl::lit_c<'a'>;
};
template <>
struct G<21>
{
    NAME("G");
    static constexpr auto rule = dsl::try_(dsl::p<TB21>) + dsl::try_(dsl::p<B21>, dsl::lit_c<'.'>) + dsl::try_(dsl::p<TB21>, dsl::find(dsl::lit_c<'.'>)) + dsl::p<B21>;
};
RUN(21, {"abc.\n", 6, 8})
struct Void22
{
    static constexpr auto name  = "Void";
    static constexpr auto rule  = dsl::lit_c<'a'>.kind<tk::a> >> dsl::opt(dsl::lit_c<'!'>);
    static constexpr auto value = lexy::noop;
};
template <>
struct G<22>
{
    NAME("G");
    static constexpr auto rule = dsl::loop(dsl::p<Void22> | dsl::newline | dsl::else_ >> dsl::break_) + (dsl::lit_c<'.'> >> dsl::return_ | dsl::else_ >> dsl::p<B21>) + dsl::eof;
};
RUN(22, {"ab.!\nc", 5, 7})
} // namespace
PARTS_MAIN
