// C15: operator expressions.
#include "parts.hpp"
#include "rec.hpp"
#include <functional>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <optional>
namespace dsl = lexy::dsl;

enum K
{
    Left,
    Right,
    List,
    Single,
    Post,
    Pre
};
inline const char* kname(K k)
{
    static const char* n[] = {"left", "right", "list", "single", "postfix", "prefix"};
    return n[k];
}
//=== the model ===//
struct MOp
{
    std::string text;
    std::string tag;            // what the callback sees: "+@" gets the position appended; "" if none
    bool (*nf)(char) = nullptr; // must not be followed by
    char        close = 0;      // operator ends with a nested expression and this character
    bool        fold  = false;
};
struct MLv
{
    K                k;
    std::vector<MOp> ops;
    unsigned         level, group;
    std::string      name;
    unsigned         lhs() const
    {
        return k == Pre ? 0 : k == Right || k == Post ? 2 * level + 1 : 2 * level;
    }
    unsigned rhs() const
    {
        return k == Post ? 0 : k == Right ? 2 * level : 2 * level + 1;
    }
};
struct Model
{
    std::vector<MLv> lv;
    unsigned         limit = 256;
    unsigned         root  = 0; // minimal binding power at the start
    bool             ws    = false;
    bool             voidv = false;

    using Nodes = std::vector<std::string>;
    using Val   = std::optional<std::string>;
    std::string           s;
    size_t                i;
    size_t                far; // furthest character looked at
    std::vector<rec::Err> errs;
    std::string           log;

    struct Ctx
    {
        Val      value;
        unsigned group = 0, nesting = 0;
    };
    static std::string cat(const Nodes& n)
    {
        std::string r;
        for (auto& x : n)
            r += (r.empty() ? "" : " ") + x;
        return r;
    }
    void look(size_t p)
    {
        far = std::max(far, p);
    }
    std::string call(const std::string& args)
    {
        if (voidv)
            return log += "(" + args + ")", "v";
        return "(" + args + ")";
    }
    static std::string join(const std::string& a, const std::string& b)
    {
        return a.empty() ? b : b.empty() ? a : a + " " + b;
    }
    void token(Nodes& out, size_t n)
    {
        out.push_back("'" + s.substr(i, n) + "'");
        i += n;
        space(out);
    }
    void space(Nodes& out)
    {
        auto b = i;
        while (ws && i < s.size() && s[i] == ' ')
            ++i;
        look(i);
        if (b != i)
            out.push_back("w" + std::to_string(i - b));
    }
    // longest operator of the given levels at the current position
    bool match(const std::vector<const MLv*>& ls, const MLv*& l, const MOp*& o)
    {
        o = nullptr;
        for (auto x : ls)
            for (auto& y : x->ops)
            {
                auto n = y.text.size();
                look(i + n);
                auto t = s.substr(i, n);
                if (y.fold)
                    for (auto& c : t)
                        c = char(c | 32);
                if (t != y.text || (y.nf && i + n < s.size() && y.nf(s[i + n])))
                    continue;
                if (!o || n > o->text.size())
                    l = x, o = &y;
            }
        return o;
    }
    bool close(char c, Nodes& out)
    {
        look(i);
        if (i < s.size() && s[i] == c)
            return token(out, 1), true;
        errs.push_back({"expected literal", long(i), long(i), 0, std::string(1, c)});
        return false;
    }
    bool nested(Nodes& out, std::string& value)
    {
        auto  b = i;
        Ctx   c;
        Nodes n;
        if (!expr(c, n))
        {
            if (i != b)
                out.push_back("error");
            return false;
        }
        out.push_back("expr{" + cat(n) + "}");
        value = *c.value;
        return true;
    }
    bool atom(Ctx& c, Nodes& out)
    {
        look(i);
        if (i < s.size() && s[i] == 'a')
        {
            auto t = "a@" + std::to_string(i);
            token(out, 1);
            c.value = call(t);
            return true;
        }
        if (i < s.size() && s[i] == '(')
        {
            token(out, 1);
            std::string v;
            if (!nested(out, v) || !close(')', out))
                return false;
            c.value = call(voidv ? "" : v);
            return true;
        }
        errs.push_back({"exhausted choice", long(i), long(i), -1, ""});
        return false;
    }
    // the remainder of an operator
    bool finish(const MOp& o, Nodes& out, std::string& args)
    {
        args = o.tag.empty() ? "" : o.tag.back() == '@' ? o.tag + std::to_string(i) : o.tag;
        token(out, o.text.size());
        if (!o.close)
            return true;
        std::string v;
        if (!nested(out, v) || !close(o.close, out))
            return false;
        args = join(args, voidv ? "" : v);
        return true;
    }
    void wrap(Nodes& out, const MLv& l)
    {
        auto n = l.name + "{" + cat(out) + "}";
        out    = {n};
    }
    bool op(Ctx& c, Nodes& out, const MLv& l, const MOp& o)
    {
        auto begin = long(i), end = long(i + o.text.size());
        if (c.nesting++ >= limit)
        {
            errs.push_back({"maximum operator nesting level exceeded", begin, end, -1, ""});
            return false;
        }
        if (l.group)
        {
            if (!c.group)
                c.group = l.group;
            else if (c.group != l.group)
                errs.push_back({"operator cannot be mixed with previous operators", begin, end, -1, ""});
        }
        std::string args;
        if (!finish(o, out, args))
            return false;
        if (l.k == List)
        {
            auto acc = voidv ? "" : "{" + *c.value + "}";
            acc += args.empty() ? "" : "{" + args + "}"; // the sink is not called without values
            c.value.reset();
            bool ok = true;
            while (true)
            {
                if (!parse(l.rhs(), c, out))
                {
                    ok = false;
                    break;
                }
                if (!voidv)
                    acc += "{" + *c.value + "}";
                c.value.reset();
                const MLv* l2;
                const MOp* o2;
                if (!match({&l}, l2, o2))
                    break;
                if (!finish(*o2, out, args))
                {
                    ok = false;
                    // nothing of a failed operator reaches the sink
                    break;
                }
                acc += args.empty() ? "" : "{" + args + "}";
            }
            if (voidv)
                log += "[" + acc + "]", c.value = "v";
            else
                c.value = "[" + acc + "]";
            if (!ok)
                return false;
        }
        else if (l.k == Pre)
        {
            if (!parse(l.rhs(), c, out))
                return false;
            c.value = call(voidv ? args : join(args, *c.value));
        }
        else if (l.k == Post)
            c.value = call(voidv ? args : join(*c.value, args));
        else
        {
            auto lhs = c.value;
            c.value.reset();
            if (!parse(l.rhs(), c, out))
            {
                c.value = lhs;
                return false;
            }
            c.value = call(voidv ? args : join(join(*lhs, args), *c.value));
            const MLv* l2;
            const MOp* o2;
            if (l.k == Single && match({&l}, l2, o2))
                errs.push_back({"operator cannot be chained", long(i), long(i + o2->text.size()), -1, ""});
        }
        wrap(out, l);
        return true;
    }
    bool parse(unsigned min, Ctx& c, Nodes& result)
    {
        std::vector<const MLv*> pre, post;
        for (auto& l : lv)
            if (l.k == Pre ? l.rhs() >= min : l.lhs() >= min)
                (l.k == Pre ? pre : post).push_back(&l);
        Nodes      out, p;
        const MLv* l;
        const MOp* o;
        bool       ok;
        if (match(pre, l, o))
            ok = op(c, p, *l, *o);
        else
            ok = atom(c, p);
        out = p;
        while (ok && match(post, l, o))
            ok = op(c, out, *l, *o);
        result.insert(result.end(), out.begin(), out.end());
        return ok;
    }
    bool expr(Ctx& c, Nodes& n, unsigned min = 0)
    {
        parse(min, c, n);
        return c.value.has_value();
    }
    struct Res
    {
        bool        ok;
        std::string value, tree;
        size_t      end;
    };
    Res run(const std::string& in)
    {
        s   = in;
        i   = 0;
        far = 0;
        errs.clear();
        log.clear();
        Nodes out, n;
        Ctx   c;
        space(out);
        bool ok = expr(c, n, root);
        if (ok)
            out.push_back((root ? "sub{" : "expr{") + cat(n) + "}");
        return {ok, ok ? *c.value : "", ok ? cat(out) : "", i};
    }
};
//=== observing ===//
inline std::string& lg()
{
    static std::string s;
    return s;
}
template <char C>
struct Tag
{
    const char* p;
    constexpr Tag(const char* p) : p(p) {}
};
struct St
{
    int n = 7;
};
template <char C>
struct StTag
{
    const char* p;
    int         n;
    constexpr StTag(const St& s, const char* p) : p(p), n(s.n) {}
};
template <char C>
struct DefTag
{};
template <char C>
inline std::string sh(Tag<C> t)
{
    return std::string(1, C) + "@" + std::to_string(rec::at(t.p));
}
template <char C>
inline std::string sh(StTag<C> t)
{
    return std::string(1, C) + "s" + std::to_string(t.n) + "@" + std::to_string(rec::at(t.p));
}
template <char C>
inline std::string sh(DefTag<C>)
{
    return std::string("d") + C;
}
inline std::string sh(const char* p)
{
    return "$" + std::to_string(rec::at(p));
}
inline std::string sh(std::string s)
{
    return s;
}
template <typename R>
inline std::string sh(lexy::lexeme<R> l)
{
    return std::string(l.begin(), l.end()) + "@" + std::to_string(rec::at(l.begin()));
}
template <typename T, T V>
inline std::string sh(lexy::_opv<T, V> v)
{
    return "#" + std::to_string(int(T(v)));
}
template <typename L>
inline std::string sh(lexy::_op<L>)
{
    // distinguishes the operators by their (documented) unique type
    return "op" + std::string(sizeof(L) ? "" : "");
}
template <typename... A>
inline std::string shs(A&&... a)
{
    std::string r;
    int         n = 0;
    (void)n;
    ((r += (n++ ? " " : "") + sh(std::forward<A>(a))), ...);
    return r;
}
struct Val
{
    using return_type = std::string;
    template <typename... A>
    std::string operator()(A&&... a) const
    {
        return "(" + shs(std::forward<A>(a)...) + ")";
    }
    struct S
    {
        using return_type = std::string;
        std::string r;
        template <typename... A>
        void operator()(A&&... a)
        {
            r += "{" + shs(std::forward<A>(a)...) + "}";
        }
        std::string finish() &&
        {
            return "[" + r + "]";
        }
    };
    auto sink() const
    {
        return S{};
    }
};
struct VoidVal
{
    using return_type = void;
    template <typename... A>
    void operator()(A&&... a) const
    {
        lg() += "(" + shs(std::forward<A>(a)...) + ")";
    }
    struct S
    {
        using return_type = void;
        std::string r;
        template <typename... A>
        void operator()(A&&... a)
        {
            r += "{" + shs(std::forward<A>(a)...) + "}";
        }
        void finish() &&
        {
            lg() += "[" + r + "]";
        }
    };
    auto sink() const
    {
        return S{};
    }
};
//=== operator sets ===//
template <int S>
struct Ops;
#define OPSET(S, RULE, ...)                                                                        \
    template <>                                                                                    \
    struct Ops<S>                                                                                  \
    {                                                                                              \
        template <typename E>                                                                      \
        static constexpr auto rule()                                                               \
        {                                                                                          \
            return RULE;                                                                           \
        }                                                                                          \
        static std::vector<MOp> model()                                                            \
        {                                                                                          \
            return __VA_ARGS__;                                                                    \
        }                                                                                          \
    };
#define OP(C, T) dsl::op<Tag<C>>(T)
inline bool is_star(char c)
{
    return c == '*';
}
inline bool is_alpha(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
constexpr auto id = dsl::identifier(dsl::ascii::alpha);
OPSET(0, OP('+', dsl::lit_c<'+'>), {{"+", "+@"}})
OPSET(1, OP('*', dsl::lit_c<'*'>), {{"*", "*@"}})
OPSET(2, OP('^', dsl::lit_c<'^'>), {{"^", "^@"}})
OPSET(3, (OP('+', dsl::lit_c<'+'>) / OP('-', dsl::lit_c<'-'>)), {{"+", "+@"}, {"-", "-@"}})
OPSET(4, (OP('*', dsl::lit_c<'*'>) / OP('%', LEXY_LIT("**"))), {{"*", "*@"}, {"**", "%@"}})
OPSET(5, OP('%', LEXY_LIT("**")), {{"**", "%@"}})
OPSET(6, OP('*', dsl::not_followed_by(dsl::lit_c<'*'>, dsl::lit_c<'*'>)), {{"*", "*@", is_star}})
OPSET(7, OP('?', (dsl::lit_c<'?'> >> dsl::recurse<E> + dsl::lit_c<':'>)), {{"?", "?@", nullptr, ':'}})
OPSET(8, OP('[', (dsl::lit_c<'['> >> dsl::recurse<E> + dsl::lit_c<']'>)), {{"[", "[@", nullptr, ']'}})
OPSET(9, (OP('x', dsl::ascii::case_folding(LEXY_LIT("x"))) / OP('+', dsl::lit_c<'+'>)), {{"x", "x@", nullptr, 0, true}, {"+", "+@"}})
OPSET(10, OP('o', LEXY_KEYWORD("or", id)), {{"or", "o@", is_alpha}})
OPSET(11, (dsl::op<void>(dsl::lit_c<'-'>) / dsl::op<DefTag<'~'>>(dsl::lit_c<'~'>)), {{"-", ""}, {"~", "d~"}})
OPSET(12, (dsl::op<5>(dsl::lit_c<'+'>) / dsl::op<6>(dsl::lit_c<'-'>)), {{"+", "#5"}, {"-", "#6"}})
OPSET(13, dsl::op(dsl::lit_c<'+'>), {{"+", "op"}})
OPSET(14, (dsl::op<StTag<'+'>>(dsl::lit_c<'+'>) / dsl::op<StTag<'['>>(dsl::lit_c<'['> >> dsl::recurse<E> + dsl::lit_c<']'>)), {{"+", "+s7@"}, {"[", "[s7@", nullptr, ']'}})
OPSET(15, (OP('<', dsl::lit_c<'<'>) / OP('l', LEXY_LIT("<=")) / OP('s', LEXY_LIT("<<="))), {{"<", "<@"}, {"<=", "l@"}, {"<<=", "s@"}})
OPSET(16, OP('-', dsl::lit_c<'-'>), {{"-", "-@"}})
OPSET(17, OP('m', LEXY_LIT("--")), {{"--", "m@"}})
OPSET(18, (dsl::op<void>(dsl::lit_c<','>)), {{",", ""}})
OPSET(19, (OP(',', dsl::lit_c<','>) / OP('[', (dsl::lit_c<'['> >> dsl::recurse<E> + dsl::lit_c<']'>))), {{",", ",@"}, {"[", "[@", nullptr, ']'}})
OPSET(20, ((OP('+', dsl::lit_c<'+'>) / OP('-', dsl::lit_c<'-'>)) / (OP('*', dsl::lit_c<'*'>) / OP('^', dsl::lit_c<'^'>))), {{"+", "+@"}, {"-", "-@"}, {"*", "*@"}, {"^", "^@"}})
OPSET(21, OP('&', dsl::lit_c<'&'>), {{"&", "&@"}})
OPSET(22, OP('|', dsl::lit_c<'|'>), {{"|", "|@"}})
// a table as large as that of C++: many levels, many operators a level, many common prefixes
OPSET(30, OP(',', dsl::lit_c<','>), {{",", ",@"}})
OPSET(31, (OP('=', dsl::lit_c<'='>) / OP('A', LEXY_LIT("+=")) / OP('B', LEXY_LIT("-=")) / OP('C', LEXY_LIT("*=")) / OP('D', LEXY_LIT("/=")) / OP('E', LEXY_LIT("%=")) / OP('F', LEXY_LIT("<<=")) / OP('G', LEXY_LIT(">>=")) / OP('H', LEXY_LIT("&=")) / OP('I', LEXY_LIT("^=")) / OP('J', LEXY_LIT("|=")) / OP('?', (dsl::lit_c<'?'> >> dsl::recurse<E> + dsl::lit_c<':'>))),
      {{"=", "=@"}, {"+=", "A@"}, {"-=", "B@"}, {"*=", "C@"}, {"/=", "D@"}, {"%=", "E@"}, {"<<=", "F@"}, {">>=", "G@"}, {"&=", "H@"}, {"^=", "I@"}, {"|=", "J@"}, {"?", "?@", nullptr, ':'}})
OPSET(32, OP('K', LEXY_LIT("||")), {{"||", "K@"}})
OPSET(33, OP('L', LEXY_LIT("&&")), {{"&&", "L@"}})
OPSET(34, OP('|', dsl::lit_c<'|'>), {{"|", "|@"}})
OPSET(35, OP('^', dsl::lit_c<'^'>), {{"^", "^@"}})
OPSET(36, OP('&', dsl::lit_c<'&'>), {{"&", "&@"}})
OPSET(37, (OP('M', LEXY_LIT("==")) / OP('N', LEXY_LIT("!="))), {{"==", "M@"}, {"!=", "N@"}})
OPSET(38, (OP('<', dsl::lit_c<'<'>) / OP('>', dsl::lit_c<'>'>) / OP('O', LEXY_LIT("<=")) / OP('P', LEXY_LIT(">="))), {{"<", "<@"}, {">", ">@"}, {"<=", "O@"}, {">=", "P@"}})
OPSET(39, OP('Q', LEXY_LIT("<=>")), {{"<=>", "Q@"}})
OPSET(40, (OP('R', LEXY_LIT("<<")) / OP('S', LEXY_LIT(">>"))), {{"<<", "R@"}, {">>", "S@"}})
OPSET(41, (OP('+', dsl::lit_c<'+'>) / OP('-', dsl::lit_c<'-'>)), {{"+", "+@"}, {"-", "-@"}})
OPSET(42, (OP('*', dsl::lit_c<'*'>) / OP('/', dsl::lit_c<'/'>) / OP('%', dsl::lit_c<'%'>)), {{"*", "*@"}, {"/", "/@"}, {"%", "%@"}})
OPSET(43, (OP('T', LEXY_LIT(".*")) / OP('U', LEXY_LIT("->*"))), {{".*", "T@"}, {"->*", "U@"}})
OPSET(44, (OP('a', LEXY_LIT("++")) / OP('b', LEXY_LIT("--")) / OP('c', dsl::lit_c<'+'>) / OP('d', dsl::lit_c<'-'>) / OP('!', dsl::lit_c<'!'>) / OP('~', dsl::lit_c<'~'>) / OP('e', dsl::lit_c<'*'>) / OP('f', dsl::lit_c<'&'>)),
      {{"++", "a@"}, {"--", "b@"}, {"+", "c@"}, {"-", "d@"}, {"!", "!@"}, {"~", "~@"}, {"*", "e@"}, {"&", "f@"}})
OPSET(45, (OP('g', LEXY_LIT("++")) / OP('h', LEXY_LIT("--")) / OP('[', (dsl::lit_c<'['> >> dsl::recurse<E> + dsl::lit_c<']'>)) / OP('.', LEXY_LIT(".")) / OP('V', LEXY_LIT("->"))), {{"++", "g@"}, {"--", "h@"}, {"[", "[@", nullptr, ']'}, {".", ".@"}, {"->", "V@"}})

//=== tables ===//
template <K>
struct base_of;
template <>
struct base_of<Left>
{
    using type = dsl::infix_op_left;
};
template <>
struct base_of<Right>
{
    using type = dsl::infix_op_right;
};
template <>
struct base_of<List>
{
    using type = dsl::infix_op_list;
};
template <>
struct base_of<Single>
{
    using type = dsl::infix_op_single;
};
template <>
struct base_of<Post>
{
    using type = dsl::postfix_op;
};
template <>
struct base_of<Pre>
{
    using type = dsl::prefix_op;
};
inline constexpr const char* onames[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12", "o13", "o14", "o15", "o16", "o17", "o18", "o19"};
template <typename E, int Id, K k, int S, typename Operand>
struct Opn : base_of<k>::type
{
    static constexpr const char* name = onames[Id];
    static constexpr auto        op   = Ops<S>::template rule<E>();
    using operand                     = Operand;
};
template <K k, int S>
struct Lv
{};
// Lv..., optionally followed by one Grp<Chain...>
template <typename... T>
struct Chain;
template <typename... T>
struct Grp;
template <>
struct Chain<>
{
    static constexpr int size = 0;
    template <typename E, int Id>
    using op = dsl::atom;
    static void fill(Model&, int, unsigned, unsigned&, unsigned) {}
};
template <K k, int S, typename... T>
struct Chain<Lv<k, S>, T...>
{
    using Tail                = Chain<T...>;
    static constexpr int size = 1 + Tail::size;
    template <typename E, int Id>
    using op = Opn<E, Id, k, S, typename Tail::template op<E, Id + 1>>;
    static void fill(Model& m, int id, unsigned level, unsigned& groups, unsigned group)
    {
        m.lv.push_back({k, Ops<S>::model(), level, group, onames[id]});
        Tail::fill(m, id + 1, level + 1, groups, group);
    }
};
template <typename A, typename B>
struct Chain<Grp<A, B>>
{
    static constexpr int size = A::size + B::size;
    template <typename E, int Id>
    using op = dsl::groups<typename A::template op<E, Id>, typename B::template op<E, Id + A::size>>;
    static void fill(Model& m, int id, unsigned level, unsigned& groups, unsigned)
    {
        A::fill(m, id, level, groups, ++groups);
        B::fill(m, id + A::size, level, groups, ++groups);
    }
};
template <typename A, typename B, typename C>
struct Chain<Grp<A, B, C>>
{
    static constexpr int size = A::size + B::size + C::size;
    template <typename E, int Id>
    using op = dsl::groups<typename A::template op<E, Id>, typename B::template op<E, Id + A::size>, typename C::template op<E, Id + A::size + B::size>>;
    static void fill(Model& m, int id, unsigned level, unsigned& groups, unsigned)
    {
        A::fill(m, id, level, groups, ++groups);
        B::fill(m, id + A::size, level, groups, ++groups);
        C::fill(m, id + A::size + B::size, level, groups, ++groups);
    }
};
template <typename T, unsigned Limit, bool Void>
struct Expr : lexy::expression_production
{
    static constexpr auto name                 = "expr";
    static constexpr auto max_operator_nesting = Limit;
    static constexpr auto atom = dsl::capture(dsl::lit_c<'a'>) | dsl::lit_c<'('> >> dsl::recurse<Expr> + dsl::lit_c<')'>;
    using operation            = typename T::template op<Expr, 0>;
    static constexpr auto value = std::conditional_t<Void, VoidVal, Val>{};
};
// the operation N levels below the root
template <typename Op, int N>
struct Nth
{
    using type = typename Nth<typename Op::operand, N - 1>::type;
};
template <typename Op>
struct Nth<Op, 0>
{
    using type = Op;
};
template <typename T, int N>
struct Sub : lexy::subexpression_production<Expr<T, 256, false>, typename Nth<typename Expr<T, 256, false>::operation, N>::type>
{
    static constexpr auto name = "sub";
};
template <typename E, bool Ws>
struct Top
{
    static constexpr auto name = "top";
    static constexpr auto rule = dsl::p<E> + dsl::position;
};
template <typename E>
struct Top<E, true> : Top<E, false>
{
    static constexpr auto whitespace = dsl::lit_c<' '>;
};
template <typename E, bool Ws>
struct VTop : Top<E, Ws>
{
    static constexpr auto value = lexy::callback<std::string>([](std::string v, const char* p) { return v + "$" + std::to_string(rec::at(p)); },
                                                              [](const char* p) { return "v$" + std::to_string(rec::at(p)); });
};
template <typename Node>
inline std::string tree_of(Node n)
{
    if (n.kind().is_token())
    {
        std::string t(n.token().lexeme().begin(), n.token().lexeme().end());
        if (n.token().kind() == lexy::whitespace_token_kind)
            return "w" + std::to_string(t.size());
        if (n.token().kind() == lexy::error_token_kind)
            return "error";
        return "'" + t + "'";
    }
    std::string r;
    for (auto c : n.children())
        r += (r.empty() ? "" : " ") + tree_of(c);
    return std::string(n.kind().name()) + "{" + r + "}";
}
template <typename E, bool Ws>
inline void one(Model& m, const std::string& s)
{
    auto want = m.run(s);
    auto in   = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
    rec::start(s.data());
    lg().clear();
    St   st;
    auto r = lexy::parse<VTop<E, Ws>>(in, st, rec::Cb{});
    vh::traces(1);
    auto got = r.has_value() ? r.value() : "none";
    auto exp = want.ok ? want.value + "$" + std::to_string(want.end) : "none";
    if (got != exp)
        return vh::fail("value of \"" + s + "\": expected " + exp + " actual " + got);
    if (lg() != m.log)
        return vh::fail("calls for \"" + s + "\": expected " + m.log + " actual " + lg());
    if (rec::show(rec::errs()) != rec::show(m.errs))
        return vh::fail("errors of \"" + s + "\": expected " + rec::show(m.errs) + " actual " + rec::show(rec::errs()));
    if (r.error_count() != m.errs.size())
        return vh::fail("error count of \"" + s + "\"");
    rec::errs().clear();
    lexy::parse_tree_for<decltype(in)> t;
    auto tr = lexy::parse_as_tree<Top<E, Ws>>(t, in, st, rec::Cb{});
    if (rec::show(rec::errs()) != rec::show(m.errs))
        return vh::fail("tree errors of \"" + s + "\": expected " + rec::show(m.errs) + " actual " + rec::show(rec::errs()));
    if (tr.is_fatal_error() == want.ok || t.empty() == want.ok)
        return vh::fail("tree status of \"" + s + "\"");
    if (want.ok)
    {
        auto tree = tree_of(t.root());
        if (tree != "top{" + want.tree + " ''}")
            return vh::fail("tree of \"" + s + "\": expected top{" + want.tree + "} actual " + tree);
        if (t.remaining_input().data() != s.data() + want.end)
            return vh::fail("remaining input of \"" + s + "\"");
    }
    vh::outcome(std::to_string(want.ok) + want.tree + rec::show(m.errs));
}
// Every string; a string is extended only while its last character was looked at.
template <typename E, bool Ws>
inline void all(Model& m, const std::string& alphabet, size_t n, std::string& s, uint64_t& count)
{
    one<E, Ws>(m, s);
    ++count;
    if (s.size() == n || m.far + 1 < s.size())
        return;
    for (auto c : alphabet)
    {
        s.push_back(c);
        all<E, Ws>(m, alphabet, n, s, count);
        s.pop_back();
    }
}
template <typename T, unsigned Limit = 256, bool Ws = false, bool Void = false, int SubLevel = -1>
inline void table(const std::string& what, const std::string& alphabet, size_t quick, size_t deep)
{
    Model m;
    m.limit         = Limit;
    m.ws            = Ws;
    m.voidv         = Void;
    unsigned groups = 0;
    T::fill(m, 0, 1, groups, 0);
    if constexpr (SubLevel >= 0)
        m.root = m.lv[SubLevel].k == Pre ? m.lv[SubLevel].rhs() : m.lv[SubLevel].lhs();
    for (char first : alphabet)
        vh::step([&] { return what + " limit " + std::to_string(Limit) + ", inputs starting with '" + first + "'"; },
                 [&] {
                     std::string s(1, first);
                     uint64_t    c = 0;
                     if constexpr (SubLevel >= 0)
                         all<Sub<T, SubLevel>, Ws>(m, alphabet, vh::thorough() ? deep + 2 : quick + 1, s, c);
                     else
                         all<Expr<T, Limit, Void>, Ws>(m, alphabet, vh::thorough() ? deep + 2 : quick + 1, s, c);
                     vh::transitions(c);
                 });
}
// all tables of three levels
template <int A, int B, int C>
inline void three()
{
    table<Chain<Lv<K(A), 0>, Lv<K(B), 1>, Lv<K(C), 2>>>(std::string("+ ") + kname(K(A)) + ", * " + kname(K(B)) + ", ^ " + kname(K(C)),
                                                       "a+*^", 7, 9);
}
template <int A>
inline void two()
{
    constexpr K a = K(A / 6), b = K(A % 6);
    auto        n = std::string("+- ") + kname(a) + ", * ** " + kname(b);
    table<Chain<Lv<a, 3>, Lv<b, 4>>>(n, "a+-*()", 5, 7);
    table<Chain<Lv<a, 3>, Lv<b, 4>>, 1>(n, "a+-*", 6, 8);
    table<Chain<Lv<a, 3>, Lv<b, 4>>, 2>(n, "a+*", 7, 10);
    table<Chain<Lv<a, 3>, Lv<b, 4>>, 256, true>(n + " with whitespace", "a+* (", 6, 7);
    table<Chain<Lv<a, 3>, Lv<b, 4>>, 256, false, true>(n + " without values", "a+-*()", 5, 7);
    table<Chain<Lv<a, 0>, Lv<b, 1>, Lv<Post, 2>>, 256, false, false, 1>(n + " from level 1", "a+*^(", 6, 8);
    table<Chain<Lv<Pre, 2>, Lv<a, 0>, Lv<b, 1>>, 256, false, false, 1>(n + " from level 1 of 3", "a+*^(", 6, 8);
    table<Chain<Lv<Pre, 2>, Lv<a, 0>, Lv<b, 1>>, 256, false, false, 0>(n + " from level 0 of 3", "a+*^", 6, 8);
    table<Chain<Grp<Chain<Lv<a, 3>>, Chain<Lv<b, 4>>>>>("groups of " + n, "a+*(", 6, 8);
    // the same operator in prefix position and elsewhere
    if constexpr ((a == Pre) != (b == Pre))
    {
        table<Chain<Lv<a, 3>, Lv<b, 16>>>("+- " + std::string(kname(a)) + ", - " + kname(b), "a+-(", 7, 9);
        table<Chain<Lv<a, 17>, Lv<b, 16>>>("-- " + std::string(kname(a)) + ", - " + kname(b), "a-", 9, 12);
        table<Chain<Lv<a, 16>, Lv<b, 17>>>("- " + std::string(kname(a)) + ", -- " + kname(b), "a-", 9, 12);
    }
    else if constexpr (a != Pre)
        // the longer operator binds tighter, the shorter one is guarded
        table<Chain<Lv<a, 6>, Lv<b, 5>>>("* " + std::string(kname(a)) + ", ** " + kname(b), "a*(", 8, 10);
    // nesting limits at their boundary, on long inputs
    if constexpr (b == Left)
    {
        using T = Chain<Lv<a, 0>>;
        vh::step([] { return std::string("long chains of ") + kname(a); }, [] {
            Model    m;
            unsigned groups = 0;
            T::fill(m, 0, 1, groups, 0);
            for (int n : {1, 2, 127, 128, 254, 255, 256, 257, 258, 400})
            {
                std::string s;
                if (a == Pre)
                    s = std::string(n, '+') + "a";
                else
                {
                    s = "a";
                    for (int j = 0; j < n; ++j)
                        s += a == Post ? "+" : "+a";
                }
                one<Expr<T, 256, false>, false>(m, s);
                one<Expr<T, 256, false>, false>(m, s + ")");
                m.limit = 255;
                one<Expr<T, 255, false>, false>(m, s);
                m.limit = 3;
                one<Expr<T, 3, false>, false>(m, s);
                m.limit = 0;
                one<Expr<T, 0, false>, false>(m, s);
                m.limit = 256;
                vh::transitions(4);
            }
        });
    }
}
// operators on their own
template <int S>
struct OpTop
{
    static constexpr auto name  = "top";
    static constexpr auto rule  = Ops<S>::template rule<Expr<Chain<Lv<Left, 2>>, 256, false>>() + dsl::position;
    static constexpr auto value = lexy::callback<std::string>([](auto... v) { return shs(v...); });
};
template <int S>
struct OpBranch
{
    static constexpr auto name  = "top";
    static constexpr auto rule  = dsl::lit_c<'b'> | (Ops<S>::template rule<Expr<Chain<Lv<Left, 2>>, 256, false>>() >> dsl::position);
    static constexpr auto value = lexy::callback<std::string>([](auto... v) { return shs(v...); });
};
template <int S>
inline void alone(const std::string& alphabet, size_t n)
{
    for (int branch = 0; branch < 2; ++branch)
        vh::step([&] { return std::string("operator on its own: set ") + std::to_string(S) + (branch ? " as branch" : ""); },
                 [&] {
                     Model    m; // nested expressions
                     unsigned g = 0;
                     Chain<Lv<Left, 2>>::fill(m, 0, 1, g, 0);
                     MLv l{Left, Ops<S>::model(), 1, 0, ""};
                     std::function<void(std::string&)> rec_ = [&](std::string& s) {
                         m.s = s;
                         m.i = m.far = 0;
                         m.errs.clear();
                         const MLv*   l2;
                         const MOp*   o;
                         std::string  want = "none", args;
                         Model::Nodes ns;
                         if (branch && !s.empty() && s[0] == 'b')
                             want = "";
                         else if (!m.match({&l}, l2, o))
                         {
                             if (branch)
                                 m.errs.push_back({"exhausted choice", 0, 0, -1, ""});
                             else if (l.ops.size() > 1)
                                 m.errs.push_back({"expected literal set", 0, 0, -1, ""});
                             else
                             {
                                 auto& t = l.ops[0].text;
                                 long  j = 0;
                                 while (size_t(j) < t.size() && size_t(j) < s.size() && t[j] == s[j])
                                     ++j;
                                 if (l.ops[0].nf)
                                     return; // reported as keyword or follow error: C12
                                 m.errs.push_back({"expected literal", 0, 0, j, t});
                             }
                         }
                         else if (m.finish(*o, ns, args))
                             want = Model::join(args, "$" + std::to_string(m.i));
                         auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
                         rec::start(s.data());
                         St   st;
                         auto r   = branch ? lexy::parse<OpBranch<S>>(in, st, rec::Cb{}) : lexy::parse<OpTop<S>>(in, st, rec::Cb{});
                         auto got = r.has_value() ? r.value() : "none";
                         vh::traces(1);
                         vh::transitions(1);
                         if (got != want)
                             return vh::fail("values of \"" + s + "\": expected " + want + " actual " + got);
                         if (rec::show(rec::errs()) != rec::show(m.errs))
                             return vh::fail("errors of \"" + s + "\": expected " + rec::show(m.errs) + " actual " + rec::show(rec::errs()));
                         if (s.size() < n)
                             for (auto c : alphabet)
                             {
                                 s.push_back(c);
                                 rec_(s);
                                 s.pop_back();
                             }
                     };
                     std::string s;
                     rec_(s);
                 });
}
#define THREE(A, B)                                                                                \
    static int t##A##B = parts::add<A * 6 + B>([](auto) {                                          \
        three<A, B, 0>();                                                                          \
        three<A, B, 1>();                                                                          \
        three<A, B, 2>();                                                                          \
        three<A, B, 3>();                                                                          \
        three<A, B, 4>();                                                                          \
        three<A, B, 5>();                                                                          \
    });                                                                                            \
    static int u##A##B = parts::add<A * 6 + B>([](auto) { two<A * 6 + B>(); });
#define SIX(A) THREE(A, 0) THREE(A, 1) THREE(A, 2) THREE(A, 3) THREE(A, 4) THREE(A, 5)
SIX(0)
SIX(1) SIX(2) SIX(3) SIX(4) SIX(5)
template <K k, int S>
using One = Chain<Lv<k, S>>;
static int s0 = parts::add<36>([](auto) {
    table<Chain<Lv<Right, 7>, Lv<Left, 0>, Lv<Post, 8>>>("ternary, +, index", "a?:+[]", 6, 8);
    table<Chain<Lv<Right, 7>, Lv<Left, 0>, Lv<Post, 8>>, 256, true>("ternary, +, index with whitespace", "a?: []", 6, 7);
    table<Chain<Lv<Right, 7>, Lv<Left, 0>, Lv<Post, 8>>, 1>("ternary, +, index", "a?:+[]", 6, 8);
});
static int s1 = parts::add<37>([](auto) {
    table<Chain<Lv<List, 19>, Lv<Left, 0>>>("comma or index list, +", "a,+[]", 7, 8);
    table<Chain<Lv<Pre, 8>, Lv<Left, 0>>>("[..] prefix, +", "a+[]", 8, 9);
    table<Chain<Lv<Left, 0>, Lv<Pre, 8>>>("+, [..] prefix", "a+[]", 8, 9);
    table<Chain<Lv<List, 18>, Lv<Left, 0>>>("untagged comma list, +", "a,+", 8, 10);
    table<Chain<Lv<List, 19>, Lv<Left, 0>>, 256, false, true>("comma or index list, + without values", "a,+[]", 7, 8);
});
static int s2 = parts::add<38>([](auto) {
    table<Chain<Lv<Left, 9>, Lv<Pre, 16>>>("x + folded, - prefix", "aAxX+-", 6, 8);
    table<Chain<Lv<Left, 10>, Lv<Pre, 16>>>("or, - prefix", "aor-", 7, 9);
    table<Chain<Lv<Single, 10>, Lv<Post, 1>>, 256, true>("or, * postfix with whitespace", "aor *", 7, 8);
    table<Chain<Lv<Left, 11>, Lv<Pre, 13>>>("- ~ without position, + prefix", "a-~+", 7, 9);
    table<Chain<Lv<Pre, 11>, Lv<Post, 12>>>("- ~ prefix, +/- postfix", "a-~+", 7, 9);
    table<Chain<Lv<Right, 12>, Lv<Post, 1>>>("+ - as values", "a-*+", 7, 9);
    table<Chain<Lv<Post, 11>>>("- ~ postfix", "a-~", 8, 10);
});
static int s3 = parts::add<39>([](auto) {
    table<Chain<Lv<Left, 14>, Lv<Pre, 16>>>("state tags", "a+[]-", 6, 8);
    table<Chain<Lv<List, 15>, Lv<Left, 3>>>("< <= <<= list, + -", "a<=+", 8, 9);
    table<Chain<Lv<Single, 15>, Lv<Left, 3>>>("< <= <<= single, + -", "a<=+", 8, 9);
    table<Chain<Lv<Left, 15>, Lv<Post, 16>>, 2>("< <= <<= left, -", "a<=-", 7, 9);
    table<Chain<Lv<Left, 20>>>("composed choice", "a+-*^", 7, 8);
    table<Chain<Lv<Pre, 20>, Lv<Left, 21>>>("composed choice prefix", "a+-*^&", 6, 7);
});
static int s4 = parts::add<40>([](auto) {
    table<Chain<Lv<Left, 2>, Grp<Chain<Lv<Left, 3>, Lv<Pre, 1>>, Chain<Lv<Right, 21>, Lv<Left, 22>>>>>("^ over groups", "a^+*&|", 6, 8);
    table<Chain<Grp<Chain<Lv<Left, 0>>, Chain<Lv<List, 21>>, Chain<Lv<Single, 22>>>>>("three groups", "a+&|(", 7, 8);
    table<Chain<Grp<Chain<Lv<Pre, 0>>, Chain<Lv<Post, 21>>, Chain<Lv<Right, 22>, Lv<Post, 1>>>>, 3>("three groups", "a+&|*", 7, 8);
    table<Chain<Lv<Single, 2>, Grp<Chain<Lv<Left, 3>, Lv<Pre, 1>>, Chain<Lv<Right, 21>, Lv<Left, 22>>>>, 256, true>("^ over groups with whitespace", "a^+* &|", 5, 7);
    table<Chain<Grp<Chain<Lv<List, 3>>, Chain<Lv<Single, 21>>>>, 256, false, true>("groups without values", "a+-&", 7, 8);
});
static int s5 = parts::add<41>([](auto) {
    table<Chain<Lv<Left, 0>, Lv<Left, 1>, Lv<Right, 2>, Lv<Pre, 16>, Lv<Post, 21>>>("five levels", "a+*^-&", 7, 8);
    table<Chain<Lv<Left, 0>, Lv<Pre, 1>, Lv<Right, 2>, Lv<Post, 16>, Lv<List, 21>>>("five levels mixed", "a+*^-&", 7, 8);
    table<Chain<Lv<Pre, 0>, Lv<List, 1>, Lv<Single, 2>, Lv<Pre, 16>, Lv<Post, 21>>, 2>("five levels mixed", "a+*^-&", 7, 8);
});
static int s6 = parts::add<42>([](auto) {
    alone<0>("+-a", 3);
    alone<3>("+-a", 3);
    alone<4>("*a", 4);
    alone<5>("*a", 4);
    alone<6>("*a", 4);
    alone<7>("?:ab^", 5);
    alone<8>("[]ab^", 5);
    alone<9>("xX+a", 3);
    alone<11>("-~a", 3);
    alone<12>("+-a", 3);
    alone<13>("+-a", 3);
    alone<14>("+[]a^", 5);
    alone<15>("<=a", 5);
    alone<20>("+-*^ba", 3);
});
template <typename T, unsigned Limit>
inline void large(const char* what)
{
    static const char* infix[]  = {",", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|=", "?a:", "||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<=>", "<<", ">>", "+", "-", "*", "/", "%", ".*", "->*"};
    static const char* prefix[] = {"++", "--", "+", "-", "!", "~", "*", "&"};
    static const char* post[]   = {"++", "--", "[a]", ".", "->"};
    Model              m;
    m.ws            = true;
    m.limit         = Limit;
    unsigned groups = 0;
    T::fill(m, 0, 1, groups, 0);
    using E = Expr<T, Limit, false>;
    for (auto first : infix)
        vh::step([&] { return std::string(what) + ": a " + first; }, [&] {
            uint64_t n  = 0;
            auto     go = [&](const std::string& s) { one<E, true>(m, s), ++n; };
            auto     a  = std::string("a ") + first + " a";
            go(a), go(std::string("a ") + first), go(std::string("a") + first + "a"), go(std::string(first) + " a");
            for (auto x : infix)
            {
                // with and without spaces, where neighbouring operators run together
                go(a + " " + x + " a"), go(std::string("a") + first + "a" + x + "a"), go(std::string("a ") + first + x + " a"), go(std::string("a ") + first + " " + x + " a");
                for (auto y : infix)
                {
                    go(a + " " + x + " a " + y + " a");
                    if (vh::thorough())
                        for (auto z : infix)
                            go(a + " " + x + " a " + y + " a " + z + " a");
                }
                for (auto y : prefix)
                    go(std::string("a ") + first + " " + y + " a " + x + " a"), go(y + std::string(" a ") + first + " a " + x + " " + y + " a"), go(std::string("a") + first + y + "a" + x + y + "a");
                for (auto y : post)
                    go(std::string("a ") + first + " a " + y + " " + x + " a"), go(std::string("a ") + y + " " + first + " a " + x + " a " + y), go(std::string("a") + y + first + "a" + y + x + "a");
            }
            for (auto x : prefix)
                for (auto y : prefix)
                    for (auto z : post)
                        go(std::string("a ") + first + " " + x + " " + y + " a " + z), go(x + std::string(y) + "a" + z + first + "a");
            for (auto x : prefix)
                for (auto y : post)
                    for (auto z : post)
                        go(x + std::string(" a ") + y + " " + z + " " + first + " a");
            vh::transitions(n);
        });
}
static int s7 = parts::add<43>([](auto) {
    large<Chain<Lv<Left, 30>, Lv<Right, 31>, Lv<Left, 32>, Lv<Left, 33>, Lv<Left, 34>, Lv<Left, 35>, Lv<Left, 36>, Lv<Left, 37>, Lv<Left, 38>, Lv<Left, 39>, Lv<Left, 40>, Lv<Left, 41>, Lv<Left, 42>, Lv<Left, 43>, Lv<Pre, 44>, Lv<Post, 45>>, 256>("sixteen levels");
});
static int s8 = parts::add<44>([](auto) {
    large<Chain<Lv<List, 30>, Lv<Right, 31>, Lv<Left, 32>, Lv<List, 33>, Lv<Right, 34>, Lv<Left, 35>, Lv<Pre, 44>, Lv<List, 36>, Lv<Single, 37>, Lv<Single, 38>, Lv<Single, 39>, Lv<Right, 40>, Lv<Left, 41>, Lv<List, 42>, Lv<Post, 45>, Lv<Right, 43>>, 256>("sixteen mixed levels");
});
PARTS_MAIN
