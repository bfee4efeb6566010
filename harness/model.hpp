// Reference model of lexy's grammar rules: a small, directly written recursive-descent interpreter
// over a rule AST.  It is independent of lexy's code (no lexy header is included here) and predicts
// result, consumed input, produced values, reported errors and the parse tree.
#ifndef MODEL_HPP
#define MODEL_HPP
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model
{
using Vals = std::vector<std::string>;
enum R
{
    FAIL,
    OK,
    BRK, // a loop's break was reached
    RET, // the current production is finished early
};

struct TNode
{
    bool               prod;
    std::string        name;
    int                b, e;
    std::vector<TNode> kids;
};

struct Node;
struct Prod
{
    std::string name;
    const Node* rule        = nullptr;
    bool        token       = false;
    bool        transparent = false;
    bool        has_ws      = false;
    const Node* ws          = nullptr;
    int         max_depth   = 1024;
    // How the values of the production become its value; default "(a,b)".
    std::function<std::string(const Vals&)> callback;
};

// The input: code units; positions are indices.
struct Ctx
{
    const std::vector<uint32_t>* in = nullptr;
    int                          pos = 0;
    std::vector<std::string>     errs;
    bool                         want_tree = true;
    std::vector<TNode>           nodes; // children of the innermost non-transparent production
    // current production (for error context)
    struct Frame
    {
        const Prod* prod;
        int         begin;
        const Node* ws;
    };
    std::vector<Frame> frames;
    bool               ws_enabled = true;
    int                depth = 0, max_depth = 0;
    struct Var
    {
        std::string id;
        long        i    = 0; // counter or flag
        int         b = 0, e = 0; // remembered lexeme
    };
    std::vector<Var> vars; // innermost last
    Var&             var(const std::string& id)
    {
        for (auto i = vars.size(); i-- > 0;)
            if (vars[i].id == id)
                return vars[i];
        std::abort(); // the generated grammar is illegal
    }
    uint64_t                           steps = 0;
    int                                fuel  = 200000;
    std::string                        log; // side effects
    // what happened, in order: production start/finish/cancel, tokens, errors
    struct Ev
    {
        char        type; // S F C T E
        std::string name;
        int         b, e;
    };
    std::vector<Ev> evs;

    uint32_t peek(int p) const
    {
        return p < int(in->size()) ? (*in)[p] : 0xFFFFFFFFu;
    }
    int size() const
    {
        return int(in->size());
    }
    void error(const std::string& what, int b, int e)
    {
        auto s = what + "[" + std::to_string(b) + "," + std::to_string(e) + ")";
        // context: the closest non-transparent production, but begin of the innermost one
        if (!frames.empty())
        {
            auto i = frames.size() - 1;
            while (i > 0 && frames[i].prod->transparent)
                --i;
            s += " in " + frames[i].prod->name + "@" + std::to_string(frames.back().begin);
        }
        errs.push_back(s);
        evs.push_back({'E', what, b, e});
    }
    void tok(const std::string& kind, int b, int e)
    {
        if (!want_tree)
            return;
        if (b == e && (kind == "token" || kind == "error token" || kind == "whitespace"))
            return;
        evs.push_back({'T', kind, b, e});
        tree_tok(kind, b, e);
    }
    void tree_tok(const std::string& kind, int b, int e)
    {
        if (!want_tree)
            return;
        if (b == e && (kind == "token" || kind == "error token" || kind == "whitespace"))
            return;
        if (kind == "error token" && !nodes.empty() && !nodes.back().prod
            && nodes.back().name == "error token")
        {
            nodes.back().e = e;
            return;
        }
        nodes.push_back({false, kind, b, e, {}});
    }
};

struct Node
{
    virtual ~Node() {}
    // Is the branch taken at position p?  (pure)
    virtual bool cond(Ctx&, int) const
    {
        std::abort();
    }
    virtual R    parse(Ctx& c, Vals& v) const = 0;
    virtual bool is_token() const
    {
        return false;
    }
};
using P = const Node*;
template <typename T>
P mk(T* t)
{
    return t; // lives for the whole process
}

inline R skip_ws_rule(Ctx& c, P ws);
inline R skip_ws(Ctx& c)
{
    if (!c.ws_enabled || c.frames.empty() || !c.frames.back().ws)
        return OK;
    return skip_ws_rule(c, c.frames.back().ws);
}

//=== tokens ===//
struct Tok : Node
{
    std::string kind = "token";
    std::string custom; // custom error
    bool        is_token() const override
    {
        return true;
    }
    // Match at p; sets e to the end (also of a partial match on failure).
    virtual bool ttry(Ctx&, int p, int& e) const       = 0;
    virtual void terr(Ctx& c, int p, int e) const      = 0;
    void         report(Ctx& c, int p, int e) const
    {
        if (!custom.empty())
            c.error(custom, p, e);
        else
            terr(c, p, e);
    }
    bool cond(Ctx& c, int p) const override
    {
        int e = p;
        ++c.steps;
        return ttry(c, p, e);
    }
    // without trailing whitespace
    bool token_parse(Ctx& c) const
    {
        ++c.steps;
        int b = c.pos, e = b;
        if (!ttry(c, b, e))
        {
            c.tok("error token", b, e);
            report(c, b, e);
            c.pos = e;
            return false;
        }
        c.tok(kind, b, e);
        c.pos = e;
        return true;
    }
    R parse(Ctx& c, Vals&) const override
    {
        if (!token_parse(c))
            return FAIL;
        return skip_ws(c);
    }
};
inline const Tok* tk(P p)
{
    return static_cast<const Tok*>(p);
}

struct Lit : Tok
{
    std::string s;
    bool        fold;
    explicit Lit(std::string s, bool fold = false) : s(s), fold(fold)
    {
        kind = "literal";
    }
    static uint32_t lower(uint32_t c)
    {
        return c >= 'A' && c <= 'Z' ? c + 32 : c;
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        e = p;
        for (unsigned char ch : s)
        {
            auto x = c.peek(e);
            if (fold ? lower(x) != lower(ch) : x != ch)
                return false;
            ++e;
        }
        return true;
    }
    void terr(Ctx& c, int p, int e) const override
    {
        c.error("expected '" + s + "'#" + std::to_string(e - p), p, p);
    }
};
inline P lit(std::string s)
{
    return mk(new Lit(s));
}
inline P lit_ci(std::string s)
{
    return mk(new Lit(s, true));
}

// Longest literal wins.
struct LSet : Tok
{
    std::vector<std::string> lits;
    bool                     fold = false;
    explicit LSet(std::vector<std::string> l) : lits(l) { kind = "literal"; }
    int best(Ctx& c, int p) const
    {
        int best = -1;
        for (auto& l : lits)
        {
            int  e = p;
            Lit  x(l, fold);
            if (x.ttry(c, p, e) && e - p > best)
                best = e - p;
        }
        return best;
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        auto b = best(c, p);
        e      = b < 0 ? p : p + b;
        return b >= 0;
    }
    void terr(Ctx& c, int p, int) const override
    {
        c.error("expected literal set", p, p);
    }
};
inline P lset(std::vector<std::string> l)
{
    return mk(new LSet(l));
}
// newline: \n or \r\n
struct Newline : LSet
{
    Newline() : LSet({"\n", "\r\n"})
    {
        custom = "expected newline";
    }
};
inline P newline()
{
    return mk(new Newline());
}

struct Cc : Tok
{
    std::string name, set; // set of ASCII chars; negated: any other *code point*
    bool        neg;
    Cc(std::string name, std::string set, bool neg = false) : name(name), set(set), neg(neg) {}
    bool ttry(Ctx& c, int p, int& e) const override
    {
        e      = p;
        auto x = c.peek(p);
        if (x == 0xFFFFFFFFu)
            return false;
        bool in = x < 128 && set.find(char(x)) != std::string::npos;
        if (in == neg)
            return false;
        e = p + 1;
        return true;
    }
    void terr(Ctx& c, int p, int) const override
    {
        c.error("expected cc " + name, p, p);
    }
};
inline P cc(std::string name, std::string set, bool neg = false)
{
    return mk(new Cc(name, set, neg));
}

struct Any : Tok
{
    Any()
    {
        kind = "any";
    }
    bool ttry(Ctx& c, int, int& e) const override
    {
        e = c.size();
        return true;
    }
    void terr(Ctx&, int, int) const override {}
};
inline P any()
{
    return mk(new Any());
}

// dsl::token(rule): matches without producing anything; any error at all means no match.
struct Token : Tok
{
    P rule;
    explicit Token(P r) : rule(r) {}
    bool ttry(Ctx& c, int p, int& e) const override;
    void terr(Ctx& c, int p, int e) const override
    {
        c.error("missing token", p, e);
    }
};
inline P token(P r)
{
    return r->is_token() ? r : mk(new Token(r));
}

struct Until : Tok
{
    P    condition;
    bool or_eof;
    Until(P c, bool o) : condition(c), or_eof(o)
    {
        kind = "any";
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        for (int i = p;; ++i)
        {
            int x = i;
            if (or_eof && i >= c.size())
            {
                e = i;
                return true;
            }
            if (tk(condition)->ttry(c, i, x))
            {
                e = x;
                return true;
            }
            if (i >= c.size())
            {
                e = i;
                return false;
            }
        }
    }
    void terr(Ctx& c, int, int e) const override
    {
        int x = e;
        tk(condition)->ttry(c, e, x);
        tk(condition)->report(c, e, x);
    }
};
inline P until(P c)
{
    return mk(new Until(c, false));
}
inline P until_eof(P c)
{
    return mk(new Until(c, true));
}

struct NotFollowedBy : Tok
{
    P    l, set;
    bool want;
    NotFollowedBy(P l, P s, bool want) : l(l), set(s), want(want)
    {
        kind = "literal";
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        e = p;
        if (!tk(l)->ttry(c, p, e))
        {
            e = p; // nothing is consumed when the literal itself does not match
            return false;
        }
        int x = e;
        // followed_by is documented as "not followed by anything outside the class", so the end of
        // the input is fine for both
        return e >= c.size() || tk(set)->ttry(c, e, x) == want;
    }
    void terr(Ctx& c, int p, int) const override
    {
        int x = p;
        if (tk(l)->ttry(c, p, x))
            c.error("follow restriction", x, x);
        else
            tk(l)->report(c, p, x);
    }
};
inline P nfb(P l, P s)
{
    return mk(new NotFollowedBy(l, s, false));
}
inline P fb(P l, P s)
{
    return mk(new NotFollowedBy(l, s, true));
}

// override of the error tag / token kind: share the underlying matcher
struct TokErr : Tok
{
    P impl;
    TokErr(P i, std::string e) : impl(i)
    {
        custom = e;
        kind   = tk(i)->kind;
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        return tk(impl)->ttry(c, p, e);
    }
    void terr(Ctx&, int, int) const override {}
};
inline P tok_error(P i, std::string tag)
{
    return mk(new TokErr(i, tag));
}
struct TokKind : Tok
{
    P impl;
    TokKind(P i, std::string k) : impl(i)
    {
        kind = k;
    }
    bool ttry(Ctx& c, int p, int& e) const override
    {
        return tk(impl)->ttry(c, p, e);
    }
    void terr(Ctx& c, int p, int e) const override
    {
        tk(impl)->report(c, p, e);
    }
};
inline P tok_kind(P i, std::string k)
{
    return mk(new TokKind(i, k));
}

inline std::string lexeme(int b, int e)
{
    return "<" + std::to_string(b) + "," + std::to_string(e) + ">";
}
struct Cap : Node
{
    P t;
    explicit Cap(P t) : t(t) {}
    bool cond(Ctx& c, int p) const override
    {
        return t->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        int b = c.pos;
        if (!tk(t)->token_parse(c))
            return FAIL;
        int e = c.pos;
        if (skip_ws(c) == FAIL)
            return FAIL;
        v.push_back(lexeme(b, e));
        return OK;
    }
};
inline P cap(P t)
{
    return mk(new Cap(t));
}

//=== sequencing and branching ===//
struct Seq : Node
{
    std::vector<P> r;
    explicit Seq(std::vector<P> r) : r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        return r[0]->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        for (auto x : r)
        {
            auto res = x->parse(c, v);
            if (res != OK)
                return res;
        }
        return OK;
    }
};
template <typename... T>
P seq(T... t)
{
    return mk(new Seq({t...}));
}
// condition >> then: identical to a sequence once taken
template <typename... T>
P br(T... t)
{
    return mk(new Seq({t...}));
}
struct Else : Node
{
    bool cond(Ctx&, int) const override
    {
        return true;
    }
    R parse(Ctx&, Vals&) const override
    {
        return OK;
    }
};
inline P else_()
{
    return mk(new Else());
}
struct Choice : Node
{
    std::vector<P> r;
    explicit Choice(std::vector<P> r) : r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        for (auto x : r)
            if (x->cond(c, p))
                return true;
        return false;
    }
    R parse(Ctx& c, Vals& v) const override
    {
        for (auto x : r)
            if (x->cond(c, c.pos))
                return x->parse(c, v);
        c.error("exhausted choice", c.pos, c.pos);
        return FAIL;
    }
};
template <typename... T>
P choice(T... t)
{
    return mk(new Choice({t...}));
}
struct Opt : Node
{
    P    r;
    bool null;
    Opt(P r, bool n) : r(r), null(n) {}
    R parse(Ctx& c, Vals& v) const override
    {
        if (r->cond(c, c.pos))
            return r->parse(c, v);
        if (null)
            v.push_back("~");
        return OK;
    }
};
inline P opt(P r)
{
    return mk(new Opt(r, true));
}
inline P if_(P r)
{
    return mk(new Opt(r, false));
}
struct Nullopt : Node
{
    R parse(Ctx&, Vals& v) const override
    {
        v.push_back("~");
        return OK;
    }
};
inline P nullopt()
{
    return mk(new Nullopt());
}
struct Loop : Node
{
    P r;
    explicit Loop(P r) : r(r) {}
    R parse(Ctx& c, Vals& v) const override
    {
        while (c.fuel-- > 0)
        {
            Vals tmp;
            auto res = r->parse(c, tmp);
            if (res == FAIL)
                return FAIL;
            if (res == BRK)
                return OK;
        }
        std::abort();
    }
};
inline P loop(P r)
{
    return mk(new Loop(r));
}
struct Break : Node
{
    bool cond(Ctx&, int) const override
    {
        return true;
    }
    R parse(Ctx&, Vals&) const override
    {
        return BRK;
    }
};
inline P break_()
{
    return mk(new Break());
}
struct Return : Node
{
    R parse(Ctx&, Vals&) const override
    {
        return RET;
    }
};
inline P return_()
{
    return mk(new Return());
}
struct While : Node
{
    P r;
    explicit While(P r) : r(r) {}
    R parse(Ctx& c, Vals& v) const override
    {
        while (r->cond(c, c.pos))
        {
            if (c.fuel-- <= 0)
                std::abort();
            Vals tmp;
            if (r->parse(c, tmp) == FAIL)
                return FAIL;
        }
        return OK;
    }
};
inline P while_(P r)
{
    return mk(new While(r));
}
inline P while_one(P r)
{
    return br(r, while_(r));
}
inline P do_while(P then, P cond)
{
    return seq(then, while_(br(cond, then)));
}

//=== lookahead ===//
struct Peek : Node
{
    P           t;
    bool        neg;
    std::string tag;
    Peek(P t, bool n, std::string tag) : t(t), neg(n), tag(tag) {}
    bool match(Ctx& c, int p, int& e) const
    {
        ++c.steps;
        e = p;
        return tk(t)->ttry(c, p, e);
    }
    bool cond(Ctx& c, int p) const override
    {
        int e;
        return match(c, p, e) != neg;
    }
    R parse(Ctx& c, Vals&) const override
    {
        int e;
        if (match(c, c.pos, e) == neg)
        {
            c.error(tag, c.pos, e);
            if (neg)
            {
                c.tok("error token", c.pos, e);
                c.pos = e;
            }
        }
        return OK;
    }
};
inline P peek(P r, std::string tag = "peek failure")
{
    return mk(new Peek(token(r), false, tag));
}
inline P peek_not(P r, std::string tag = "unexpected")
{
    return mk(new Peek(token(r), true, tag));
}
struct Lookahead : Node
{
    std::vector<std::string> needle, end;
    std::string              tag;
    bool                     run(Ctx& c, int p, int& e) const
    {
        ++c.steps;
        for (int i = p;; ++i)
        {
            // longest match over both sets
            int best = -1, which = 2;
            for (auto& l : needle)
            {
                int x;
                if (Lit(l).ttry(c, i, x) && x - i > best)
                    best = x - i, which = 0;
            }
            for (auto& l : end)
            {
                int x;
                if (Lit(l).ttry(c, i, x) && x - i > best)
                    best = x - i, which = 1;
            }
            if (which < 2)
            {
                e = i + best;
                return which == 0;
            }
            if (i >= c.size())
            {
                e = i;
                return false;
            }
        }
    }
    bool cond(Ctx& c, int p) const override
    {
        int e;
        return run(c, p, e);
    }
    R parse(Ctx& c, Vals&) const override
    {
        int e;
        if (!run(c, c.pos, e))
            c.error(tag, c.pos, e);
        return OK;
    }
};
inline P lookahead(std::vector<std::string> n, std::vector<std::string> e,
                   std::string tag = "lookahead failure")
{
    auto l    = new Lookahead();
    l->needle = n;
    l->end    = e;
    l->tag    = tag;
    return l;
}

//=== EOF, newline ===//
struct Eof : Node
{
    bool cond(Ctx& c, int p) const override
    {
        return p >= c.size();
    }
    R parse(Ctx& c, Vals&) const override
    {
        if (c.pos < c.size())
            c.error("expected EOF", c.pos, c.pos);
        else
            c.tok("EOF", c.pos, c.pos);
        return OK;
    }
};
inline P eof()
{
    return mk(new Eof());
}
struct Eol : Node
{
    Newline nl;
    bool    cond(Ctx& c, int p) const override
    {
        return p >= c.size() || nl.cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        if (c.pos >= c.size())
        {
            c.tok("EOF", c.pos, c.pos);
            return OK;
        }
        return nl.parse(c, v);
    }
};
inline P eol()
{
    return mk(new Eol());
}

//=== errors ===//
struct Error : Node
{
    std::string tag;
    P           r;
    Error(std::string t, P r) : tag(t), r(r) {}
    bool cond(Ctx&, int) const override
    {
        return true;
    }
    R parse(Ctx& c, Vals&) const override;
};
inline P error(std::string tag, P r = nullptr)
{
    return mk(new Error(tag, r));
}
struct Must : Node
{
    P b, e;
    Must(P b, P e) : b(b), e(e) {}
    bool cond(Ctx& c, int p) const override
    {
        return b->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        if (b->cond(c, c.pos))
            return b->parse(c, v);
        e->parse(c, v);
        return FAIL;
    }
};
inline P must(P b, std::string tag, P r = nullptr)
{
    return mk(new Must(b, error(tag, r)));
}

//=== position, productions ===//
struct Pos : Node
{
    P r;
    explicit Pos(P r) : r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        c.tok("position", c.pos, c.pos);
        v.push_back("@" + std::to_string(c.pos));
        return r ? r->parse(c, v) : OK;
    }
};
inline P position(P r = nullptr)
{
    return mk(new Pos(r));
}

inline std::string join(const Vals& v)
{
    std::string s;
    for (auto& x : v)
        s += (s.empty() ? "" : ",") + x;
    return s;
}

// Runs a production; pushes its value.
inline R run_prod(Ctx& c, const Prod& p, Vals& out)
{
    ++c.steps;
    auto parent_ws = c.frames.empty() ? nullptr : c.frames.back().ws;
    auto ws        = p.token || p.has_ws ? p.ws : parent_ws;
    auto begin     = c.pos;
    auto saved     = c.nodes;
    if (!p.transparent)
        c.nodes.clear();
    c.frames.push_back({&p, begin, ws});
    c.evs.push_back({'S', p.name, begin, begin});

    R    res = OK;
    Vals v;
    auto nvars = c.vars.size();
    if (p.has_ws)
        res = skip_ws(c);
    if (res == OK)
        res = p.rule->parse(c, v);
    c.frames.pop_back();
    c.vars.resize(nvars); // variables end with the production that created them
    c.evs.push_back({res == FAIL ? 'C' : 'F', p.name, c.pos, c.pos});
    if (res == FAIL)
    {
        // everything consumed so far becomes one error token
        c.nodes = saved;
        c.tree_tok("error token", begin, c.pos);
        return FAIL;
    }
    if (!p.transparent)
    {
        TNode n{true, p.name, 0, 0, c.nodes};
        if (n.kids.empty() && c.want_tree)
            n.kids.push_back({false, "position", begin, begin, {}});
        c.nodes = saved;
        if (c.want_tree)
            c.nodes.push_back(n);
    }
    else if (c.nodes.empty())
        c.tree_tok("position", begin, begin);

    out.push_back(p.callback ? p.callback(v) : "(" + join(v) + ")");
    if (p.token && !c.frames.empty())
        return skip_ws(c);
    return OK;
}
struct PRef : Node
{
    const Prod* p;
    explicit PRef(const Prod* p) : p(p) {}
    bool cond(Ctx& c, int pos) const override
    {
        return p->rule->cond(c, pos);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        return run_prod(c, *p, v);
    }
};
inline P prod(const Prod& p)
{
    return mk(new PRef(&p));
}
struct Inline : Node
{
    const Prod* p;
    explicit Inline(const Prod* p) : p(p) {}
    bool cond(Ctx& c, int pos) const override
    {
        return p->rule->cond(c, pos);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        return p->rule->parse(c, v);
    }
};
inline P inline_(const Prod& p)
{
    return mk(new Inline(&p));
}
struct Recurse : Node
{
    const Prod* p;
    std::string tag;
    Recurse(const Prod* p, std::string t) : p(p), tag(t) {}
    bool cond(Ctx& c, int pos) const override
    {
        return p->rule->cond(c, pos);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        if (c.depth >= c.max_depth)
        {
            c.error(tag, c.pos, c.pos);
            return FAIL;
        }
        ++c.depth;
        auto r = run_prod(c, *p, v);
        --c.depth;
        return r;
    }
};
inline P recurse(const Prod& p, std::string tag = "maximum recursion depth exceeded")
{
    return mk(new Recurse(&p, tag));
}

// A match of a rule in isolation (dsl::token, dsl::peek, dsl::error): no whitespace, no tree.
inline bool sub_match(const Ctx& c, P rule, int p, int& e, uint64_t& steps)
{
    Ctx s;
    s.in        = c.in;
    s.pos       = p;
    s.want_tree = false;
    s.fuel      = c.fuel;
    static const Prod dummy{"<token>"};
    s.frames.push_back({&dummy, p, nullptr});
    Vals v;
    auto r = rule->parse(s, v);
    e      = s.pos;
    steps += s.steps;
    return r != FAIL && s.errs.empty();
}
inline bool Token::ttry(Ctx& c, int p, int& e) const
{
    return sub_match(c, rule, p, e, c.steps);
}
inline R Error::parse(Ctx& c, Vals&) const
{
    int e = c.pos;
    if (r)
        sub_match(c, r, c.pos, e, c.steps);
    c.error(tag, c.pos, e);
    return FAIL;
}

//=== whitespace ===//
inline R skip_ws_rule(Ctx& c, P ws)
{
    int b = c.pos;
    if (ws->is_token())
    {
        while (true)
        {
            int e = c.pos;
            if (!tk(ws)->ttry(c, c.pos, e) || e == c.pos)
                break;
            c.pos = e;
        }
        c.tok("whitespace", b, c.pos);
        return OK;
    }
    // branches, tried repeatedly; errors are reported, nothing else
    Ctx s;
    s.in        = c.in;
    s.pos       = c.pos;
    s.want_tree = false;
    static const Prod dummy{"<whitespace>"};
    s.frames.push_back({&dummy, c.pos, nullptr});
    bool ok = true;
    while (ws->cond(s, s.pos))
    {
        Vals v;
        auto before = s.pos;
        auto n      = s.errs.size();
        ok          = ws->parse(s, v) != FAIL;
        for (auto i = n; i < s.errs.size(); ++i)
        {
            // re-attribute to the surrounding production
            auto w = s.errs[i].substr(0, s.errs[i].find(" in "));
            c.error(w, -1, -1);
            auto& x = c.errs.back();
            x.replace(x.find("[-1,-1)"), 7, "");
            auto& ev = c.evs.back();
            ev.name  = w.substr(0, w.rfind('['));
            ev.b = ev.e = std::stoi(w.substr(w.rfind('[') + 1));
        }
        if (!ok || s.pos == before)
            break;
    }
    c.pos = s.pos;
    c.steps += s.steps;
    c.tok(ok ? "whitespace" : "error token", b, c.pos);
    return ok ? OK : FAIL;
}
struct Whitespace : Node
{
    P r;
    explicit Whitespace(P r) : r(r) {}
    R parse(Ctx& c, Vals&) const override
    {
        return skip_ws_rule(c, r);
    }
};
inline P whitespace(P r)
{
    return mk(new Whitespace(r));
}
struct NoWs : Node
{
    P r;
    explicit NoWs(P r) : r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        auto old     = c.ws_enabled;
        c.ws_enabled = false;
        auto res     = r->parse(c, v);
        c.ws_enabled = old;
        if (res != OK)
            return res;
        return skip_ws(c);
    }
};
inline P no_ws(P r)
{
    return r->is_token() ? r : mk(new NoWs(r));
}

//=== separators, lists ===//
struct Sep
{
    P           r    = nullptr;
    int         mode = 0; // 0 normal (trailing is an error), 1 trailing allowed, 2 ignored
    std::string tag  = "unexpected trailing separator";
    explicit    operator bool() const
    {
        return r != nullptr;
    }
};
inline Sep sep(P r)
{
    return {r, 0};
}
inline Sep sep_e(P r, std::string tag)
{
    return {r, 0, tag};
}
inline Sep tsep(P r)
{
    return {r, 1};
}
inline Sep isep(P r)
{
    return {r, 2};
}
// A sink: gets called once per item that has values.
struct Sink
{
    std::vector<std::string> items;
    void                     put(const Vals& v)
    {
        if (!v.empty())
            items.push_back(join(v));
    }
    std::string finish() const
    {
        std::string s = "{";
        for (size_t i = 0; i < items.size(); ++i)
            s += (i ? ";" : "") + items[i];
        return s + "}";
    }
};
inline R sink_parse(Ctx& c, P r, Sink& s)
{
    Vals v;
    auto res = r->parse(c, v);
    if (res == OK)
        s.put(v);
    return res;
}

struct List : Node
{
    P    item;
    bool branch; // item is a branch rule
    Sep  s;
    List(P i, bool b, Sep s) : item(i), branch(b), s(s) {}
    bool cond(Ctx& c, int p) const override
    {
        return item->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        Sink sink;
        if (sink_parse(c, item, sink) == FAIL)
            return FAIL;
        while (true)
        {
            if (c.fuel-- <= 0)
                std::abort();
            int sb = c.pos;
            if (s)
            {
                if (!s.r->cond(c, c.pos))
                    break;
                if (sink_parse(c, s.r, sink) == FAIL)
                    return FAIL;
            }
            int se = c.pos;
            if (branch && !item->cond(c, c.pos))
            {
                if (s && s.mode == 0)
                    c.error(s.tag, sb, se);
                break;
            }
            if (sink_parse(c, item, sink) == FAIL)
                return FAIL;
        }
        v.push_back(sink.finish());
        return OK;
    }
};
inline P list(P i, bool b, Sep s = {})
{
    return mk(new List(i, b, s));
}

// dsl::sep's trailing rule after the last of a fixed number of items
inline R trailing(Ctx& c, const Sep& s, Vals& v)
{
    if (s.mode == 2 || !s.r->cond(c, c.pos))
        return OK;
    int b = c.pos;
    if (s.r->parse(c, v) == FAIL)
        return FAIL;
    if (s.mode == 0)
        c.error(s.tag, b, c.pos);
    return OK;
}
struct Times : Node
{
    int n;
    P   r;
    Sep s;
    Times(int n, P r, Sep s) : n(n), r(r), s(s) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        for (int i = 0; i < n; ++i)
        {
            if (r->parse(c, v) == FAIL)
                return FAIL;
            if (s && i + 1 < n && s.r->parse(c, v) == FAIL)
                return FAIL;
        }
        return s ? trailing(c, s, v) : OK;
    }
};
inline P times(int n, P r, Sep s = {})
{
    return mk(new Times(n, r, s));
}

// repeat(count)(item, sep): the count rule produces a number
struct Repeat : Node
{
    P    count; // pushes the decimal count
    int  mode;  // 0 discard, 1 list, 2 capture
    P    item;
    Sep  s;
    Repeat(P c, int m, P i, Sep s) : count(c), mode(m), item(i), s(s) {}
    bool cond(Ctx& c, int p) const override
    {
        return count->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        Vals n;
        if (count->parse(c, n) == FAIL)
            return FAIL;
        auto cnt = std::stoull(n.at(0));
        Sink sink;
        int  b = c.pos;
        for (unsigned long long i = 0; i < cnt; ++i)
        {
            if (sink_parse(c, item, sink) == FAIL)
                return FAIL;
            if (s && i + 1 < cnt && sink_parse(c, s.r, sink) == FAIL)
                return FAIL;
        }
        if (s && cnt > 0)
        {
            Vals tv;
            if (trailing(c, s, tv) == FAIL)
                return FAIL;
            sink.put(tv);
        }
        if (mode == 1)
            v.push_back(sink.finish());
        else if (mode == 2)
            v.push_back(lexeme(b, c.pos));
        return OK;
    }
};
inline P repeat(P cnt, int mode, P item, Sep s = {})
{
    return mk(new Repeat(cnt, mode, item, s));
}

struct Combination : Node
{
    std::vector<P> r;
    bool           partial;
    std::string    dup, missing;
    R              parse(Ctx& c, Vals& v) const override
    {
        std::vector<bool> handled(r.size());
        Sink              sink;
        size_t            n = 0;
        while (n < r.size())
        {
            if (c.fuel-- <= 0)
                std::abort();
            int    b = c.pos;
            size_t i = 0;
            while (i < r.size() && !r[i]->cond(c, c.pos))
                ++i;
            if (i == r.size())
            {
                if (partial)
                    break;
                c.error(missing, c.pos, c.pos);
                return FAIL;
            }
            Vals tmp;
            if (r[i]->parse(c, tmp) == FAIL)
                return FAIL;
            if (handled[i])
                c.error(dup, b, c.pos);
            else
            {
                sink.put(tmp);
                handled[i] = true;
                ++n;
            }
        }
        v.push_back(sink.finish());
        return OK;
    }
};
inline P combination(bool partial, std::vector<P> r, std::string dup = "combination duplicate",
                     std::string missing = "exhausted choice")
{
    auto x     = new Combination();
    x->r       = r;
    x->partial = partial;
    x->dup     = dup;
    x->missing = missing;
    return x;
}

//=== recovery ===//
struct Try : Node
{
    P r, rec;
    P term;          // terminator parsed after success
    bool raw;        // rec is find/recover: no extra whitespace skipping
    Try(P r, P rec, P term, bool raw) : r(r), rec(rec), term(term), raw(raw) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        Vals mine = v;
        auto res  = r->parse(c, mine);
        if (res != FAIL)
        {
            v = mine;
            if (res == OK && term)
                return term->parse(c, v);
            return res;
        }
        if (rec && rec->parse(c, v) == FAIL)
            return FAIL;
        if (!raw)
            return skip_ws(c);
        return OK;
    }
};
inline P try_(P r)
{
    return mk(new Try(r, nullptr, nullptr, false));
}
inline P try_(P r, P rec) // arbitrary recovery rule
{
    return mk(new Try(r, rec, nullptr, false));
}
inline P try_raw(P r, P rec) // find()/recover()
{
    return mk(new Try(r, rec, nullptr, true));
}
// longest of both sets at i: 0 needle, 1 limit, 2 none
inline int longest2(Ctx& c, int i, const std::vector<std::string>& needle,
                    const std::vector<std::string>& limit)
{
    int best = -1, which = 2;
    for (auto& l : needle)
    {
        int x;
        if (Lit(l).ttry(c, i, x) && x - i > best)
            best = x - i, which = 0;
    }
    for (auto& l : limit)
    {
        int x;
        if (Lit(l).ttry(c, i, x) && x - i > best)
            best = x - i, which = 1;
    }
    return which;
}
struct Find : Node
{
    std::vector<std::string> needle, limit;
    R                        parse(Ctx& c, Vals&) const override
    {
        int b = c.pos;
        while (true)
        {
            ++c.steps;
            auto w = longest2(c, c.pos, needle, limit);
            if (w == 0 || w == 1 || c.pos >= c.size())
            {
                c.tok("error token", b, c.pos);
                return w == 0 ? OK : FAIL;
            }
            ++c.pos;
        }
    }
};
inline P find(std::vector<std::string> n, std::vector<std::string> l = {})
{
    auto f    = new Find();
    f->needle = n;
    f->limit  = l;
    return f;
}
struct Recover : Node
{
    std::vector<P>           r;
    std::vector<std::string> limit;
    R                        parse(Ctx& c, Vals& v) const override
    {
        int b = c.pos;
        while (true)
        {
            ++c.steps;
            for (auto x : r)
                if (x->cond(c, c.pos))
                {
                    c.tok("error token", b, c.pos);
                    return x->parse(c, v);
                }
            if (longest2(c, c.pos, {}, limit) == 1 || c.pos >= c.size())
            {
                c.tok("error token", b, c.pos);
                return FAIL;
            }
            ++c.pos;
        }
    }
};
inline P recover(std::vector<P> r, std::vector<std::string> l = {})
{
    auto f   = new Recover();
    f->r     = r;
    f->limit = l;
    return f;
}
// terminator(t)...
struct OptTerm : Node
{
    P term, r;
    OptTerm(P t, P r) : term(t), r(r) {}
    R parse(Ctx& c, Vals& v) const override
    {
        if (term->cond(c, c.pos))
        {
            v.push_back("~");
            return term->parse(c, v);
        }
        return r->parse(c, v);
    }
};
struct ListTerm : Node
{
    P                        term, item;
    bool                     branch;
    Sep                      s;
    std::vector<std::string> limit;
    R                        parse(Ctx& c, Vals& v) const override
    {
        Sink sink;
        bool recovering = sink_parse(c, item, sink) == FAIL;
        int  sb         = c.pos;
        bool after_sep  = false;
        while (true)
        {
            if (c.fuel-- <= 0)
                std::abort();
            if (recovering)
            {
                recovering = false;
                after_sep  = false;
                int b      = c.pos;
                while (true)
                {
                    ++c.steps;
                    if (s && s.r->cond(c, c.pos))
                    {
                        sb = c.pos;
                        c.tok("error token", b, c.pos);
                        if (sink_parse(c, s.r, sink) == FAIL)
                            recovering = true;
                        else
                            after_sep = true;
                        break;
                    }
                    if (!s && branch && item->cond(c, c.pos))
                    {
                        c.tok("error token", b, c.pos);
                        recovering = sink_parse(c, item, sink) == FAIL;
                        break;
                    }
                    if (term->cond(c, c.pos))
                    {
                        c.tok("error token", b, c.pos);
                        v.push_back(sink.finish());
                        return term->parse(c, v);
                    }
                    if (longest2(c, c.pos, {}, limit) == 1 || c.pos >= c.size())
                    {
                        c.tok("error token", b, c.pos);
                        return FAIL;
                    }
                    ++c.pos;
                }
                continue;
            }
            if (term->cond(c, c.pos))
            {
                if (after_sep && s.mode == 0)
                    c.error(s.tag, sb, c.pos);
                v.push_back(sink.finish());
                return term->parse(c, v);
            }
            if (!after_sep && s)
            {
                sb = c.pos;
                if (sink_parse(c, s.r, sink) == OK)
                    after_sep = true;
                else if (sb == c.pos && branch && item->cond(c, c.pos))
                    // a missing separator
                    recovering = sink_parse(c, item, sink) == FAIL;
                else
                    recovering = true;
                continue;
            }
            after_sep  = false;
            recovering = sink_parse(c, item, sink) == FAIL;
        }
    }
};
struct Term
{
    P                        term;
    std::vector<std::string> limit;
    P                        rec() const
    {
        return recover({term}, limit);
    }
};
inline Term terminator(P t, std::vector<std::string> l = {})
{
    return {t, l};
}
inline P term_(Term t, P r)
{
    return seq(r, t.term);
}
inline P term_try(Term t, P r)
{
    return mk(new Try(r, t.rec(), t.term, true));
}
inline P term_opt(Term t, P r)
{
    return mk(new OptTerm(t.term, term_try(t, r)));
}
inline P term_list(Term t, P i, bool b, Sep s = {})
{
    auto l    = new ListTerm();
    l->term   = t.term;
    l->item   = i;
    l->branch = b;
    l->s      = s;
    l->limit  = t.limit;
    return l;
}
inline P term_opt_list(Term t, P i, bool b, Sep s = {})
{
    return mk(new OptTerm(t.term, term_list(t, i, b, s)));
}

// A rule with a constant value / a flag
struct Flag : Node
{
    P           r;
    std::string a, b;
    Flag(P r, std::string a, std::string b) : r(r), a(a), b(b) {}
    R parse(Ctx& c, Vals& v) const override
    {
        if (r->cond(c, c.pos))
        {
            v.push_back(a);
            return r->parse(c, v);
        }
        v.push_back(b);
        return OK;
    }
};
inline P flag(P r, std::string a = "true", std::string b = "false")
{
    return mk(new Flag(r, a, b));
}

// symbol table looked up directly in the input: longest key; pushes the mapped value
using Table = std::vector<std::pair<std::string, std::string>>;
struct Sym : Node
{
    Table       t;
    std::string tag;
    int         look(Ctx& c, int p, int& e) const
    {
        ++c.steps;
        int best = -1, len = -1;
        for (size_t i = 0; i < t.size(); ++i)
        {
            int x;
            if (Lit(t[i].first).ttry(c, p, x) && x - p > len)
                len = x - p, best = int(i);
        }
        e = p + (len < 0 ? 0 : len);
        return best;
    }
    bool cond(Ctx& c, int p) const override
    {
        int e;
        return look(c, p, e) >= 0;
    }
    R parse(Ctx& c, Vals& v) const override
    {
        int e, i = look(c, c.pos, e);
        if (i < 0)
        {
            c.error(tag, c.pos, c.pos);
            return FAIL;
        }
        c.tok("identifier", c.pos, e);
        c.pos = e;
        if (skip_ws(c) == FAIL)
            return FAIL;
        v.push_back(t[i].second);
        return OK;
    }
};
inline P sym(Table t, std::string tag = "unknown symbol")
{
    auto s = new Sym();
    s->t   = t;
    s->tag = tag;
    return s;
}
// flags(symbol): zero or more symbols whose numeric values are or-ed
struct Flags : Node
{
    P           r;
    long        init;
    std::string tag;
    R           parse(Ctx& c, Vals& v) const override
    {
        long res = init;
        while (r->cond(c, c.pos))
        {
            if (c.fuel-- <= 0)
                std::abort();
            int  b = c.pos;
            Vals t;
            if (r->parse(c, t) == FAIL)
                return FAIL;
            long f = std::stol(t.at(0));
            if ((res & f) == f)
                c.error(tag, b, c.pos);
            res |= f;
        }
        v.push_back(std::to_string(res));
        return OK;
    }
};
inline P flags(P r, long init = 0, std::string tag = "duplicate flag")
{
    auto s  = new Flags();
    s->r    = r;
    s->init = init;
    s->tag  = tag;
    return s;
}
// exactly one decimal digit as a number
struct Num1 : Node
{
    bool cond(Ctx& c, int p) const override
    {
        return c.peek(p) >= '0' && c.peek(p) <= '9';
    }
    R parse(Ctx& c, Vals& v) const override
    {
        if (!cond(c, c.pos))
        {
            c.error("expected cc digit.decimal", c.pos, c.pos);
            return FAIL;
        }
        auto d = c.peek(c.pos) - '0';
        c.tok("digits", c.pos, c.pos + 1);
        ++c.pos;
        if (skip_ws(c) == FAIL)
            return FAIL;
        v.push_back(std::to_string(d));
        return OK;
    }
};
inline P num1()
{
    return mk(new Num1());
}

//=== entry point ===//
//=== context variables ===//
struct VarOp : Node
{
    std::string id;
    int         op; // 0 create, 1 add, 2 set, 3 toggle
    long        n;
    VarOp(std::string id, int op, long n) : id(id), op(op), n(n) {}
    R parse(Ctx& c, Vals&) const override
    {
        ++c.steps;
        if (op == 0)
            c.vars.push_back({id, n, 0, 0});
        else if (op == 1)
            c.var(id).i += n;
        else if (op == 2)
            c.var(id).i = n;
        else
            c.var(id).i = !c.var(id).i;
        return OK;
    }
};
inline P var_create(std::string id, long n = 0)
{
    return mk(new VarOp(id, 0, n));
}
inline P var_add(std::string id, long n)
{
    return mk(new VarOp(id, 1, n));
}
inline P var_set(std::string id, long n)
{
    return mk(new VarOp(id, 2, n));
}
inline P var_toggle(std::string id)
{
    return mk(new VarOp(id, 3, 0));
}
struct VarIs : Node
{
    std::string id;
    long        n;
    VarIs(std::string id, long n) : id(id), n(n) {}
    bool cond(Ctx& c, int) const override
    {
        ++c.steps;
        return c.var(id).i == n;
    }
    R parse(Ctx&, Vals&) const override
    {
        return OK; // as a plain rule it matches everything
    }
};
inline P var_is(std::string id, long n)
{
    return mk(new VarIs(id, n));
}
struct VarValue : Node
{
    std::string id;
    bool        flag;
    VarValue(std::string id, bool f) : id(id), flag(f) {}
    R parse(Ctx& c, Vals& v) const override
    {
        auto n = c.var(id).i;
        v.push_back(flag ? (n ? "true" : "false") : std::to_string(n));
        return OK;
    }
};
inline P var_value(std::string id, bool flag)
{
    return mk(new VarValue(id, flag));
}
struct VarPush : Node
{
    std::string id;
    P           r;
    int         sign;
    VarPush(std::string id, P r, int s) : id(id), r(r), sign(s) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        int  b   = c.pos;
        auto res = r->parse(c, v);
        if (res == OK)
            c.var(id).i += (c.pos - b) * sign;
        return res;
    }
};
inline P var_push(std::string id, P r, int sign)
{
    return mk(new VarPush(id, r, sign));
}
struct VarEq : Node
{
    std::vector<std::string> ids;
    explicit VarEq(std::vector<std::string> i) : ids(i) {}
    bool cond(Ctx& c, int) const override
    {
        for (auto& i : ids)
            if (c.var(i).i != c.var(ids[0]).i)
                return false;
        return true;
    }
    R parse(Ctx& c, Vals&) const override
    {
        if (!cond(c, c.pos))
            c.error("unequal counts", c.pos, c.pos);
        return OK;
    }
};
inline P var_eq(std::vector<std::string> ids)
{
    return mk(new VarEq(ids));
}
// identifier over two sets of characters; reserved: exact words
struct Ident : Node
{
    std::string              lead, trail, name;
    std::vector<std::string> reserved;
    int                      scan(Ctx& c, int p) const
    {
        auto in = [&](const std::string& s, int i) {
            return c.peek(i) < 128 && s.find(char(c.peek(i))) != std::string::npos;
        };
        if (!in(lead, p))
            return p;
        ++p;
        while (in(trail, p))
            ++p;
        return p;
    }
    bool is_reserved(Ctx& c, int b, int e) const
    {
        std::string s;
        for (int i = b; i < e; ++i)
            s += char(c.peek(i));
        for (auto& r : reserved)
            if (r == s)
                return true;
        return false;
    }
    bool cond(Ctx& c, int p) const override
    {
        ++c.steps;
        int e = scan(c, p);
        return e != p && !is_reserved(c, p, e);
    }
    bool lex(Ctx& c, int& b, int& e) const
    {
        b = c.pos;
        e = scan(c, b);
        if (b == e)
        {
            c.error("expected cc " + name, b, b);
            return false;
        }
        c.tok("identifier", b, e);
        c.pos = e;
        return true;
    }
    R parse(Ctx& c, Vals& v) const override
    {
        int b, e;
        if (!lex(c, b, e))
            return FAIL;
        if (is_reserved(c, b, e))
            c.error("reserved identifier", b, e);
        if (skip_ws(c) == FAIL)
            return FAIL;
        v.push_back(lexeme(b, e));
        return OK;
    }
};
inline P ident(std::string lead, std::string trail, std::string name,
               std::vector<std::string> reserved = {})
{
    auto i      = new Ident();
    i->lead     = lead;
    i->trail    = trail;
    i->name     = name;
    i->reserved = reserved;
    return i;
}
struct IdCapture : Node
{
    std::string id;
    P           r;
    IdCapture(std::string id, P r) : id(id), r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        int  b   = c.pos;
        int  e   = static_cast<const Ident*>(r)->scan(c, b);
        auto res = r->parse(c, v);
        if (res == OK)
            c.var(id).b = b, c.var(id).e = e;
        return res;
    }
};
inline P id_capture(std::string id, P r)
{
    return mk(new IdCapture(id, r));
}
struct IdRematch : Node
{
    std::string id;
    P           r;
    std::string tag;
    IdRematch(std::string id, P r, std::string t) : id(id), r(r), tag(t) {}
    bool same(Ctx& c, int b, int e) const
    {
        auto& v = c.var(id);
        if (v.e - v.b != e - b)
            return false;
        for (int i = 0; i < e - b; ++i)
            if (c.peek(v.b + i) != c.peek(b + i))
                return false;
        return true;
    }
    bool cond(Ctx& c, int p) const override
    {
        ++c.steps;
        int e = static_cast<const Ident*>(r)->scan(c, p);
        return e != p && same(c, p, e);
    }
    R parse(Ctx& c, Vals&) const override
    {
        int b, e;
        if (!static_cast<const Ident*>(r)->lex(c, b, e))
            return FAIL;
        if (skip_ws(c) == FAIL)
            return FAIL;
        if (!same(c, b, e))
            c.error(tag, b, e);
        return OK;
    }
};
inline P id_rematch(std::string id, P r, std::string tag = "different identifier")
{
    return mk(new IdRematch(id, r, tag));
}

//=== composition ===//
// dsl::subgrammar: the production parsed as if by a top-level action.
struct Sub : Node
{
    const Prod* p;
    bool        has_value;
    Sub(const Prod* p, bool v) : p(p), has_value(v) {}
    R parse(Ctx& c, Vals& out) const override
    {
        auto top = *p;
        top.has_ws = p->ws != nullptr;
        top.token  = false;
        decltype(c.vars) vars;
        std::swap(vars, c.vars);
        // nothing of the surrounding production is visible, except for the name it has in errors
        auto ws = c.frames.back().ws;
        c.frames.back().ws = nullptr;
        Vals v;
        auto r = run_prod(c, top, v);
        c.frames.back().ws = ws;
        std::swap(vars, c.vars);
        if (r == FAIL)
            return FAIL;
        if (has_value)
            out.push_back(v.back());
        return OK;
    }
};
inline P sub(const Prod& p, bool has_value = true)
{
    return mk(new Sub(&p, has_value));
}
// dsl::effect; the value is the number of effects so far
struct Effect : Node
{
    bool value;
    explicit Effect(bool v) : value(v) {}
    R parse(Ctx& c, Vals& v) const override
    {
        ++c.steps;
        c.log += "!";
        if (value)
            v.push_back(std::to_string(std::count(c.log.begin(), c.log.end(), '!')));
        return OK;
    }
};
inline P effect(bool value)
{
    return mk(new Effect(value));
}
// dsl::parse_as: the values become one, which is logged
struct ParseAs : Node
{
    P    r;
    bool is_void;
    ParseAs(P r, bool v) : r(r), is_void(v) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        Vals mine;
        auto res = r->parse(c, mine);
        if (res == FAIL || is_void)
            return res;
        if (mine.size() == 1 && mine[0].compare(0, 3, "PA(") == 0)
        {
            v.push_back(mine[0]); // it is already one
            return res;
        }
        auto s = "PA(" + join(mine) + ")";
        c.log += s;
        v.push_back(s);
        return res;
    }
};
inline P parse_as(P r, bool is_void = false)
{
    return mk(new ParseAs(r, is_void));
}
// dsl::member<...> = rule
struct Member : Node
{
    std::string name;
    P           r;
    Member(std::string n, P r) : name(n), r(r) {}
    bool cond(Ctx& c, int p) const override
    {
        return r->cond(c, p);
    }
    R parse(Ctx& c, Vals& v) const override
    {
        v.push_back(name);
        return r->parse(c, v);
    }
};
inline P member(std::string name, P r)
{
    return mk(new Member(name, r));
}

struct Outcome
{
    std::string              log;
    bool                     result = false; // the rule succeeded (possibly after recovery)
    std::vector<std::string> errs;
    std::string              value; // if result
    std::string              tree;  // if result
    int                      end = 0;
    uint64_t                 steps = 0;
    std::vector<Ctx::Ev>     evs;
};
inline void dump(std::string& s, const TNode& n)
{
    if (n.prod)
    {
        s += n.name + "{";
        for (auto& k : n.kids)
            dump(s, k);
        s += "}";
    }
    else
    {
        s += n.name;
        s += lexeme(n.b, n.e);
    }
}
inline Outcome run(const Prod& p, const std::vector<uint32_t>& in)
{
    Ctx c;
    c.in        = &in;
    c.max_depth = p.max_depth;
    c.frames.push_back({&p, 0, p.ws});
    c.evs.push_back({'S', p.name, 0, 0});
    Vals v;
    R    res = OK;
    if (p.ws)
        res = skip_ws(c);
    if (res == OK)
        res = p.rule->parse(c, v);
    Outcome o;
    o.result = res != FAIL;
    o.errs   = c.errs;
    o.end    = c.pos;
    o.steps  = c.steps;
    o.log    = c.log;
    c.evs.push_back({res == FAIL ? 'C' : 'F', p.name, c.pos, c.pos});
    o.evs = c.evs;
    if (o.result)
    {
        o.value = p.callback ? p.callback(v) : "(" + join(v) + ")";
        TNode root{true, p.name, 0, 0, c.nodes};
        dump(o.tree, root);
        o.tree += "|" + lexeme(c.pos, c.size());
    }
    return o;
}
} // namespace model
#endif
