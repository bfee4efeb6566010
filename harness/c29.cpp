// C29: queries of trees, and trees as input of a parse, over all small trees.
#include "engine.hpp"
#include "parts.hpp"
#include <functional>
#include <lexy/dsl/parse_tree_node.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <list>
#include <memory>
namespace
{
enum class tk
{
    a,
    b,
    w,
};
constexpr const char* token_kind_name(tk k)
{
    return k == tk::a ? "a" : k == tk::b ? "b" : "w";
}
#define PROD(NAME, ...)                                                                            \
    struct NAME __VA_ARGS__                                                                        \
    {                                                                                              \
        static constexpr auto name = #NAME;                                                        \
        static constexpr auto rule = dsl::any;                                                     \
    };
PROD(Root)
PROD(P)
PROD(Q, : lexy::token_production)
PROD(Z)

//=== model of a tree ===//
struct MN
{
    char             kind; // R root, P, Q; tokens: a b w o (position) x (error) l (literal)
    long             b = 0, e = 0;
    std::vector<MN>  kids;
    int              id = 0;
    bool             token() const
    {
        return kind >= 'a';
    }
};
struct Built
{
    std::string      text;
    MN               root;
    bool             has_empty = false; // a production without token
};
inline const char* content(char k)
{
    return k == 'a' ? "a" : k == 'b' ? "bc" : k == 'w' ? " " : k == 'o' ? "" : k == 'x' ? "?" : "lll";
}
// shape: letters are tokens, ( ) P, [ ] Q
inline Built build_model(const std::string& shape)
{
    Built                              r;
    int                                ids = 0;
    std::size_t                        i   = 0;
    std::function<void(MN&)>           fill = [&](MN& n) {
        n.id = ids++;
        n.b  = long(r.text.size());
        while (i < shape.size() && shape[i] != ')' && shape[i] != ']')
        {
            char c = shape[i++];
            n.kids.push_back({c == '(' ? 'P' : c == '[' ? 'Q' : c, 0, 0, {}, 0});
            if (c == '(' || c == '[')
            {
                fill(n.kids.back());
                ++i;
            }
            else
            {
                auto& k = n.kids.back();
                k.id    = ids++;
                k.b     = long(r.text.size());
                r.text += content(c);
                k.e = long(r.text.size());
            }
        }
        n.e = long(r.text.size());
        if (n.kids.empty())
            r.has_empty = true;
    };
    r.root.kind = 'R';
    fill(r.root);
    return r;
}
inline void flatten(const MN& n, std::vector<const MN*>& out)
{
    out.push_back(&n);
    for (auto& k : n.kids)
        flatten(k, out);
}
inline void leaves(const MN& n, std::vector<int>& out)
{
    if (n.token())
        out.push_back(n.id);
    for (auto& k : n.kids)
        leaves(k, out);
}
//=== the real tree ===//
template <typename Tree, typename At>
Tree build_real(const Built& m, At at)
{
    using B = typename Tree::builder;
    using K = lexy::token_kind<tk>;
    B                       b(lexy::production_info(Root{}));
    std::function<void(const MN&)> add = [&](const MN& n) {
        auto tok = [&](auto kind) { b.token(kind, at(n.b), at(n.e)); };
        switch (n.kind)
        {
        case 'a': return tok(K(tk::a));
        case 'b': return tok(K(tk::b));
        case 'w': return tok(K(tk::w));
        case 'o': return tok(K(lexy::position_token_kind));
        case 'x': return tok(K(lexy::error_token_kind));
        case 'l': return tok(K(lexy::literal_token_kind));
        }
        auto mark = b.start_production(n.kind == 'P' ? lexy::production_info(P{}) : lexy::production_info(Q{}));
        for (auto& k : n.kids)
            add(k);
        b.finish_production(std::move(mark));
    };
    for (auto& k : m.root.kids)
        add(k);
    return std::move(b).finish(at(long(m.text.size())));
}
template <typename Node>
void collect(Node n, std::vector<Node>& out)
{
    out.push_back(n);
    for (auto c : n.children())
        collect(c, out);
}
// all shapes
template <typename F>
void shapes(std::string& s, std::string& open, int nodes, const std::string& toks, bool empties, F f)
{
    if (open.empty())
        f(s);
    else if (empties || (s.back() != '(' && s.back() != '['))
    {
        char c = open.back();
        s += c == '(' ? ')' : ']';
        open.pop_back();
        shapes(s, open, nodes, toks, empties, f);
        open.push_back(c);
        s.pop_back();
    }
    if (nodes == 0)
        return;
    for (char c : toks)
    {
        if (c == 'x' && !s.empty() && s.back() == 'x')
            continue; // merged
        s += c;
        if (c == '(' || c == '[')
            open += c;
        shapes(s, open, nodes - 1, toks, empties, f);
        if (c == '(' || c == '[')
            open.pop_back();
        s.pop_back();
    }
}
inline std::string ids(const std::vector<int>& v)
{
    std::string s;
    for (auto i : v)
        s += std::to_string(i) + " ";
    return s;
}

//=== A: queries ===//
template <typename Tree, bool Random, typename At>
void queries(const std::string& shape, const Built& m, At at)
{
    using Node = typename Tree::node;
    auto                   tree = build_real<Tree>(m, at);
    std::vector<const MN*> mn;
    std::vector<Node>      rn;
    flatten(m.root, mn);
    collect(tree.root(), rn);
    if (mn.size() != rn.size())
        return vh::fail("the tree has " + std::to_string(rn.size()) + " nodes");
    auto id = [&](Node n) {
        for (std::size_t i = 0; i < rn.size(); ++i)
            if (rn[i] == n)
                return int(i);
        return -1;
    };
    auto list = [&](const auto& range, const std::string& what, const std::vector<int>& want) {
        std::vector<int> got, again;
        for (auto n : range)
        {
            got.push_back(id(n));
            if (got.size() > rn.size())
                break;
        }
        // once more, by hand
        auto it = range.begin();
        for (; it != range.end() && again.size() <= rn.size();)
        {
            auto copy = it;
            again.push_back(id(*it));
            if (!(copy == it) || !(it->kind() == copy->kind()))
                vh::fail(what + ": copies of an iterator differ");
            auto old = it++;
            if (!(old == copy) || id(*old) != again.back())
                vh::fail(what + ": post-increment changes the old iterator");
            if (it != range.end() && (it == copy))
                vh::fail(what + ": an advanced iterator equals the old one");
        }
        if (!(range.end() == it) || range.end() != it)
            vh::fail(what + ": the end is not reached");
        vh::eq(what.c_str(), ids(want), ids(got));
        vh::eq(what.c_str(), ids(want), ids(again));
        vh::check(range.empty() == want.empty(), "empty()");
        vh::traces(1);
    };
    vh::transitions(rn.size());
    {
        std::vector<int> want;
        leaves(m.root, want);
        list(lexy_ext::tokens(tree), "tokens of the tree", want);
    }
    for (std::size_t i = 0; i < rn.size(); ++i)
    {
        std::vector<int> want;
        leaves(*mn[i], want);
        auto nd = "node " + std::to_string(i);
        list(lexy_ext::tokens(tree, rn[i]), "tokens of " + nd, want);
        auto by = [&](auto pred, auto mpred, const char* name) {
            std::vector<int> w;
            for (auto& k : mn[i]->kids)
                if (mpred(k))
                    w.push_back(k.id);
            list(lexy_ext::children(tree, rn[i], pred), nd + " children " + name, w);
            auto c = lexy_ext::child(tree, rn[i], pred);
            vh::check(c.has_value() == !w.empty(), "child() exists");
            if (c && id(*c) != w.front())
                vh::fail("child(): expected " + std::to_string(w.front()) + " actual " + std::to_string(id(*c)));
        };
        auto is = [](char c) { return [c](const MN& n) { return n.kind == c; }; };
        by(tk::a, is('a'), "a");
        by(tk::b, is('b'), "b");
        by(tk::w, is('w'), "w");
        by(lexy::token_kind<tk>(tk::b), is('b'), "token_kind b");
        by(lexy::position_token_kind, is('o'), "position");
        by(lexy::error_token_kind, is('x'), "error");
        by(lexy::literal_token_kind, is('l'), "literal");
        by(lexy::eof_token_kind, [](const MN&) { return false; }, "eof");
        by(P{}, is('P'), "P");
        by(Q{}, is('Q'), "Q");
        by(Z{}, [](const MN&) { return false; }, "Z");
        by(Root{}, [](const MN&) { return false; }, "Root");
        by([](Node) { return true; }, [](const MN&) { return true; }, "all");
        by([](Node) { return false; }, [](const MN&) { return false; }, "none");
        by([](Node n) { return n.kind().is_token(); }, [](const MN& n) { return n.token(); }, "tokens");
        by([](Node n) { return n.kind().is_production(); }, [](const MN& n) { return !n.token(); }, "productions");
        for (std::size_t k = 0; k < mn[i]->kids.size() && k < 6; ++k)
        {
            auto target = mn[i]->kids[k].id;
            auto node   = rn[std::size_t(target)];
            by([node](Node n) { return n == node; }, [target](const MN& n) { return n.id == target; }, "one");
            by([node](Node n) { return n != node; }, [target](const MN& n) { return n.id != target; }, "all but one");
        }
        // node_position
        auto pos  = lexy_ext::node_position(tree, rn[i]);
        bool have = false;
        long want_pos = 0;
        for (auto& k : mn[i]->kids)
            if (k.kind == 'o' && !have)
                have = true, want_pos = k.b;
        if (!have && !want.empty())
            have = true, want_pos = mn[std::size_t(want[0])]->b;
        if constexpr (Random)
        {
            if (have ? pos != at(want_pos) : pos != typename std::decay_t<decltype(pos)>{})
                vh::fail(nd + ": node_position is wrong");
        }
        else if (have && pos != at(want_pos))
            vh::fail(nd + ": node_position is wrong");
    }
    if constexpr (Random)
    {
        std::vector<int> toks;
        leaves(m.root, toks);
        for (long p = 0; p < long(m.text.size()); ++p)
        {
            int want = -1;
            for (auto t : toks)
                if (mn[std::size_t(t)]->b <= p && p < mn[std::size_t(t)]->e)
                    want = t;
            auto n = lexy_ext::find_covering_node(tree, at(p));
            if (id(n) != want)
                vh::fail("find_covering_node(" + std::to_string(p) + "): expected " + std::to_string(want) + " actual "
                         + std::to_string(id(n)));
            vh::traces(1);
        }
    }
}
inline void query_case(const std::string& shape)
{
    vh::step([&] { return "queries of " + (shape.size() > 200 ? std::to_string(shape.size()) + ":" + shape.substr(0, 50) : shape); },
             [&] {
                 auto m = build_model(shape);
                 using In = lexy::string_input<lexy::utf8_char_encoding>;
                 queries<lexy::parse_tree_for<In, tk>, true>(shape, m, [&](long i) { return m.text.data() + i; });
                 if (shape.size() <= 6)
                 {
                     std::list<char> l(m.text.begin(), m.text.end());
                     using LI = lexy::range_input<lexy::utf8_char_encoding, std::list<char>::iterator>;
                     queries<lexy::parse_tree_for<LI, tk>, false>(shape, m, [&](long i) { return std::next(l.begin(), i); });
                 }
                 vh::outcome(shape);
             });
}
void run_queries(int)
{
    std::string s, o;
    shapes(s, o, vh::thorough() ? 6 : 5, "([abo", true, query_case);
    shapes(s, o, vh::thorough() ? 5 : 4, "([awoxl", true, query_case);
    // long and deep ones
    for (int n : {20, 84, 85, 168, 169, 170, 171, 172, 340})
    {
        auto t = std::string(std::size_t(n), 'a');
        query_case(t + "b");
        query_case("(" + t + ")b");
        query_case("o(" + t + "[b]" + ")bb");
        if (n < 60)
            query_case(std::string(std::size_t(n), '(') + "a" + std::string(std::size_t(n), ')') + "b");
    }
}

//=== B: trees as input ===//
struct Reader
{
    const MN*          node;  // whose children, or whose text
    bool               chars;
    std::size_t        i = 0; // child, or offset
    const std::string* text;
    bool               end() const
    {
        return chars ? long(i) == node->e - node->b : i == node->kids.size();
    }
    long pos() const
    {
        return chars ? node->b + long(i) : end() ? node->e : node->kids[i].b;
    }
    char kind() const
    {
        return chars || end() ? 0 : node->kids[i].kind;
    }
    bool starts(const std::string& s, std::size_t& n) const
    {
        n = 0;
        if (!chars)
            return false;
        while (n < s.size() && long(i + n) < node->e - node->b && (*text)[std::size_t(node->b) + i + n] == s[n])
            ++n;
        return n == s.size();
    }
};
struct Tok
{
    std::string name;
    long        b, e;
};
struct Ctx
{
    bool                     ws = false;
    std::vector<std::string> errs;
    std::vector<Tok>         toks;
    std::string              prod = "G";
    long                     prod_begin = 0;
    void                     error(const std::string& s, long b, long e)
    {
        errs.push_back(s + "[" + std::to_string(b) + "," + std::to_string(e) + ") in " + prod + "@" + std::to_string(prod_begin));
    }
    void token(const std::string& s, long b, long e)
    {
        if (b == e && (s == "error token" || s == "whitespace" || s == "token"))
            return;
        if (s == "error token" && !toks.empty() && toks.back().name == s && toks.back().e == b)
            toks.back().e = e;
        else
            toks.push_back({s, b, e});
    }
    void skip(Reader& r)
    {
        if (!ws || r.chars)
            return;
        auto b = r.pos();
        while (r.kind() == 'w')
            ++r.i;
        token("whitespace", b, r.pos());
    }
};
using Vals = std::vector<std::string>;
struct Rule
{
    virtual ~Rule() = default;
    virtual bool cond(const Ctx&, const Reader&) const
    {
        return false;
    }
    virtual bool parse(Ctx&, Reader&, Vals&) const = 0;
};
using PR = std::shared_ptr<const Rule>;
inline std::string join_vals(const Vals& v)
{
    std::string s;
    for (std::size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + v[i];
    return s;
}
inline std::string at_(long p)
{
    return std::to_string(p);
}
// namespaces md and lx define the same names; a grammar is written once
namespace md
{
    struct NodeR : Rule
    {
        char        kind;
        std::string name, token_name;
        bool        captured = false;
        NodeR(char k, std::string n, std::string t) : kind(k), name(n), token_name(t) {}
        bool cond(const Ctx&, const Reader& r) const override
        {
            return r.kind() == kind;
        }
        bool parse(Ctx& c, Reader& r, Vals& v) const override
        {
            if (r.kind() != kind)
            {
                c.error("expected cc " + name, r.pos(), r.pos());
                return false;
            }
            auto b = r.pos();
            ++r.i;
            c.token(token_name, b, r.pos());
            if (captured)
                v.push_back("<" + at_(b) + "," + at_(r.pos()) + ">");
            c.skip(r);
            return true;
        }
    };
    struct NodeIn : Rule
    {
        char        kind;
        std::string name;
        PR          in;
        NodeIn(char k, std::string n, PR in) : kind(k), name(n), in(in) {}
        bool cond(const Ctx&, const Reader& r) const override
        {
            return r.kind() == kind;
        }
        bool parse(Ctx& c, Reader& r, Vals& v) const override
        {
            if (r.kind() != kind)
            {
                c.error("expected cc " + name, r.pos(), r.pos());
                return false;
            }
            Reader child{&r.node->kids[r.i], kind >= 'a', 0, r.text};
            ++r.i;
            c.skip(child);
            if (!in->parse(c, child, v))
            {
                c.token("error token", child.pos(), r.pos());
                return false;
            }
            if (!child.end())
            {
                c.token("error token", child.pos(), r.pos());
                c.error(kind >= 'a' ? "expected token end" : "expected production end", child.pos(), r.pos());
            }
            c.skip(r);
            return true;
        }
    };
    struct LitR : Rule
    {
        std::string s;
        bool        captured = false;
        LitR(std::string s) : s(s) {}
        bool cond(const Ctx&, const Reader& r) const override
        {
            std::size_t n;
            return r.starts(s, n);
        }
        bool parse(Ctx& c, Reader& r, Vals& v) const override
        {
            std::size_t n;
            if (!r.starts(s, n))
            {
                c.error("expected '" + s + "'#" + at_(long(n)), r.pos(), r.pos());
                c.token("error token", r.pos(), r.pos() + long(n));
                r.i += n;
                return false;
            }
            auto b = r.pos();
            r.i += n;
            c.token("literal", b, r.pos());
            if (captured)
                v.push_back("<" + at_(b) + "," + at_(r.pos()) + ">");
            return true;
        }
    };
    inline auto node(char k, const char* n, const char* t)
    {
        return std::make_shared<NodeR>(k, n, t);
    }
    struct Callable
    {
        char        k;
        const char *n, *t;
        operator PR() const
        {
            return node(k, n, t);
        }
        PR operator()(PR r) const
        {
            return std::make_shared<NodeIn>(k, n, r);
        }
    };
    inline const Callable A{'a', "a", "a"}, B{'b', "b", "b"}, W{'w', "w", "w"}, L{'l', "literal", "literal"}, PN{'P', "P", "token"}, QN{'Q', "Q", "token"};
    inline PR cap(const Callable& c)
    {
        auto n      = node(c.k, c.n, c.t);
        n->captured = true;
        return n;
    }
    inline auto lit_a()
    {
        return std::make_shared<LitR>("a");
    }
    inline auto lit_bc()
    {
        return std::make_shared<LitR>("bc");
    }
    inline auto lit_b()
    {
        return std::make_shared<LitR>("b");
    }
    inline auto lit_c()
    {
        return std::make_shared<LitR>("c");
    }
    inline PR cap(std::shared_ptr<LitR> l)
    {
        l->captured = true;
        return l;
    }
    struct Seq : Rule
    {
        std::vector<PR> r;
        bool            branch;
        Seq(std::vector<PR> r, bool b) : r(r), branch(b) {}
        bool cond(const Ctx& c, const Reader& rd) const override
        {
            return r[0]->cond(c, rd);
        }
        bool parse(Ctx& c, Reader& rd, Vals& v) const override
        {
            for (auto& x : r)
                if (!x->parse(c, rd, v))
                    return false;
            return true;
        }
    };
    template <typename... R>
    PR seq(R... r)
    {
        return std::make_shared<Seq>(std::vector<PR>{PR(r)...}, false);
    }
    template <typename... R>
    PR br(R... r)
    {
        return std::make_shared<Seq>(std::vector<PR>{PR(r)...}, true);
    }
    struct Alt : Rule
    {
        std::vector<PR> r;
        explicit Alt(std::vector<PR> r) : r(r) {}
        bool cond(const Ctx& c, const Reader& rd) const override
        {
            for (auto& x : r)
                if (x->cond(c, rd))
                    return true;
            return false;
        }
        bool parse(Ctx& c, Reader& rd, Vals& v) const override
        {
            for (auto& x : r)
                if (x->cond(c, rd))
                    return x->parse(c, rd, v);
            c.error("exhausted choice", rd.pos(), rd.pos());
            return false;
        }
    };
    template <typename... R>
    PR alt(R... r)
    {
        return std::make_shared<Alt>(std::vector<PR>{PR(r)...});
    }
    struct Fn : Rule
    {
        std::function<bool(const Ctx&, const Reader&)> f;
        std::function<bool(Ctx&, Reader&, Vals&)>      g;
        bool                                           cond(const Ctx& c, const Reader& r) const override
        {
            return f && f(c, r);
        }
        bool parse(Ctx& c, Reader& r, Vals& v) const override
        {
            return g(c, r, v);
        }
    };
    inline PR fn(std::function<bool(Ctx&, Reader&, Vals&)> g, std::function<bool(const Ctx&, const Reader&)> f = nullptr)
    {
        auto r = std::make_shared<Fn>();
        r->f   = f;
        r->g   = g;
        return r;
    }
    inline PR may(PR x)
    {
        return fn([x](Ctx& c, Reader& r, Vals& v) {
            if (x->cond(c, r))
                return x->parse(c, r, v);
            v.push_back("~");
            return true;
        });
    }
    inline PR rep(PR x)
    {
        return fn([x](Ctx& c, Reader& r, Vals& v) {
            while (x->cond(c, r))
                if (!x->parse(c, r, v))
                    return false;
            return true;
        });
    }
    inline PR lst(PR x)
    {
        return fn(
            [x](Ctx& c, Reader& r, Vals& v) {
                std::string s = "{";
                for (bool first = true; first || x->cond(c, r); first = false)
                {
                    Vals mine;
                    if (!x->parse(c, r, mine))
                        return false;
                    s += (first ? "" : ";") + join_vals(mine);
                }
                v.push_back(s + "}");
                return true;
            },
            [x](const Ctx& c, const Reader& r) { return x->cond(c, r); });
    }
    inline PR tr(PR x)
    {
        return fn(
            [x](Ctx& c, Reader& r, Vals& v) {
                auto mine = v;
                if (x->parse(c, r, mine))
                    v = mine;
                else
                    c.skip(r);
                return true;
            },
            [x](const Ctx& c, const Reader& r) { return x->cond(c, r); });
    }
    // x is peeked at without effects
    inline PR pk(PR x)
    {
        // matched as token: without whitespace
        auto attempt = [x](const Ctx& c, Reader& rr) {
            auto cc = c;
            cc.ws   = false;
            Vals v;
            auto n  = cc.errs.size();
            return x->parse(cc, rr, v) && cc.errs.size() == n;
        };
        return fn(
            [attempt](Ctx& c, Reader& r, Vals&) {
                auto rr = r;
                if (!attempt(c, rr))
                    c.error("peek failure", r.pos(), rr.pos());
                return true;
            },
            [attempt](const Ctx& c, const Reader& r) {
                auto rr = r;
                return attempt(c, rr);
            });
    }
    inline PR pos_()
    {
        return fn([](Ctx&, Reader& r, Vals& v) {
            v.push_back("@" + at_(r.pos()));
            return true;
        });
    }
    inline PR end_()
    {
        return fn(
            [](Ctx& c, Reader& r, Vals&) {
                if (!r.end())
                    c.error("expected EOF", r.pos(), r.pos());
                return true;
            },
            [](const Ctx&, const Reader& r) { return r.end(); });
    }
    inline PR inner(PR x)
    {
        return fn(
            [x](Ctx& c, Reader& r, Vals& v) {
                auto old      = c.prod;
                auto ob       = c.prod_begin;
                c.prod        = "Inner";
                c.prod_begin  = r.pos();
                Vals mine;
                auto res     = x->parse(c, r, mine);
                c.prod       = old;
                c.prod_begin = ob;
                if (res)
                    v.push_back("(" + join_vals(mine) + ")");
                return res;
            },
            [x](const Ctx& c, const Reader& r) { return x->cond(c, r); });
    }
} // namespace md
namespace lx
{
    constexpr auto A = dsl::tnode<tk::a>;
    constexpr auto B = dsl::tnode<tk::b>;
    constexpr auto W = dsl::tnode<tk::w>;
    constexpr auto L = dsl::tnode<lexy::literal_token_kind>;
    constexpr auto PN = dsl::pnode<P>;
    constexpr auto QN = dsl::pnode<Q>;
    template <typename R>
    constexpr auto cap(R r)
    {
        return dsl::capture(r);
    }
    constexpr auto lit_a()
    {
        return LEXY_LIT("a");
    }
    constexpr auto lit_bc()
    {
        return LEXY_LIT("bc");
    }
    constexpr auto lit_b()
    {
        return LEXY_LIT("b");
    }
    constexpr auto lit_c()
    {
        return LEXY_LIT("c");
    }
    template <typename... R>
    constexpr auto seq(R... r)
    {
        return (r + ...);
    }
    template <typename C, typename... R>
    constexpr auto br(C c, R... r)
    {
        return c >> (r + ...);
    }
    template <typename... R>
    constexpr auto alt(R... r)
    {
        return (r | ...);
    }
    template <typename R>
    constexpr auto may(R r)
    {
        return dsl::opt(r);
    }
    template <typename R>
    constexpr auto rep(R r)
    {
        return dsl::while_(r);
    }
    template <typename R>
    constexpr auto lst(R r)
    {
        return dsl::list(r);
    }
    template <typename R>
    constexpr auto tr(R r)
    {
        return dsl::try_(r);
    }
    template <typename R>
    constexpr auto pk(R r)
    {
        return dsl::peek(r);
    }
    constexpr auto pos_()
    {
        return dsl::position;
    }
    constexpr auto end_()
    {
        return dsl::eof;
    }
    template <typename R>
    struct Inner
    {
        static constexpr auto name  = "Inner";
        static constexpr auto rule  = R{};
        static constexpr auto value = eng::val;
    };
    template <typename R>
    constexpr auto inner(R)
    {
        return dsl::p<Inner<R>>;
    }
} // namespace lx

template <typename G, bool Ws>
void tree_case(const std::string& shape, PR model, const char* text)
{
    vh::step([&] { return std::string(text) + (Ws ? " (whitespace w)" : "") + " on " + shape; },
             [&] {
                 auto m = build_model(shape);
                 using In   = lexy::string_input<lexy::utf8_char_encoding>;
                 using Tree = lexy::parse_tree_for<In, tk>;
                 auto tree  = build_real<Tree>(m, [&](long i) { return m.text.data() + i; });
                 eng::base_it<const char*> = m.text.data();
                 // model
                 Ctx c;
                 c.ws = Ws;
                 Reader r{&m.root, false, 0, &m.text};
                 Vals   v;
                 c.skip(r);
                 bool ok = model->parse(c, r, v);
                 vh::transitions(c.toks.size() + 1);
                 int  status = ok ? (c.errs.empty() ? 0 : 1) : 2;
                 auto value  = "(" + join_vals(v) + ")";

                 lexy::parse_tree_input input(tree);
                 vh::check(input.root() == tree.root(), "root()");
                 auto val = lexy::validate<G>(input, eng::errs);
                 vh::eq("validate errors", eng::join(c.errs), eng::join(val.errors()));
                 vh::eq("validate status", std::to_string(status), std::to_string(eng::status(val)));
                 auto par = lexy::parse<G>(input, eng::errs);
                 vh::eq("parse errors", eng::join(c.errs), eng::join(par.errors()));
                 vh::eq("parse status", std::to_string(status), std::to_string(eng::status(par)));
                 vh::check(par.has_value() == ok, "parse has a value");
                 if (ok)
                     vh::eq("value", value, par.value());
                 vh::check(lexy::match<G>(input) == (status == 0), "match");
                 // a part of a tree as input
                 for (auto n : tree.root().children())
                     if (n.kind().is_production())
                     {
                         const MN* mk = nullptr;
                         int       k  = 0;
                         for (auto o : tree.root().children())
                         {
                             if (o == n)
                                 mk = &m.root.kids[std::size_t(k)];
                             ++k;
                         }
                         lexy::parse_tree_input<typename Tree::node> sub(n);
                         Ctx                                         c2;
                         c2.ws         = Ws;
                         c2.prod_begin = mk->b;
                         Reader r2{mk, false, 0, &m.text};
                         Vals   v2;
                         c2.skip(r2);
                         // the production starts behind the whitespace
                         bool ok2 = model->parse(c2, r2, v2);
                         auto p2  = lexy::parse<G>(sub, eng::errs);
                         vh::eq("subtree errors", eng::join(c2.errs), eng::join(p2.errors()));
                         vh::check(p2.has_value() == ok2, "subtree has a value");
                         if (ok2)
                             vh::eq("subtree value", "(" + join_vals(v2) + ")", p2.value());
                     }
                 vh::traces(3);
                 vh::outcome(std::string(text) + eng::join(c.errs) + value);
             });
}
template <typename G>
struct WithWs : G
{
    static constexpr auto whitespace = dsl::tnode<tk::w>;
};
template <typename G>
void tree_rule(PR model, const char* text)
{
    std::string s, o;
    shapes(s, o, vh::thorough() ? 5 : 4, "([abw", false, [&](const std::string& sh) {
        if (!sh.empty()) // the position in an empty tree is unknown
            tree_case<G, false>(sh, model, text);
    });
    shapes(s, o, vh::thorough() ? 4 : 3, "([abwol", false, [&](const std::string& sh) {
        if (!sh.empty())
            tree_case<G, false>(sh, model, text), tree_case<WithWs<G>, true>(sh, model, text);
    });
    if (vh::thorough())
        shapes(s, o, 5, "(abw", false, [&](const std::string& sh) {
            if (!sh.empty())
                tree_case<WithWs<G>, true>(sh, model, text);
        });
}
#define RULE(ID, ...)                                                                              \
    struct G##ID                                                                                   \
    {                                                                                              \
        static constexpr auto name = "G";                                                          \
        static constexpr auto rule = [] {                                                          \
            using namespace lx;                                                                    \
            return __VA_ARGS__;                                                                    \
        }();                                                                                       \
        static constexpr auto value = eng::val;                                                    \
    };                                                                                             \
    inline PR model##ID()                                                                          \
    {                                                                                              \
        using namespace md;                                                                        \
        return __VA_ARGS__;                                                                        \
    }                                                                                              \
    [[maybe_unused]] const int reg##ID = parts::add<ID>([](auto i) { tree_rule<std::conditional_t<true, G##ID, decltype(i)>>(model##ID(), #__VA_ARGS__); });

[[maybe_unused]] const int reg_q = parts::add<0>([](auto i) { run_queries(i); });
RULE(1, A)
RULE(2, seq(A, B))
RULE(3, seq(cap(A), cap(PN), pos_()))
RULE(4, PN(cap(A)))
RULE(5, PN(PN(cap(B))))
RULE(6, seq(QN(seq(A, may(cap(B)))), pos_()))
RULE(7, seq(rep(alt(A, B, W, PN, QN)), end_()))
RULE(8, lst(alt(cap(A), cap(B), cap(QN), cap(PN))))
RULE(9, A(lit_a()))
RULE(10, B(seq(cap(lit_b()), pos_(), cap(lit_c()))))
RULE(11, B(lit_b()))
RULE(12, B(lit_a()))
RULE(13, seq(tr(A(lit_b())), pos_(), cap(B)))
RULE(14, seq(tr(B(seq(lit_b(), lit_b()))), pos_(), may(cap(A))))
RULE(15, seq(tr(PN(A)), may(cap(QN)), pos_()))
RULE(16, alt(br(A, cap(PN)), br(B, cap(A)), PN(lst(cap(A))), QN(B(cap(lit_bc())))))
RULE(17, inner(br(A, may(cap(B)))))
RULE(18, seq(rep(A), inner(seq(pos_(), cap(B)))))
RULE(19, PN(inner(lst(alt(cap(A), cap(B))))))
RULE(20, lst(PN(seq(cap(A), may(inner(br(B, pos_())))))))
RULE(21, seq(may(br(pk(seq(A, B)), cap(A))), pos_(), cap(B)))
RULE(22, seq(pk(PN(A)), cap(PN)))
RULE(23, seq(rep(W), PN(seq(rep(W), cap(A), rep(W))), end_()))
RULE(24, seq(cap(L), may(L(lit_a()))))
RULE(25, lst(br(A, QN(seq(may(cap(A)), pos_())))))
RULE(26, seq(tr(seq(A, tr(PN(seq(A, B))))), pos_(), rep(alt(A, B, PN, QN, W)), end_()))
RULE(27, PN(seq(may(cap(A)), may(QN(may(cap(B)))))))
} // namespace
PARTS_MAIN
