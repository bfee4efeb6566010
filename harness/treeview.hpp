// Checks that every view of a parse tree describes one and the same tree.
#ifndef TREEVIEW_HPP
#define TREEVIEW_HPP
#include <lexy/parse_tree.hpp>
#include <string>
#include <vector>
namespace tv
{
template <typename Node, typename It>
struct Info
{
    Node             node;
    int              parent;
    std::size_t      depth;
    std::vector<int> kids;
    It               begin{}, end{}; // of the covered tokens
    bool             has_token = false;
};
template <typename Node, typename It>
int build(std::vector<Info<Node, It>>& v, Node n, int parent, std::size_t depth, std::string& bad)
{
    int id = int(v.size());
    v.push_back({n, parent, depth, {}, It(), It(), false});
    if (n.kind().is_token())
    {
        v[id].begin     = n.lexeme().begin();
        v[id].end       = n.lexeme().end();
        v[id].has_token = true;
        if (n.kind().is_production() || n.kind().is_token_production())
            bad = "a token is a production, too";
        if (!n.children().empty() || n.children().size() != 0 || n.children().begin() != n.children().end())
            bad = "a token has children";
        auto t = n.token();
        if (t.lexeme().begin() != n.lexeme().begin() || t.lexeme().end() != n.lexeme().end()
            || t.position() != n.lexeme().begin() || std::string(t.name()) != n.kind().name()
            || !(n.kind() == t.kind()) || !(t.kind() == n.kind()) || n.kind() != t.kind())
            bad = "token() differs from the node";
    }
    else
    {
        if (!n.kind().is_production())
            bad = "a node is neither token nor production";
        std::size_t count = 0;
        for (auto c : n.children())
        {
            int k = build(v, c, id, depth + 1, bad);
            v[id].kids.push_back(k);
            if (v[k].has_token)
            {
                if (!v[id].has_token)
                    v[id].begin = v[k].begin;
                v[id].has_token = true;
                v[id].end       = v[k].end;
            }
            if (++count > 1000000)
            {
                bad = "endless children";
                return id;
            }
        }
        if (n.children().size() != count || n.children().empty() != (count == 0))
            bad = "children().size() is " + std::to_string(n.children().size()) + " but there are "
                  + std::to_string(count);
        if (n.lexeme().begin() != It() || n.lexeme().end() != It())
            bad = "lexeme() of a production is not empty";
    }
    return id;
}
struct Ev
{
    int ev;
    int id;
};
template <typename V>
void events(const V& v, int id, std::vector<Ev>& out)
{
    if (v[id].node.kind().is_token())
    {
        out.push_back({2, id});
        return;
    }
    out.push_back({0, id});
    for (int k : v[id].kids)
        events(v, k, out);
    out.push_back({1, id});
}
// positions: whether position() and covering_lexeme() may be asked for (every production has a child
// and the remaining input starts where the last token ends)
template <typename Tree, typename It>
std::string check_views(const Tree& tree, It, bool positions, std::size_t all_below = 200)
{
    std::string bad;
    if (tree.empty())
    {
        if (tree.size() != 0)
            bad = "an empty tree has size " + std::to_string(tree.size());
        if (tree.traverse().begin() != tree.traverse().end() || !tree.traverse().empty())
            bad = "an empty tree has nodes";
        if (!(tree.remaining_input().begin() == tree.remaining_input().end()))
            bad = "an empty tree has remaining input";
        return bad;
    }
    using Node = decltype(tree.root());
    std::vector<Info<Node, It>> v;
    build(v, tree.root(), -1, 0, bad);
    if (!bad.empty())
        return bad;
    if (tree.size() != v.size())
        return "size() is " + std::to_string(tree.size()) + " but there are " + std::to_string(v.size())
               + " nodes";
    std::size_t depth = 0;
    for (auto& n : v)
        depth = std::max(depth, n.depth);
    if (tree.depth() != depth)
        return "depth() is " + std::to_string(tree.depth()) + " but the longest path is "
               + std::to_string(depth);
    bool every_prod_has_child = true;
    for (auto& n : v)
        if (n.node.kind().is_production() && n.kids.empty())
            every_prod_has_child = false;

    std::vector<std::vector<Ev>> evs;
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        auto& n = v[i];
        if (n.node != n.node || !(n.node == n.node))
            return "a node differs from itself";
        // few nodes of a large tree are looked at in all detail
        bool detail = v.size() <= all_below || i % 37 == 0 || i < 4 || i + 4 > v.size();
        if (n.node.kind().is_root() != (n.parent < 0))
            return "is_root() of node " + std::to_string(i);
        if (!detail)
            continue;
        if (!(n.node.parent() == (n.parent < 0 ? n.node : v[std::size_t(n.parent)].node)))
            return "parent() of node " + std::to_string(i);
        // siblings: the following ones, then wrapping around
        std::vector<int> sib;
        if (n.parent >= 0)
        {
            auto&       k   = v[std::size_t(n.parent)].kids;
            std::size_t pos = 0;
            while (k[pos] != int(i))
                ++pos;
            for (std::size_t j = 1; j < k.size(); ++j)
                sib.push_back(k[(pos + j) % k.size()]);
            if (n.node.is_last_child() != (pos + 1 == k.size()))
                return "is_last_child() of node " + std::to_string(i);
        }
        std::size_t j = 0;
        for (auto s : n.node.siblings())
        {
            if (j >= sib.size() || !(s == v[std::size_t(sib[j])].node))
                return "siblings() of node " + std::to_string(i);
            ++j;
        }
        if (j != sib.size() || n.node.siblings().empty() != sib.empty())
            return "number of siblings() of node " + std::to_string(i);
        // traversal of the subtree
        std::vector<Ev> ev;
        events(v, int(i), ev);
        std::size_t e = 0;
        for (auto [what, node] : tree.traverse(n.node))
        {
            auto w = what == lexy::traverse_event::enter ? 0 : what == lexy::traverse_event::exit ? 1 : 2;
            if (e >= ev.size() || ev[e].ev != w || !(node == v[std::size_t(ev[e].id)].node))
                return "traverse() of node " + std::to_string(i) + " at event " + std::to_string(e);
            ++e;
        }
        if (e != ev.size() || tree.traverse(n.node).empty())
            return "traverse() of node " + std::to_string(i) + " ends early";
        if (i == 0)
        {
            e = 0;
            for (auto [what, node] : tree.traverse())
            {
                auto w = what == lexy::traverse_event::enter ? 0 : what == lexy::traverse_event::exit ? 1 : 2;
                if (e >= ev.size() || ev[e].ev != w || !(node == v[std::size_t(ev[e].id)].node))
                    return "traverse() at event " + std::to_string(e);
                ++e;
            }
            if (e != ev.size())
                return "traverse() ends early";
        }
        if (positions && every_prod_has_child)
        {
            if (n.node.position() != n.begin)
                return "position() of node " + std::to_string(i);
            auto c = n.node.covering_lexeme();
            if (c.begin() != n.begin || c.end() != n.end)
                return "covering_lexeme() of node " + std::to_string(i);
        }
        for (std::size_t o = 0; o < v.size() && o < 40; ++o)
        {
            if ((v[o].node == n.node) != (o == i) || (v[o].node.address() == n.node.address()) != (o == i))
                return "comparison of nodes " + std::to_string(i) + " and " + std::to_string(o);
            bool same = v[o].node.kind().is_token() == n.node.kind().is_token()
                        && std::string(v[o].node.kind().name()) == n.node.kind().name();
            if ((v[o].node.kind() == n.node.kind()) != same || (v[o].node.kind() != n.node.kind()) == same)
                return "comparison of the kinds of nodes " + std::to_string(i) + " and " + std::to_string(o);
        }
    }
    return bad;
}
} // namespace tv
#endif
