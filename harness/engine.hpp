// lexy side of the grammar engine: runs a grammar through the public actions and turns every
// observable (result, errors with context, value, tree) into strings comparable with the model.
#ifndef ENGINE_HPP
#define ENGINE_HPP
#include "model.hpp"
#include "vh.hpp"

#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#ifdef ENG_TREE_VIEWS
#    include "treeview.hpp"
#endif
#ifdef ENG_REPORT
#    include "report.hpp"
#    include <lexy_ext/report_error.hpp>
#endif
#include <string>

#ifndef ENG_ENC
#    define ENG_ENC lexy::utf8_char_encoding
#endif
namespace dsl = lexy::dsl;

namespace eng
{
// Base iterators, to turn iterators into indices without parse state.
template <typename It>
inline It base_it{};
template <typename It>
inline std::string idx(It it)
{
    return std::to_string(static_cast<long>(it - base_it<It>));
}

template <typename Reader>
std::string show(const lexy::lexeme<Reader>& l)
{
    return "<" + idx(l.begin()) + "," + idx(l.end()) + ">";
}
inline std::string show(lexy::nullopt)
{
    return "~";
}
inline std::string show(const std::string& s)
{
    return s;
}
inline std::string show(bool b)
{
    return b ? "true" : "false";
}
inline std::string show(const char* p)
{
    return "@" + idx(p);
}
inline std::string show(const char16_t* p)
{
    return "@" + idx(p);
}
inline std::string show(const char32_t* p)
{
    return "@" + idx(p);
}
inline std::string show(const unsigned char* p)
{
    return "@" + idx(p);
}
#ifdef __cpp_char8_t
inline std::string show(const char8_t* p)
{
    return "@" + idx(p);
}
#endif
inline std::string show(lexy::code_point cp)
{
    char b[16];
    snprintf(b, sizeof b, "U+%X", unsigned(cp.value()));
    return b;
}
template <typename T>
    requires(std::is_integral_v<T>)
std::string show(T t)
{
    return std::to_string(t);
}
template <typename T>
    requires(std::is_enum_v<T>)
std::string show(T t)
{
    return std::to_string(static_cast<long long>(t));
}
// which member it is
struct Members
{
    struct Slot
    {
        int n = 0;
        template <typename T>
        Slot& operator=(const T&)
        {
            ++n;
            return *this;
        }
    } x, y, z;
};
template <typename Fn>
std::string show(lexy::member<Fn>)
{
    Members m;
    Fn{}(m, 0);
    return std::string("m:") + (m.x.n ? "x" : "") + (m.y.n ? "y" : "") + (m.z.n ? "z" : "");
}
// Side effects of a parse, in order.
inline std::string log;
inline void        effect()
{
    log += "!";
}
inline std::size_t effect_value()
{
    log += "!";
    return std::size_t(std::count(log.begin(), log.end(), '!'));
}
inline constexpr auto effect_fn       = &effect;
inline constexpr auto effect_value_fn = &effect_value;
// A type to be constructed from the values of a rule.
struct PA
{
    std::string s;
    template <typename... Args>
        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, PA> && ...)))
    explicit PA(Args&&... args);
};
inline std::string show(const PA& p)
{
    return p.s;
}
template <typename... Args>
    requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, PA> && ...)))
PA::PA(Args&&... args)
{
    s      = "PA(";
    bool f = true;
    ((s += f ? "" : ",", f = false, s += show(args)), ...);
    s += ")";
    log += s;
}

// The universal value: accepts everything, renders it.
struct Sink
{
    using return_type = std::string;
    std::string s     = "{";
    bool        first = true;
    template <typename... Args>
    void operator()(Args&&... args)
    {
        if (!first)
            s += ";";
        first  = false;
        bool f = true;
        ((s += f ? "" : ",", f = false, s += show(args)), ...);
    }
    std::string finish() &&
    {
        return s + "}";
    }
};
struct Val
{
    using return_type = std::string;
    template <typename... Args>
    std::string operator()(Args&&... args) const
    {
        std::string s = "(";
        bool        f = true;
        ((s += f ? "" : ",", f = false, s += show(args)), ...);
        return s + ")";
    }
    auto sink() const
    {
        return Sink{};
    }
};
inline constexpr Val val{};

// Error collection with full context.
template <typename Reader, typename Tag>
std::string show_error(const lexy::error<Reader, Tag>& e)
{
    return e.message() + ("[" + idx(e.begin()) + "," + idx(e.end()) + ")");
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_literal>& e)
{
    std::string s;
    for (std::size_t i = 0; i < e.length(); ++i)
        s += char(e.string()[i]);
    return "expected '" + s + "'#" + std::to_string(e.index()) + "[" + idx(e.position()) + ","
           + idx(e.position()) + ")";
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_keyword>& e)
{
    std::string s;
    for (std::size_t i = 0; i < e.length(); ++i)
        s += char(e.string()[i]);
    return "expected keyword '" + s + "'[" + idx(e.begin()) + "," + idx(e.end()) + ")";
}
template <typename Reader>
std::string show_error(const lexy::error<Reader, lexy::expected_char_class>& e)
{
    return std::string("expected cc ") + e.name() + "[" + idx(e.position()) + ","
           + idx(e.position()) + ")";
}
struct Errs
{
    struct S
    {
        using return_type = std::vector<std::string>;
        return_type v;
        template <typename Input, typename Reader, typename Tag>
        void operator()(const lexy::error_context<Input>& ctx,
                        const lexy::error<Reader, Tag>&   e)
        {
            v.push_back(show_error(e) + " in " + ctx.production() + "@" + idx(ctx.position()));
        }
        return_type finish() &&
        {
            return std::move(v);
        }
    };
    auto sink() const
    {
        return S{};
    }
};
inline constexpr Errs errs{};

inline std::string join(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (auto& x : v)
        s += x + "; ";
    return s + "]";
}

// Parse tree dump by traversal; checks the structural invariants on the way.
template <typename Tree>
struct TreeView
{
    std::string text;
    std::string bad; // violated invariant, if any
};
template <typename Node>
void dump_children(std::string& s, Node n)
{
    // recursive dump through children()/siblings
    if (n.kind().is_token())
    {
        s += n.kind().name();
        s += show(n.lexeme());
        return;
    }
    s += n.kind().name();
    s += "{";
    for (auto c : n.children())
        dump_children(s, c);
    s += "}";
}
template <typename Tree, typename It>
TreeView<Tree> view_tree(const Tree& tree, It begin, It end)
{
    TreeView<Tree> r;
    if (tree.empty())
    {
        r.text = "<empty>";
        return r;
    }
    auto root = tree.root();
    dump_children(r.text, root);
    r.text += "|" + show(tree.remaining_input());

    // traversal: enter/exit/leaf events describe the same tree; tokens are contiguous
    std::string t;
    It          cur   = begin;
    std::size_t depth = 0, max_depth = 0, nodes = 0;
    using traverse_event = lexy::traverse_event;
    std::vector<decltype(root)> stack;
    for (auto [ev, node] : tree.traverse())
    {
        switch (ev)
        {
        case traverse_event::enter:
            t += node.kind().name();
            t += "{";
            if (!stack.empty() && !(node.parent() == stack.back()))
                r.bad = "parent() wrong";
            if (stack.empty() && !(node.parent() == node))
                r.bad = "root is not its own parent";
            if (node.kind().is_root() != stack.empty())
                r.bad = "is_root wrong";
            stack.push_back(node);
            max_depth = std::max(max_depth, stack.size() - 1);
            ++nodes;
            break;
        case traverse_event::exit:
            t += "}";
            if (stack.empty() || !(stack.back() == node))
                r.bad = "unbalanced traversal";
            else
                stack.pop_back();
            break;
        case traverse_event::leaf:
            t += node.kind().name();
            if (node.kind().is_production())
            {
                t += "{}";
            }
            else
            {
                t += show(node.lexeme());
                if (node.lexeme().begin() != cur)
                    r.bad = "token does not start where the previous one ended";
                cur = node.lexeme().end();
                if (!(node.token().lexeme().begin() == node.lexeme().begin())
                    || !(node.token().kind() == node.token().kind()))
                    r.bad = "token() wrong";
            }
            if (!stack.empty() && !(node.parent() == stack.back()))
                r.bad = "parent() of leaf wrong";
            max_depth = std::max(max_depth, stack.size());
            ++nodes;
            break;
        }
    }
    (void)depth;
    t += "|" + show(tree.remaining_input());
    if (t != r.text)
        r.bad = "traverse() and children() disagree: " + t;
    if (tree.remaining_input().begin() != cur)
        r.bad = "remaining input does not start where the last token ended";
    if (tree.remaining_input().end() != end)
        r.bad = "remaining input does not reach the end of the input";
    if (tree.size() != nodes)
        r.bad = "size() is " + std::to_string(tree.size()) + " but there are "
                + std::to_string(nodes) + " nodes";
    if (tree.depth() != max_depth)
        r.bad = "depth() is " + std::to_string(tree.depth()) + " but the longest path is "
                + std::to_string(max_depth);
#ifdef ENG_TREE_VIEWS
    if (r.bad.empty())
        r.bad = tv::check_views(tree, begin, true);
#endif
    return r;
}

//=== registry ===//
struct Result
{
    bool                     match = false;
    std::vector<std::string> verrs, perrs, terrs;
    int                      vstatus = -1, pstatus = -1, tstatus = -1; // 0 ok 1 recovered 2 fatal
    bool                     has_value = false;
    std::string              value;
    std::string              log[5]; // side effects of the five actions
    std::string              tree, tree_bad;
    std::string              trace, trace1; // full; limited to depth 1
    std::size_t              counted = 0;   // errors as counted by lexy::count
    std::string              report[3];     // by validate, parse, parse_as_tree
    std::size_t              reported[3] = {};
};
template <typename T>
int status(const T& r)
{
    bool s = r.is_success(), e = r.is_error(), rec = r.is_recovered_error(),
         f = r.is_fatal_error();
    if (s && !e && !rec && !f && bool(r))
        return 0;
    if (!s && e && rec && !f && !bool(r))
        return 1;
    if (!s && e && !rec && f && !bool(r))
        return 2;
    return 9;
}

enum Want
{
    W_MATCH = 1,
    W_VALIDATE = 2,
    W_PARSE = 4,
    W_TREE = 8,
    W_TRACE = 16,
    W_REPORT = 32,
};
template <typename G, int Wants, typename Input, typename It>
void run_actions(Result& r, const Input& input, It begin, It end)
{
    base_it<It> = begin;
    auto took = [&](int i) {
        r.log[i] = std::move(log);
        log.clear();
    };
    log.clear();
    if constexpr (Wants & W_MATCH)
    {
        r.match = lexy::match<G>(input);
        took(0);
    }
    if constexpr (Wants & W_VALIDATE)
    {
        auto v    = lexy::validate<G>(input, errs);
        took(1);
        r.vstatus = status(v);
        r.verrs   = v.errors();
        if (v.error_count() != r.verrs.size())
            r.vstatus = 8;
    }
    if constexpr (Wants & W_PARSE)
    {
        auto p      = lexy::parse<G>(input, errs);
        took(2);
        r.pstatus   = status(p);
        r.perrs     = p.errors();
        r.has_value = p.has_value();
        if (p.error_count() != r.perrs.size())
            r.pstatus = 8;
        if (p.has_value())
            r.value = p.value();
    }
    if constexpr (Wants & W_TREE)
    {
        lexy::parse_tree_for<Input> tree;
        auto                        t = lexy::parse_as_tree<G>(tree, input, errs);
        took(3);
        r.tstatus                     = status(t);
        r.terrs                       = t.errors();
        if (t.error_count() != r.terrs.size())
            r.tstatus = 8;
        auto v     = view_tree(tree, begin, end);
        r.tree     = v.text;
        r.tree_bad = v.bad;
    }
    if constexpr (Wants & W_TRACE)
    {
        lexy::trace_to<G>(std::back_inserter(r.trace), input);
        took(4);
        lexy::visualization_options o{};
        o.max_tree_depth = 1;
        lexy::trace_to<G>(std::back_inserter(r.trace1), input, o);
        r.counted = lexy::validate<G>(input, lexy::count).errors();
    }
#ifdef ENG_REPORT
    if constexpr (Wants & W_REPORT)
    {
        auto cb = [&](int i, unsigned f, const char* path) {
            return lexy_ext::report_error.path(path).opts(viz::real(viz::opt(f))).to(std::back_inserter(r.report[i]));
        };
        auto v        = lexy::validate<G>(input, cb(0, 0, nullptr));
        r.reported[0] = v.errors();
        auto p        = lexy::parse<G>(input, cb(1, 7, "file"));
        r.reported[1] = p.errors();
        lexy::parse_tree_for<Input> tree;
        auto                        t = lexy::parse_as_tree<G>(tree, input, cb(2, 5, nullptr));
        r.reported[2]                 = t.errors();
        if (v.error_count() != r.reported[0] || p.error_count() != r.reported[1] || t.error_count() != r.reported[2])
            r.reported[0] = 999;
    }
#endif
}

#ifdef ENG_REPORT
// The reports the model's errors ask for.
inline std::string model_report(const std::vector<std::string>& errs, const std::vector<uint32_t>& in, const viz::O& o,
                                const char* path)
{
    std::string   r;
    report::Input input{viz::e_utf8, in};
    for (auto& s : errs)
    {
        report::Err e;
        auto        at = s.rfind('@'), in_ = s.rfind(" in ", at), br = s.rfind('[', in_);
        e.context      = std::stol(s.substr(at + 1));
        e.production   = s.substr(in_ + 4, at - in_ - 4);
        std::sscanf(s.c_str() + br, "[%ld,%ld)", &e.begin, &e.end);
        e.size = 0;
        e.what = s.substr(0, br);
        auto quoted = [&](std::size_t from) {
            auto                  q1 = e.what.find('\'', from), q2 = e.what.rfind('\'');
            std::vector<uint32_t> u(e.what.begin() + long(q1) + 1, e.what.begin() + long(q2));
            return viz::lex(report::plain(o), viz::e_utf8, u);
        };
        if (e.what.compare(0, 12, "expected cc ") == 0)
            e.what = "expected " + e.what.substr(12), e.end = -1, e.size = 1;
        else if (e.what.compare(0, 18, "expected keyword '") == 0)
            e.what = "expected keyword '" + quoted(0) + "'";
        else if (e.what.compare(0, 10, "expected '") == 0)
        {
            e.end  = -1;
            e.size = 1 + std::stol(e.what.substr(e.what.rfind('#') + 1));
            e.what = "expected '" + quoted(0) + "'";
        }
        r += report::error(o, input, e, path);
    }
    return errs.empty() ? r : r + "\n";
}
#endif

struct Entry
{
    const char*        text;
    const model::Prod* prod;
    const char*        alphabet;
    int                maxlen;
    int                wants;
    // runs the grammar on the ASCII input, as string_input over [b,e)
    void (*run)(Result&, const char* b, const char* e);
    std::vector<std::string> extra; // further inputs
};
inline std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}
template <typename G, int Wants>
void run_string(Result& r, const char* b, const char* e)
{
    auto in = lexy::string_input<ENG_ENC>(b, e);
    run_actions<G, Wants>(r, in, b, e);
}
struct Reg
{
    template <typename F>
    explicit Reg(F f)
    {
        f();
    }
};

inline std::string show_input(const std::string& s)
{
    return "\"" + vh::esc(s) + "\"";
}

inline std::string after_loc(const std::string& line)
{
    auto p = line.find(':');
    p      = p == std::string::npos ? p : line.find(':', p + 1);
    return p == std::string::npos || p + 2 > line.size() ? std::string() : line.substr(p + 2);
}
// What a trace says happened: one string per event, in order.  Backtracking notes are dropped, and
// so are productions that were cancelled before anything happened inside of them.
inline std::vector<std::string> trace_events(const std::string& text, std::string& bad)
{
    struct Frame
    {
        bool   prod;
        size_t start; // index into out
        std::string name;
    };
    std::vector<std::string> out;
    std::vector<Frame>       stack;
    size_t                   i = 0;
    bool                     first = true;
    while (i < text.size())
    {
        auto nl   = text.find('\n', i);
        auto line = text.substr(i, nl - i);
        i         = nl == std::string::npos ? text.size() : nl + 1;
        unsigned l, col;
        if (sscanf(line.c_str(), "%u:%u:", &l, &col) != 2)
        {
            bad = "unexpected trace line: " + line;
            return out;
        }
        auto pos  = std::to_string(l) + ":" + std::to_string(col);
        auto rest = after_loc(line);
        if (first)
        {
            first = false;
            if (rest.empty() || rest.back() != ':')
            {
                bad = "no root production: " + line;
                return out;
            }
            rest.pop_back();
            out.push_back("S " + rest + "@" + pos);
            stack.push_back({true, 0, rest});
            continue;
        }
        if (stack.empty())
        {
            bad = "events after the end: " + line;
            return out;
        }
        auto indent = std::string(2 * (stack.size() - 1), ' ');
        if (rest.compare(0, indent.size(), indent) != 0 || rest.size() <= indent.size()
            || rest[indent.size()] != '-')
        {
            bad = "wrong indentation: " + line;
            return out;
        }
        rest = rest.substr(indent.size() + 1);
        if (rest == "x" || rest == " finish" || rest == " - finish" || rest == "- finish")
        {
            auto f = stack.back();
            stack.pop_back();
            if (f.prod)
            {
                if (rest == "x" && out.size() == f.start + 1 && !stack.empty())
                    out.pop_back(); // cancelled branch
                else
                    out.push_back((rest == "x" ? "C " : "F ") + f.name + "@" + pos);
            }
            continue;
        }
        if (rest[0] == ' ')
            rest = rest.substr(1);
        if (rest == "error recovery:")
        {
            stack.push_back({false, out.size(), ""});
            continue;
        }
        if (rest.compare(0, 13, "backtracked: ") == 0)
            continue;
        if (rest.back() == ':' && rest.find(": ") == std::string::npos)
        {
            rest.pop_back();
            stack.push_back({true, out.size(), rest});
            out.push_back("S " + rest + "@" + pos);
            continue;
        }
        if (rest.compare(0, 7, "error: ") == 0)
        {
            out.push_back("E " + rest.substr(7) + "@" + pos);
            continue;
        }
        auto colon = rest.find(": ");
        if (colon == std::string::npos)
            out.push_back("T " + rest + " ''@" + pos);
        else
            out.push_back("T " + rest.substr(0, colon) + " '" + rest.substr(colon + 2) + "'@" + pos);
    }
    if (!stack.empty())
        bad = "trace ends inside a production";
    return out;
}
inline std::string loc_of(const std::vector<uint32_t>& in, int p)
{
    int l = 1, c = 1;
    for (int i = 0; i < p; ++i)
        if (in[i] == '\n')
            ++l, c = 1;
        else
            ++c;
    return std::to_string(l) + ":" + std::to_string(c);
}
inline std::vector<std::string> model_events(const model::Outcome&        m,
                                             const std::vector<uint32_t>& in)
{
    std::vector<std::string> out;
    std::vector<size_t>      starts;
    for (auto& e : m.evs)
        switch (e.type)
        {
        case 'S':
            starts.push_back(out.size());
            out.push_back("S " + e.name + "@" + loc_of(in, e.b));
            break;
        case 'F':
            starts.pop_back();
            out.push_back("F " + e.name + "@" + loc_of(in, e.b));
            break;
        case 'C': {
            auto st = starts.back();
            starts.pop_back();
            if (out.size() == st + 1 && !starts.empty())
                out.pop_back();
            else
                out.push_back("C " + e.name + "@" + loc_of(in, e.b));
            break;
        }
        case 'E': {
            auto w = e.name;
            if (w.compare(0, 12, "expected cc ") == 0)
                w = "expected " + w.substr(12);
            else if (w.compare(0, 10, "expected '") == 0)
                w = w.substr(0, w.rfind('#'));
            out.push_back("E " + w + "@" + loc_of(in, e.b));
            break;
        }
        default: {
            std::string t;
            for (int i = e.b; i < e.e; ++i)
                if (in[i] == '\n')
                    t += "\\n";
                else if (in[i] == ' ')
                    t += "_";
                else
                    t += char(in[i]);
            out.push_back("T " + e.name + " '" + t + "'@" + loc_of(in, e.b));
        }
        }
    return out;
}
// The trace limited to depth 1 is the full one without everything below the direct children.
inline std::string cut_trace(const std::string& text)
{
    std::string out;
    size_t      i = 0;
    while (i < text.size())
    {
        auto nl   = text.find('\n', i);
        auto line = text.substr(i, nl - i);
        i         = nl + 1;
        auto rest = after_loc(line);
        if (!rest.empty() && rest[0] == ' ')
            continue;
        if (rest.size() > 2 && rest[0] == '-' && rest.back() == ':')
            line += " ...";
        out += line + "\n";
    }
    return out;
}

// Compare one execution with the model.
inline void compare(const model::Outcome& m, const Result& r, int wants,
                    const std::vector<uint32_t>& in)
{
    int status = m.errs.empty() ? (m.result ? 0 : 7) : m.result ? 1 : 2;
    for (int i = 0; i < 5; ++i)
        if ((wants & (1 << i)) && r.log[i] != m.log)
            return vh::fail("side effects of action " + std::to_string(i) + ": expected " + m.log + " actual " + r.log[i]);
    if (wants & W_MATCH)
    {
        vh::traces(1);
        if (r.match != (m.result && m.errs.empty()))
            return vh::fail(std::string("match: expected ") + (r.match ? "false" : "true"));
    }
    auto acts = [&](const char* name, int st, const std::vector<std::string>& es) {
        vh::traces(1);
        if (es != m.errs)
        {
            vh::fail(std::string(name) + " errors: expected " + join(m.errs) + " actual "
                     + join(es));
            return false;
        }
        if (st != status)
        {
            vh::fail(std::string(name) + " status: expected " + std::to_string(status) + " actual "
                     + std::to_string(st));
            return false;
        }
        return true;
    };
    if (wants & W_VALIDATE)
        if (!acts("validate", r.vstatus, r.verrs))
            return;
    if (wants & W_PARSE)
    {
        if (!acts("parse", r.pstatus, r.perrs))
            return;
        if (r.has_value != m.result)
            return vh::fail("parse has_value: actual " + std::to_string(r.has_value));
        if (m.result && r.value != m.value)
            return vh::fail("parse value: expected " + m.value + " actual " + r.value);
    }
    if (wants & W_TREE)
    {
        if (!acts("parse_as_tree", r.tstatus, r.terrs))
            return;
        if (!r.tree_bad.empty())
            return vh::fail("tree malformed: " + r.tree_bad + " tree: " + r.tree);
        auto expected = m.result ? m.tree : std::string("<empty>");
        if (r.tree != expected)
            return vh::fail("tree: expected " + expected + " actual " + r.tree);
    }
    if (wants & W_TRACE)
    {
        vh::traces(1);
        std::string bad;
        auto        ev  = trace_events(r.trace, bad);
        auto        exp = model_events(m, in);
        if (!bad.empty())
            return vh::fail("trace malformed: " + bad + " in\n" + r.trace);
        if (ev != exp)
            return vh::fail("trace: expected " + join(exp) + " actual " + join(ev));
        if (cut_trace(r.trace) != r.trace1)
            return vh::fail("trace limited to depth 1: expected " + cut_trace(r.trace) + " actual "
                            + r.trace1);
        if (r.counted != m.errs.size())
            return vh::fail("counted errors: " + std::to_string(r.counted));
    }
}

#ifdef ENG_REPORT
inline void compare_report(const model::Outcome& m, const Result& r, const std::vector<uint32_t>& in)
{
    std::string want[3] = {model_report(m.errs, in, viz::opt(0), nullptr), model_report(m.errs, in, viz::opt(7), "file"),
                           model_report(m.errs, in, viz::opt(5), nullptr)};
    for (int i = 0; i < 3; ++i)
    {
        vh::traces(1);
        if (r.reported[i] != m.errs.size())
            return vh::fail("number of reported errors: expected " + std::to_string(m.errs.size()) + " actual "
                            + std::to_string(r.reported[i]));
        if (r.report[i] != want[i])
            return vh::fail("report: expected " + viz::q(want[i]) + " actual " + viz::q(r.report[i]));
    }
}
#endif

// Every string over the alphabet up to maxlen, shortest first.
template <typename F>
void all_strings(const std::string& alphabet, int maxlen, F&& f)
{
    std::string s;
    for (int len = 0; len <= maxlen; ++len)
    {
        std::vector<int> d(len, 0);
        s.assign(len, alphabet[0]);
        while (true)
        {
            f(s);
            int i = len - 1;
            while (i >= 0 && d[i] == int(alphabet.size()) - 1)
            {
                d[i] = 0;
                s[i] = alphabet[0];
                --i;
            }
            if (i < 0)
                break;
            s[i] = alphabet[++d[i]];
        }
    }
}

inline void run_registry(int extra_len)
{
    static vh::Guard guard(1 << 16);
    for (auto& g : registry())
    {
        auto max = g.maxlen + extra_len;
        // one case per (grammar, first-two-characters block) keeps cases fine enough to shard
        auto one = [&](const std::string& s) {
            vh::step([&] { return std::string(g.text) + " on " + show_input(s); },
                     [&] {
                         auto p = guard.tail<char>(s.size());
                         memcpy(p, s.data(), s.size());
                         std::vector<uint32_t> in(s.begin(), s.end());
                         auto                  m = model::run(*g.prod, in);
                         vh::transitions(m.steps);
                         Result r;
                         g.run(r, p, p + s.size());
                         compare(m, r, g.wants, in);
#ifdef ENG_REPORT
                         if (g.wants & W_REPORT)
                             compare_report(m, r, in);
#endif
                         vh::outcome(std::string(g.text) + join(m.errs) + m.value + m.tree);
                     });
        };
        all_strings(g.alphabet, max, one);
        for (auto& s : g.extra)
            one(s);
    }
}
} // namespace eng
#endif
