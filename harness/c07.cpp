// C07: the parse tree builder under every history of operations.
// Explicit-state exploration of operation sequences of lexy::parse_tree::builder, started at every
// fill level of the node storage, against a model that keeps nested lists of nodes; and of histories
// of whole trees (build, rebuild into an old tree, move, clear, destroy) with a memory ledger and a
// failure of every allocation.
#include "parts.hpp"
#include "treeview.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <utility>

namespace
{
namespace dsl = lexy::dsl;
//=== memory resource with a ledger ===//
struct Res
{
    std::map<void*, std::size_t> live;
    long                         count = 0, fail_at = -1;
    bool                         bad   = false;
    void* allocate(std::size_t n, std::size_t align)
    {
        if (count++ == fail_at)
            throw std::bad_alloc();
        auto p = ::operator new(n, std::align_val_t(align));
        std::memset(p, 0xA5, n);
        live[p] = n;
        return p;
    }
    void deallocate(void* p, std::size_t n, std::size_t align) noexcept
    {
        auto it = live.find(p);
        if (it == live.end() || it->second != n)
        {
            bad = true;
            return;
        }
        live.erase(it);
        std::memset(p, 0xA5, n);
        ::operator delete(p, std::align_val_t(align));
    }
    friend bool operator==(const Res& a, const Res& b)
    {
        return &a == &b;
    }
};
// an iterator that is not random access: tokens store their end
struct FwdIt
{
    using value_type        = char;
    using difference_type   = std::ptrdiff_t;
    using reference         = char;
    using pointer           = const char*;
    using iterator_category = std::forward_iterator_tag;
    const char* p           = nullptr;
    char        operator*() const
    {
        return *p;
    }
    FwdIt& operator++()
    {
        ++p;
        return *this;
    }
    FwdIt operator++(int)
    {
        auto c = *this;
        ++p;
        return c;
    }
    friend bool operator==(FwdIt a, FwdIt b)
    {
        return a.p == b.p;
    }
    friend bool operator!=(FwdIt a, FwdIt b)
    {
        return a.p != b.p;
    }
};
using PtrInput = lexy::string_input<lexy::utf8_char_encoding>;
using FwdInput = lexy::range_input<lexy::utf8_char_encoding, FwdIt>;
enum class tk
{
    first,
    second = 7,
};
inline const char* token_kind_name(tk k)
{
    return k == tk::first ? "first" : "second";
}

struct Root
{
    static constexpr auto name = "Root";
    static constexpr auto rule = dsl::any;
};
struct Pn
{
    static constexpr auto name = "Pn";
    static constexpr auto rule = dsl::any;
};
struct Pt : lexy::token_production
{
    static constexpr auto name = "Pt";
    static constexpr auto rule = dsl::any;
};
struct Px : lexy::transparent_production
{
    static constexpr auto name = "Px";
    static constexpr auto rule = dsl::any;
};
inline const std::string& text()
{
    static std::string s(600000, 'x');
    return s;
}
template <typename It>
It at(std::size_t i)
{
    return It{text().data() + i};
}
inline std::size_t ix(const char* p)
{
    return std::size_t(p - text().data());
}
inline std::size_t ix(FwdIt p)
{
    return ix(p.p);
}

//=== model ===//
struct MNode
{
    char               kind; // R root, P production, K token production; tokens: T E O (position) 1 2
    std::size_t        b = 0, e = 0;
    std::vector<MNode> kids;
};
inline std::size_t mcount(const MNode& n)
{
    std::size_t r = 1;
    for (auto& k : n.kids)
        r += mcount(k);
    return r;
}
inline std::size_t mdepth(const MNode& n)
{
    std::size_t r = 0;
    for (auto& k : n.kids)
        r = std::max(r, 1 + mdepth(k));
    return r;
}
inline bool is_tok(char k)
{
    return k == 'T' || k == 'E' || k == 'O' || k == '1' || k == '2';
}
struct Frame
{
    char               type; // R, P, K, X (transparent), S (container)
    std::vector<MNode> kids;
    std::vector<MNode> saved; // X: what was there before
    std::size_t        pos = 0; // where it started; a cancelled one is read again
};
// operations:
//  T token  E error token  t ignored empty token  O empty position token  1/2 user tokens
//  P/K/X start production (normal, token, transparent)  F finish  C cancel
//  S start container  Q/q set production (normal, token)  Z set transparent production
//  f finish container  c cancel container
//  B 180 tokens (more than a block)  L 400 tokens  W token of 65540 units  w error token of as many
constexpr std::size_t wide = 65540;
struct Model
{
    std::vector<Frame> st;
    std::size_t        pos = 0;
    Model() : st{{'R', {}, {}, 0}} {}
    // the list that new nodes go to
    Frame& list()
    {
        std::size_t i = st.size() - 1;
        while (st[i].type == 'X')
            --i;
        return st[i];
    }
    bool legal(char op)
    {
        switch (op)
        {
        case 'F':
        case 'C':
            return st.back().type == 'P' || st.back().type == 'K' || st.back().type == 'X';
        case 'Q':
        case 'q':
        case 'Z':
        case 'f':
        case 'c':
            return st.back().type == 'S';
        default:
            return true;
        }
    }
    void apply(char op)
    {
        switch (op)
        {
        case 'T':
        case '1':
        case '2':
            list().kids.push_back({op, pos, pos + 1, {}});
            ++pos;
            break;
        case 'O':
            list().kids.push_back({op, pos, pos, {}});
            break;
        case 't':
            break;
        case 'E':
            if (!list().kids.empty() && list().kids.back().kind == 'E')
                list().kids.back().e = pos + 1;
            else
                list().kids.push_back({op, pos, pos + 1, {}});
            ++pos;
            break;
        case 'P':
        case 'K':
        case 'S':
            st.push_back({op, {}, {}, pos});
            break;
        case 'X': {
            auto saved = list().kids;
            st.push_back({op, {}, std::move(saved), pos});
            break;
        }
        case 'F': {
            auto f = std::move(st.back());
            st.pop_back();
            if (f.type != 'X')
                list().kids.push_back({f.type, 0, 0, std::move(f.kids)});
            break;
        }
        case 'C': {
            auto f = std::move(st.back());
            st.pop_back();
            if (f.type == 'X')
                list().kids = std::move(f.saved);
            pos = f.pos;
            break;
        }
        case 'Q':
        case 'q': {
            auto kids = std::move(st.back().kids);
            st.back().kids.clear();
            st.back().kids.push_back({op == 'Q' ? 'P' : 'K', 0, 0, std::move(kids)});
            break;
        }
        case 'Z':
            break;
        case 'f': {
            auto f = std::move(st.back());
            st.pop_back();
            for (auto& k : f.kids)
                list().kids.push_back(std::move(k));
            break;
        }
        case 'c':
            pos = st.back().pos;
            st.pop_back();
            break;
        case 'W':
            list().kids.push_back({'T', pos, pos + wide, {}});
            pos += wide;
            break;
        case 'w':
            apply('E');
            list().kids.back().e = pos = pos + wide - 1;
            break;
        case 'B':
            for (int i = 0; i < 180; ++i)
                apply('T');
            break;
        case 'L':
            for (int i = 0; i < 400; ++i)
                apply('T');
            break;
        }
    }
    MNode finish()
    {
        while (st.size() > 1)
            apply(st.back().type == 'S' ? 'f' : 'F');
        return {'R', 0, 0, std::move(st[0].kids)};
    }
};

//=== the real builder ===//
template <typename T>
struct kind_of;
template <typename R, typename K, typename M>
struct kind_of<lexy::parse_tree<R, K, M>>
{
    using type = K;
};
template <typename Tree, typename It>
struct Real
{
    static constexpr bool custom = std::is_same_v<typename kind_of<Tree>::type, tk>;
    using builder = typename Tree::builder;
    using marker  = typename builder::marker;
    std::unique_ptr<builder>             b;
    struct Open
    {
        char        first;
        std::size_t pos;
        marker      second;
    };
    std::vector<Open> st;
    std::size_t                          pos = 0;

    explicit Real(Tree&& t) : b(new builder(std::move(t), lexy::production_info(Root{}))) {}
    template <typename K>
    void tok(K k, std::size_t n)
    {
        b->token(k, at<It>(pos), at<It>(pos + n));
        pos += n;
    }
    static lexy::production_info info(char op)
    {
        return op == 'P' || op == 'Q'   ? lexy::production_info(Pn{})
               : op == 'K' || op == 'q' ? lexy::production_info(Pt{})
                                        : lexy::production_info(Px{});
    }
    void apply(char op)
    {
        switch (op)
        {
        case 'T':
            tok(lexy::literal_token_kind, 1);
            break;
        case 'W':
            tok(lexy::literal_token_kind, wide);
            break;
        case 'w':
            tok(lexy::error_token_kind, wide);
            break;
        case '1':
            if constexpr (custom)
                tok(tk::first, 1);
            break;
        case '2':
            if constexpr (custom)
                tok(tk::second, 1);
            break;
        case 'O':
            tok(lexy::position_token_kind, 0);
            break;
        case 't':
            tok(lexy::whitespace_token_kind, 0);
            break;
        case 'E':
            tok(lexy::error_token_kind, 1);
            break;
        case 'P':
        case 'K':
        case 'X':
            st.push_back({op, pos, b->start_production(info(op))});
            break;
        case 'S':
            st.push_back({op, pos, b->start_container()});
            break;
        case 'F':
            b->finish_production(std::move(st.back().second));
            st.pop_back();
            break;
        case 'C':
            b->cancel_production(std::move(st.back().second));
            pos = st.back().pos;
            st.pop_back();
            break;
        case 'Q':
        case 'q':
        case 'Z':
            b->set_container_production(info(op));
            break;
        case 'f':
            b->finish_container(std::move(st.back().second));
            st.pop_back();
            break;
        case 'c':
            b->cancel_container(std::move(st.back().second));
            pos = st.back().pos;
            st.pop_back();
            break;
        case 'B':
            for (int i = 0; i < 180; ++i)
                apply('T');
            break;
        case 'L':
            for (int i = 0; i < 400; ++i)
                apply('T');
            break;
        }
    }
};
template <typename Reader, typename Tree, typename It>
Tree finish_real(Real<Tree, It>& r)
{
    while (!r.st.empty())
        r.apply(r.st.back().first == 'S' ? 'f' : 'F');
    return std::move(*r.b).finish(lexy::lexeme<Reader>(at<It>(r.pos), at<It>(r.pos + 3)));
}

inline std::string mdump(const MNode& n)
{
    std::string r(1, n.kind);
    if (is_tok(n.kind))
        return r + std::to_string(n.b) + "-" + std::to_string(n.e);
    r += "{";
    for (auto& k : n.kids)
        r += mdump(k) + " ";
    return r + "}";
}
template <typename Node>
std::string compare(const MNode& m, Node n)
{
    auto kind = n.kind();
    if (is_tok(m.kind))
    {
        const char* name = m.kind == 'T'   ? "literal"
                           : m.kind == 'E' ? "error token"
                           : m.kind == 'O' ? "position"
                           : m.kind == '1' ? "first"
                                           : "second";
        if (!kind.is_token())
            return std::string("expected token ") + m.kind + ", got " + kind.name();
        if (std::string(kind.name()) != name)
            return std::string("expected token ") + name + ", got " + kind.name();
        auto l = n.lexeme();
        if (ix(l.begin()) != m.b || ix(l.end()) != m.e)
            return "token " + mdump(m) + " covers " + std::to_string(ix(l.begin())) + "-" + std::to_string(ix(l.end()));
        return "";
    }
    const char* name = m.kind == 'R' ? "Root" : m.kind == 'P' ? "Pn" : "Pt";
    if (!kind.is_production() || std::string(kind.name()) != name)
        return std::string("expected production ") + name + ", got " + kind.name();
    if (kind.is_token_production() != (m.kind == 'K'))
        return "is_token_production() wrong";
    auto kids = n.children();
    if (kids.size() != m.kids.size())
        return std::string(name) + " has " + std::to_string(kids.size()) + " children, expected " + std::to_string(m.kids.size());
    std::size_t i = 0;
    for (auto c : kids)
    {
        if (i >= m.kids.size())
            return std::string(name) + " has too many children";
        auto p = compare(m.kids[i++], c);
        if (!p.empty())
            return p;
    }
    return i == m.kids.size() ? "" : std::string(name) + " has too few children";
}
template <typename Tree>
std::string compare_tree(const MNode& m, std::size_t pos, const Tree& t, std::size_t detail)
{
    if (t.empty())
        return "the tree is empty";
    auto p = compare(m, t.root());
    if (!p.empty())
        return p;
    if (t.size() != mcount(m))
        return "size() is " + std::to_string(t.size()) + ", expected " + std::to_string(mcount(m));
    if (t.depth() != mdepth(m))
        return "depth() is " + std::to_string(t.depth()) + ", expected " + std::to_string(mdepth(m));
    if (ix(t.remaining_input().begin()) != pos || ix(t.remaining_input().end()) != pos + 3)
        return "remaining input changed";
    return tv::check_views(t, t.remaining_input().begin(), true, detail);
}

//=== all operation sequences after a prefix ===//
template <typename Input, typename Kind>
struct Explore
{
    using Reader = lexy::input_reader<Input>;
    using It     = typename Reader::iterator;
    using Tree   = lexy::parse_tree<Reader, Kind, Res>;

    static void run_one(const std::string& ops, const std::string& before)
    {
        Res r;
        {
            Tree tree(&r);
            if (!before.empty())
            {
                // a tree that has been used before
                Model m0;
                Real<Tree, It> b0(std::move(tree));
                for (char c : before)
                {
                    m0.apply(c);
                    b0.apply(c);
                }
                tree = finish_real<Reader>(b0);
                auto p = compare_tree(m0.finish(), b0.pos, tree, 10);
                if (!p.empty())
                {
                    vh::fail("first tree: " + p);
                    return;
                }
            }
            Model          m;
            Real<Tree, It> b(std::move(tree));
            for (char c : ops)
            {
                m.apply(c);
                b.apply(c);
                if (b.b->current_child_count() != m.list().kids.size())
                {
                    vh::fail("current_child_count() is " + std::to_string(b.b->current_child_count())
                             + ", expected " + std::to_string(m.list().kids.size()));
                    return;
                }
            }
            Tree t(finish_real<Reader>(b));
            auto mt = m.finish();
            auto p  = compare_tree(mt, m.pos, t, 100);
            if (!p.empty())
            {
                auto d = mdump(mt);
                vh::fail(p + "; expected tree " + (d.size() > 600 ? "..." + d.substr(d.size() - 600) : d));
            }
            vh::outcome(mdump(mt));
        }
        if (r.bad || !r.live.empty())
            vh::fail(r.bad ? "memory returned that was not handed out" : "memory not returned");
        vh::transitions(ops.size());
        vh::traces(1);
    }
    static void dfs(const std::string& prefix, std::string& ops, Model m, const std::string& alphabet, int left,
                    const std::string& before)
    {
        vh::step([&] { return "builder operations " + prefix.substr(0, 3) + "*" + std::to_string(prefix.size()) + " "
                              + prefix.substr(prefix.find_last_not_of('T') == std::string::npos ? prefix.size() : prefix.find_last_not_of('T'))
                              + " then " + ops + (before.empty() ? "" : " on a used tree"); },
                 [&] { run_one(prefix + ops, before); });
        if (left == 0)
            return;
        for (char c : alphabet)
        {
            if (!m.legal(c))
                continue;
            auto m2 = m;
            m2.apply(c);
            ops.push_back(c);
            dfs(prefix, ops, m2, alphabet, left - 1, before);
            ops.pop_back();
        }
    }
    static void from(const std::string& prefix, const std::string& alphabet, int depth, const std::string& before = "")
    {
        Model m;
        // the legality of operations depends on open frames only
        for (char c : prefix)
            if (c != 'T')
                m.apply(c);
        std::string ops;
        dfs(prefix, ops, m, alphabet, depth, before);
    }
};
const char all_ops[]  = "TEtO12PKXFCSQqZfc";
const char core_ops[] = "TEPXFCSQfc";
const char mini_ops[] = "TPFCSQfc";

template <typename Input, typename Kind>
void plain(int)
{
    using E = Explore<Input, Kind>;
    E::from("", core_ops, vh::thorough() ? 8 : 6);
    E::from("", mini_ops, vh::thorough() ? 10 : 8);
}
template <typename Input>
void plain_all(int)
{
    using E = Explore<Input, tk>;
    E::from("", all_ops, vh::thorough() ? 6 : 5);
    E::from("S", all_ops, vh::thorough() ? 6 : 4);
}
// at every fill level near the end of a block
template <typename Input>
void levels(int lo, int hi)
{
    using E = Explore<Input, void>;
    for (int n = lo; n <= hi; ++n)
    {
        std::string t(std::size_t(n), 'T');
        for (auto shift : {"", "PSfF", "PSfFPSfF"}) // 8 byte steps
            E::from(shift + t, core_ops, vh::thorough() ? 5 : 4);
        // the fill happens inside of an open production or container
        for (auto open : {"P", "S", "X", "PS", "SP"})
            E::from(open + t, core_ops, vh::thorough() ? 4 : 3);
        // two blocks
        E::from(t + std::string(170, 'T'), core_ops, vh::thorough() ? 4 : 3);
        E::from("", mini_ops, 1, t); // reuse
        E::from(t, core_ops, 3, std::string(std::size_t(n), 'T'));
        E::from(t, core_ops, 3, "L");
    }
}
template <typename Input>
void macros(int)
{
    using E = Explore<Input, void>;
    E::from("", "TBPFCSQfc", vh::thorough() ? 7 : 5);
    E::from("", "BLPXFCSQfc", vh::thorough() ? 5 : 4);
    E::from("", "WwTEPXFSQ", vh::thorough() ? 5 : 4);
    E::from("", "TBPFCSQfc", vh::thorough() ? 5 : 4, "L");
    E::from("", "TBPFCSQfc", 4, "B");
    E::from("", "TBPFCSQfc", 3, "LL");
    // deep nesting
    for (int n : {1, 2, 50, 160, 169, 170, 171, 172, 300, 1000})
        for (auto u : {"P", "TP", "PT", "SP", "S", "SQ", "PX", "TSTQ"})
        {
            std::string p;
            for (int i = 0; i < n; ++i)
                p += u;
            E::from(p, "TFfCc", 3);
        }
}

//=== histories of trees ===//
struct GItem
{
    static constexpr auto name = "GItem";
    static constexpr auto rule = LEXY_LIT("x") >> dsl::opt(LEXY_LIT("y"));
};
struct GList
{
    static constexpr auto name = "GList";
    static constexpr auto rule = dsl::list(dsl::p<GItem>);
};
template <typename Input, typename Kind>
struct Trees
{
    using Reader = lexy::input_reader<Input>;
    using It     = typename Reader::iterator;
    using Tree   = lexy::parse_tree<Reader, Kind, Res>;
    struct Slot
    {
        std::unique_ptr<Tree> t;
        bool                  known = false; // whether the content is determined (not moved from)
        bool                  full  = false;
        MNode                 m{};
        std::size_t           pos = 0;
    };
    // 0 small, 1 two blocks, 2 five blocks, 3 with cancellations over blocks
    static std::string recipe(int k)
    {
        switch (k)
        {
        case 0:
            return "TPTF";
        case 1:
            return "PBFST Qf";
        case 2:
            return "LPLTFT";
        default:
            return "TPBTCSBcPBF";
        }
    }
    static constexpr int n_ops = 17;
    static std::string   name(int op)
    {
        static const char* n[] = {"new0",      "new1",   "build0 small", "build0 medium",    "build0 large",
                                  "build0 cancel", "build1 small", "build1 large", "0=move(1)", "1=move(0)",
                                  "clear0",    "clear1", "0 via move ctor", "destroy0",       "destroy1",
                                  "abandon builder on 0", "0=new tree of other resource"};
        return n[op];
    }
    static void build(Slot& s, int k)
    {
        auto  ops = recipe(k);
        Model m;
        // the slot is given up first: after a failed allocation it is moved from
        s.known = false;
        Real<Tree, It> b(std::move(*s.t));
        for (char c : ops)
        {
            if (c == ' ')
                continue;
            m.apply(c);
            b.apply(c);
        }
        s.m = m.finish();
        *s.t = finish_real<Reader>(b);
        s.pos   = m.pos;
        s.known = s.full = true;
    }
    static void apply(Slot* s, int op, Res* r)
    {
        switch (op)
        {
        case 0:
        case 1:
            s[op].t.reset(new Tree(&r[op]));
            s[op].known = true;
            s[op].full  = false;
            break;
        case 2:
        case 3:
        case 4:
        case 5:
            build(s[0], op - 2);
            break;
        case 6:
            build(s[1], 0);
            break;
        case 7:
            build(s[1], 2);
            break;
        case 8:
        case 9: {
            auto& d = s[op - 8];
            auto& o = s[9 - op];
            *d.t    = std::move(*o.t);
            d.known = o.known;
            d.full  = o.full;
            d.m     = o.m;
            d.pos   = o.pos;
            o.known = false;
            break;
        }
        case 10:
        case 11: {
            auto& d = s[op - 10];
            d.t->clear();
            d.known = true;
            d.full  = false;
            break;
        }
        case 12: {
            std::unique_ptr<Tree> n(new Tree(std::move(*s[0].t)));
            s[0].t = std::move(n);
            break;
        }
        case 13:
        case 14:
            s[op - 13].t.reset();
            break;
        case 15: {
            s[0].known = false;
            Real<Tree, It> b(std::move(*s[0].t));
            for (char c : std::string("PTBSPT"))
                b.apply(c);
            break;
        }
        case 16: {
            s[0].known = false;
            *s[0].t    = Tree(&r[2]);
            s[0].known = true;
            s[0].full  = false;
            break;
        }
        }
    }
    static bool legal(const Slot* s, int op)
    {
        bool a = bool(s[0].t), b = bool(s[1].t);
        switch (op)
        {
        case 0:
            return !a;
        case 1:
            return !b;
        case 6:
        case 7:
        case 11:
        case 14:
            return b;
        case 8:
        case 9:
            return a && b;
        default:
            return a;
        }
    }
    static std::string check(const Slot& s)
    {
        if (!s.t || !s.known)
            return "";
        if (!s.full)
            return s.t->empty() ? tv::check_views(*s.t, It(), false) : "a tree that should be empty is not";
        return compare_tree(s.m, s.pos, *s.t, 10);
    }
    static std::string run(const std::vector<int>& ops, long fail_at, long* allocations)
    {
        Res         r[3];
        std::string bad;
        {
            Slot s[2];
            // the ledgers share the count of allocations
            long done = 0;
            for (std::size_t i = 0; i < ops.size() && bad.empty(); ++i)
            {
                if (!legal(s, ops[i]))
                    break;
                for (auto& x : r)
                {
                    x.count   = done;
                    x.fail_at = fail_at;
                }
                try
                {
                    apply(s, ops[i], r);
                }
                catch (std::bad_alloc&)
                {
                    if (fail_at < 0)
                        bad = "unexpected exception";
                }
                long d = done;
                for (auto& x : r)
                    d += x.count - done;
                done = d;
                for (auto& x : s)
                    if (bad.empty())
                    {
                        bad = check(x);
                        if (!bad.empty())
                            bad += " after operation " + std::to_string(i) + " in slot " + std::to_string(&x - s);
                    }
                vh::transitions(1);
            }
            if (allocations)
                *allocations = done;
        }
        for (auto& x : r)
            if (bad.empty() && (x.bad || !x.live.empty()))
                bad = x.bad ? "memory returned to the wrong resource or twice" : "memory not returned";
        vh::traces(1);
        return bad;
    }
    static void dfs(std::vector<int>& ops, int left)
    {
        // replay to find out what is legal
        bool a = false, b = false;
        for (int o : ops)
        {
            if (o == 0)
                a = true;
            if (o == 1)
                b = true;
            if (o == 13)
                a = false;
            if (o == 14)
                b = false;
        }
        if (!ops.empty())
            vh::step(
                [&] {
                    std::string d = "tree history:";
                    for (int o : ops)
                        d += " [" + name(o) + "]";
                    return d;
                },
                [&] {
                    long n = 0;
                    auto p = run(ops, -1, &n);
                    vh::outcome(vh::hash(p + std::to_string(n), ops.size() * 31 + std::size_t(ops.back())));
                    if (!p.empty())
                    {
                        vh::fail(p);
                        return;
                    }
                    // every allocation fails once; clear() is noexcept and must not be asked to fail
                    bool clears = false;
                    for (int o : ops)
                        clears |= o == 10 || o == 11;
                    if (!clears)
                        for (long i = 0; i < n; ++i)
                        {
                            p = run(ops, i, nullptr);
                            if (!p.empty())
                            {
                                vh::fail("allocation " + std::to_string(i) + " fails: " + p);
                                return;
                            }
                        }
                });
        if (left == 0)
            return;
        for (int o = 0; o < n_ops; ++o)
        {
            Slot dummy[2];
            bool ok = true;
            switch (o)
            {
            case 0:
                ok = !a;
                break;
            case 1:
                ok = !b;
                break;
            case 6:
            case 7:
            case 11:
            case 14:
                ok = b;
                break;
            case 8:
            case 9:
                ok = a && b;
                break;
            default:
                ok = a;
            }
            if (!ok)
                continue;
            ops.push_back(o);
            dfs(ops, left - 1);
            ops.pop_back();
        }
    }
    static void all(int depth)
    {
        std::vector<int> ops{0, 1};
        dfs(ops, depth);
    }
};
//=== parse_as_tree reuses a tree ===//
template <int>
void reparse(int)
{
    for (int i = 0; i < 40; ++i)
        for (int j = 0; j < 40; ++j)
            vh::step([&] { return "parse " + std::to_string(i * 13) + " items, then " + std::to_string(j * 17) + " into the same tree"; },
                     [&] {
                         Res r;
                         {
                             using Tree = lexy::parse_tree_for<PtrInput, void, Res>;
                             Tree t(&r);
                             for (int k : {i * 13, j * 17, 3, i * 13})
                             {
                                 std::string s;
                                 for (int n = 0; n < k; ++n)
                                     s += n % 3 == 1 ? "xy" : "x";
                                 PtrInput in(s.data(), s.size());
                                 auto     res = lexy::parse_as_tree<GList>(t, in, lexy::noop);
                                 if (k == 0)
                                 {
                                     if (res.is_success() || !t.empty())
                                         vh::fail("an empty list was accepted or left a tree");
                                     continue;
                                 }
                                 if (!res.is_success() || t.empty())
                                 {
                                     vh::fail("parsing failed");
                                     return;
                                 }
                                 std::size_t n = 0, pos = 0;
                                 for (auto item : t.root().children())
                                 {
                                     auto c = item.children();
                                     if (c.size() != (n % 3 == 1 ? 2u : 1u))
                                         vh::fail("wrong item " + std::to_string(n));
                                     for (auto tok : c)
                                     {
                                         if (tok.lexeme().begin() != s.data() + pos || tok.lexeme().size() != 1)
                                             vh::fail("wrong token at " + std::to_string(pos));
                                         ++pos;
                                     }
                                     ++n;
                                 }
                                 if (n != std::size_t(k) || pos != s.size()
                                     || t.size() != 1 + n + pos || t.depth() != 2)
                                     vh::fail("wrong number of nodes");
                             }
                         }
                         if (r.bad || !r.live.empty())
                             vh::fail("memory not returned");
                         vh::traces(4);
                         vh::transitions(std::uint64_t(i * 13 + j * 17));
                     });
}
} // namespace
namespace lexy
{
template <>
constexpr inline auto token_kind_map_for<tk> = lexy::token_kind_map;
}
static int i0 = parts::add<0>([](auto) { plain<PtrInput, void>(0); });
static int i1 = parts::add<1>([](auto) { plain_all<PtrInput>(0); });
static int i2 = parts::add<2>([](auto) { plain_all<FwdInput>(0); });
static int i3 = parts::add<3>([](auto) { macros<PtrInput>(0); });
static int i4 = parts::add<4>([](auto) { macros<FwdInput>(0); });
static int i5 = parts::add<5>([](auto) { levels<PtrInput>(164, 171); });
static int i6 = parts::add<6>([](auto) { levels<FwdInput>(122, 128); });
static int i7 = parts::add<7>([](auto) { Trees<PtrInput, void>::all(vh::thorough() ? 4 : 3); });
static int i8 = parts::add<8>([](auto) { Trees<FwdInput, tk>::all(vh::thorough() ? 4 : 3); });
static int i9 = parts::add<9>([](auto x) { reparse<int(sizeof x) * 0>(0); });
PARTS_MAIN
