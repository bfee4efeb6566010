// C06, second part: custom token kinds, other inputs and iterators, expression productions, long
// inputs.  Every tree is compared node by node with what the text says, on all strings.
#include "parts.hpp"
#include "treeview.hpp"
#include "uenc.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <forward_list>
#include <list>

namespace
{
namespace dsl = lexy::dsl;
enum class tk : short
{
    a,
    b,
    num  = 40,
    semi = 200,
    last = 250,
};
inline const char* token_kind_name(tk k)
{
    switch (k)
    {
    case tk::a:
        return "K-a";
    case tk::b:
        return "K-b";
    case tk::num:
        return "K-num";
    case tk::semi:
        return "K-semi";
    case tk::last:
        return "K-last";
    }
    return "?";
}
constexpr auto num = dsl::digits<>;
constexpr auto bb  = LEXY_LIT("bb");
} // namespace
namespace lexy
{
template <>
constexpr inline auto token_kind_map_for<tk> = lexy::token_kind_map.map<tk::num>(num).map<tk::b>(bb).map<tk::semi>(LEXY_LIT(";"));
}
namespace
{
// A token language: every string over the alphabet is a list of tokens.
struct Item
{
    static constexpr auto name = "Item";
    static constexpr auto rule
        = (bb | LEXY_LIT("a").kind<tk::a> | num | LEXY_LIT(";") | LEXY_LIT("b") | LEXY_LIT("(").kind<tk::last>
           | (dsl::ascii::space / dsl::lit_c<'_'>).template kind<tk::num>);
};
struct Toks
{
    static constexpr auto name = "Toks";
    static constexpr auto rule = dsl::while_(dsl::p<Item>) + dsl::eof;
};
struct Piece
{
    std::string name;
    std::size_t b, e;
};
// what the token list has to be; custom tells whether kinds of tk are in effect
std::vector<Piece> split(const std::string& s, bool custom, std::size_t& end)
{
    std::vector<Piece> r;
    std::size_t        i = 0;
    auto add = [&](const char* k, const char* d, std::size_t n) {
        r.push_back({custom ? k : d, i, i + n});
        i += n;
    };
    while (i < s.size())
    {
        if (s.compare(i, 2, "bb") == 0)
            add("K-b", "literal", 2);
        else if (s[i] == 'a')
            add("K-a", "token", 1);
        else if (s[i] >= '0' && s[i] <= '9')
        {
            std::size_t n = 0;
            while (i + n < s.size() && s[i + n] >= '0' && s[i + n] <= '9')
                ++n;
            add("K-num", "digits", n);
        }
        else if (s[i] == ';')
            add("K-semi", "literal", 1);
        else if (s[i] == 'b')
            add("literal", "literal", 1);
        else if (s[i] == '(')
            add("K-last", "token", 1);
        else if (s[i] == ' ' || s[i] == '_')
            add("K-num", "token", 1);
        else
            break;
    }
    end = i;
    return r;
}
template <typename It>
std::size_t dist(It a, It b)
{
    std::size_t n = 0;
    while (a != b)
    {
        ++a;
        ++n;
    }
    return n;
}
template <typename Kind, typename Input, typename It0>
void check_tokens(const std::string& s, const Input& in, It0 begin0, bool custom)
{
    typename lexy::input_reader<Input>::iterator begin = begin0;
    lexy::parse_tree_for<Input, Kind> tree;
    auto res = lexy::parse_as_tree<Toks>(tree, in, lexy::noop);
    std::size_t end;
    auto        want = split(s, custom, end);
    vh::transitions(want.size());
    vh::traces(1);
    if (end != s.size())
    {
        // dsl::eof fails without consuming
        if (res.is_success())
            vh::fail("trailing input accepted");
        if (!tree.empty())
        {
            if (dist(begin, tree.remaining_input().begin()) != end
                || dist(begin, tree.remaining_input().end()) != s.size())
                vh::fail("remaining input is wrong");
            auto bad = tv::check_views(tree, begin, false);
            if (!bad.empty())
                vh::fail(bad);
        }
        return;
    }
    if (!res.is_success() || tree.empty())
    {
        vh::fail("parsing failed");
        return;
    }
    std::size_t i = 0;
    auto        root = tree.root();
    std::string got;
    for (auto item : root.children())
    {
        if (item.kind().is_token())
        {
            // EOF token of dsl::eof
            if (std::string(item.kind().name()) != "EOF" || dist(begin, item.lexeme().begin()) != s.size()
                || i != want.size())
                vh::fail(std::string("unexpected token ") + item.kind().name());
            continue;
        }
        auto c = item.children();
        if (i >= want.size() || c.size() != 1 || !c.begin()->kind().is_token())
        {
            vh::fail("item " + std::to_string(i) + " is wrong");
            return;
        }
        auto n = *c.begin();
        auto t = n.token();
        if (n.kind().name() != want[i].name || t.name() != want[i].name
            || dist(begin, n.lexeme().begin()) != want[i].b || dist(begin, n.lexeme().end()) != want[i].e
            || dist(begin, n.position()) != want[i].b || dist(begin, n.covering_lexeme().end()) != want[i].e)
            vh::fail("token " + std::to_string(i) + " is " + n.kind().name() + " "
                     + std::to_string(dist(begin, n.lexeme().begin())) + "-" + std::to_string(dist(begin, n.lexeme().end()))
                     + ", expected " + want[i].name + " " + std::to_string(want[i].b) + "-" + std::to_string(want[i].e));
        if constexpr (std::is_same_v<Kind, tk>)
            for (auto k : {tk::a, tk::b, tk::num, tk::semi, tk::last})
            {
                bool same = std::string(token_kind_name(k)) == want[i].name;
                if ((n.kind() == lexy::token_kind<tk>(k)) != same || (t.kind() == k) != same
                    || (same && t.kind().get() != k) || (same && t.kind().is_predefined()))
                    vh::fail("comparison with token kind " + std::string(token_kind_name(k)));
            }
        got += n.kind().name();
        got += ' ';
        ++i;
    }
    if (i != want.size())
        vh::fail("tokens missing");
    auto bad = tv::check_views(tree, begin, !s.empty());
    if (!bad.empty())
        vh::fail(bad);
    vh::outcome(got + std::to_string(custom));
}
template <int>
void kinds()
{
    const std::string al = "ab1;(_?";
    const int         L  = vh::thorough() ? 7 : 5;
    for (int len = 0; len <= L; ++len)
    {
        std::vector<int> d(std::size_t(len), 0);
        while (true)
        {
            std::string s;
            for (int x : d)
                s += al[std::size_t(x)];
            vh::step([&] { return "token kinds on \"" + s + "\""; },
                     [&] {
                         auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
                         check_tokens<tk>(s, in, s.data(), true);
                         check_tokens<void>(s, in, s.data(), false);
                         if (s.size() <= 4)
                         {
                             auto buf = lexy::buffer<lexy::utf8_char_encoding>(s.data(), s.size());
                             check_tokens<tk>(s, buf, buf.data(), true);
                             std::u16string s16(s.begin(), s.end());
                             auto in16 = lexy::string_input<lexy::utf16_encoding>(s16.data(), s16.size());
                             check_tokens<tk>(s, in16, s16.data(), true);
                             std::list<char> l(s.begin(), s.end());
                             auto r = lexy::range_input<lexy::utf8_char_encoding, std::list<char>::const_iterator>(l.cbegin(), l.cend());
                             check_tokens<tk>(s, r, l.cbegin(), true);
                             check_tokens<void>(s, r, l.cbegin(), false);
                             std::forward_list<char32_t> fl(s.begin(), s.end());
                             auto fr = lexy::range_input<lexy::utf32_encoding, std::forward_list<char32_t>::const_iterator>(fl.cbegin(), fl.cend());

                                 check_tokens<void>(s, fr, fl.cbegin(), false);
                         }
                     });
            int i = len - 1;
            while (i >= 0 && ++d[std::size_t(i)] == int(al.size()))
                d[std::size_t(i--)] = 0;
            if (i < 0)
                break;
        }
    }
    // long inputs: many storage blocks, every kind of iterator
    for (int n : {100, 169, 170, 171, 340, 1000, 5000, 20000, 66000})
        for (int m = 1; m < (n > 50000 ? 3 : 8); ++m)
            vh::step([&] { return "long input " + std::to_string(n) + "/" + std::to_string(m); },
                     [&] {
                         std::string s;
                         for (int i = 0; i < n; ++i)
                             s += al[std::size_t((i * m + i / 7) % 6)];
                         auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
                         if (n <= 1000)
                         {
                             check_tokens<tk>(s, in, s.data(), true);
                             std::list<char> l(s.begin(), s.end());
                             auto r = lexy::range_input<lexy::utf8_char_encoding, std::list<char>::const_iterator>(l.cbegin(), l.cend());
                             check_tokens<void>(s, r, l.cbegin(), false);
                         }
                         else
                         {
                             lexy::parse_tree_for<decltype(in)> tree;
                             lexy::parse_as_tree<Toks>(tree, in, lexy::noop);
                             std::size_t end, i = 0;
                             auto        want = split(s, false, end);
                             if (tree.empty() || tree.size() != 2 + 2 * want.size())
                             {
                                 vh::fail("size is wrong");
                                 return;
                             }
                             std::size_t kids = 0;
                             for (auto c : tree.root().children())
                                 kids += c.kind().is_production();
                             if (tree.root().children().size() != want.size() + 1 || kids != want.size())
                             {
                                 vh::fail("number of children is wrong");
                                 return;
                             }
                             for (auto [ev, node] : tree.traverse())
                                 if (ev == lexy::traverse_event::leaf && i < want.size())
                                 {
                                     if (node.lexeme().begin() != s.data() + want[i].b
                                         || node.lexeme().end() != s.data() + want[i].e || node.kind().name() != want[i].name)
                                     {
                                         vh::fail("token " + std::to_string(i));
                                         return;
                                     }
                                     ++i;
                                 }
                             vh::traces(1);
                         }
                     });
}
// Token kinds themselves.
template <int>
void kind_values()
{
    // long tokens
    for (std::size_t n : {254u, 255u, 256u, 257u, 32767u, 32768u, 65534u, 65535u, 65536u, 65537u, 131072u, 200000u})
        for (int k = 0; k < 3; ++k)
            vh::step([&] { return "token of length " + std::to_string(n) + "/" + std::to_string(k); },
                     [&] {
                         std::string s = k == 0 ? std::string(n, '1') : k == 1 ? "bba" + std::string(n, '7') + ";a"
                                                                             : std::string(n, '1') + ";" + std::string(n + 1, '2') + "bb";
                         auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
                         check_tokens<tk>(s, in, s.data(), true);
                         check_tokens<void>(s, in, s.data(), false);
                     });
    for (int i = 0; i < (vh::thorough() ? 60000 : 1500); ++i)
        vh::step([&] { return "token kind " + std::to_string(i); },
                 [&] {
                     lexy::token_kind<> k(i);
                     if (k.get() != i || k.is_predefined() || !k || k.ignore_if_empty())
                         vh::fail("token_kind<void> is wrong");
                     using lexy::predefined_token_kind;
                     struct
                     {
                         predefined_token_kind k;
                         const char*           name;
                         bool                  known, ignore;
                     } pre[] = {{lexy::unknown_token_kind, "token", false, true},
                                {lexy::error_token_kind, "error token", true, true},
                                {lexy::whitespace_token_kind, "whitespace", true, true},
                                {lexy::any_token_kind, "any", true, false},
                                {lexy::literal_token_kind, "literal", true, false},
                                {lexy::position_token_kind, "position", true, false},
                                {lexy::eof_token_kind, "EOF", true, false},
                                {lexy::identifier_token_kind, "identifier", true, false},
                                {lexy::digits_token_kind, "digits", true, false}};
                     for (auto& p : pre)
                     {
                         lexy::token_kind<> q(p.k);
                         if (q == k || !(q != k) || !(q == lexy::token_kind<>(p.k)) || !q.is_predefined()
                             || bool(q) != p.known || q.ignore_if_empty() != p.ignore
                             || std::string(q.name()) != p.name)
                             vh::fail(std::string("predefined kind ") + p.name);
                     }
                     if (lexy::token_kind<>(i + 1) == k || lexy::token_kind<>(i) != k)
                         vh::fail("comparison of token kinds");
                     vh::transitions(10);
                     vh::traces(1);
                 });
}
//=== expression trees ===//
struct Expr : lexy::expression_production
{
    static constexpr auto name                 = "Expr";
    static constexpr auto max_operator_nesting = 5000;
    static constexpr auto whitespace = dsl::lit_c<'_'> / dsl::lit_c<' '>;
    struct expected_operand
    {
        static constexpr auto name = "operand";
    };
    static constexpr auto atom = LEXY_LIT("a") | dsl::parenthesized(dsl::recurse<Expr>) | dsl::error<expected_operand>;
    struct Post : dsl::postfix_op
    {
        static constexpr auto name = "Post";
        static constexpr auto op   = dsl::op(LEXY_LIT("!"));
        using operand              = dsl::atom;
    };
    struct Neg : dsl::prefix_op
    {
        static constexpr auto name = "Neg";
        static constexpr auto op   = dsl::op(LEXY_LIT("-"));
        using operand              = Post;
    };
    struct Mul : dsl::infix_op_left
    {
        static constexpr auto name = "Mul";
        static constexpr auto op   = dsl::op(LEXY_LIT("*"));
        using operand              = Neg;
    };
    struct Cat : dsl::infix_op_list, lexy::transparent_production
    {
        static constexpr auto name = "Cat";
        static constexpr auto op   = dsl::op(LEXY_LIT(","));
        using operand              = Mul;
    };
    struct Asg : dsl::infix_op_right
    {
        static constexpr auto name = "Asg";
        static constexpr auto op   = dsl::op(LEXY_LIT("="));
        using operand              = Cat;
    };
    using operation = Asg;
};
struct Stmt
{
    static constexpr auto name       = "Stmt";
    static constexpr auto whitespace = dsl::lit_c<'_'> / dsl::lit_c<' '>;
    static constexpr auto rule       = dsl::terminator(LEXY_LIT(";")).opt_list(dsl::p<Expr>, dsl::sep(LEXY_LIT("&")));
};
// a tiny recursive descent parser that prints the tree, for well-formed inputs only
struct P
{
    const std::string& s;
    std::size_t        i = 0;
    bool               ok = true;
    void ws(std::string& out)
    {
        std::size_t b = i;
        while (i < s.size() && s[i] == '_')
            ++i;
        if (i != b)
            out += "w" + std::to_string(i - b) + " ";
    }
    bool lit(char c, std::string& out)
    {
        if (i < s.size() && s[i] == c)
        {
            out += c;
            out += ' ';
            ++i;
            ws(out);
            return true;
        }
        return false;
    }
    std::string prim()
    {
        std::string o;
        if (lit('a', o))
            return o;
        if (lit('(', o))
        {
            o += expr();
            if (!ok || !lit(')', o))
                ok = false;
            return o;
        }
        ok = false;
        return o;
    }
    std::string post()
    {
        auto        o = prim();
        std::string t;
        while (ok && lit('!', t))
        {
            o = "Post{" + o + t + "} ";
            t.clear();
        }
        return o;
    }
    std::string neg()
    {
        std::string t;
        if (lit('-', t))
            return "Neg{" + t + neg() + "} ";
        return post();
    }
    std::string mul()
    {
        auto        o = neg();
        std::string t;
        while (ok && lit('*', t))
        {
            o = "Mul{" + o + t + neg() + "} ";
            t.clear();
        }
        return o;
    }
    std::string cat()
    {
        auto        o = mul();
        std::string t;
        while (ok && lit(',', t))
        {
            o += t + mul();
            t.clear();
        }
        return o;
    }
    std::string asg()
    {
        auto        o = cat();
        std::string t;
        if (ok && lit('=', t))
            o = "Asg{" + o + t + asg() + "} ";
        return o;
    }
    std::string expr()
    {
        std::string o = "Expr{";
        ws(o);
        o += asg();
        return o + "} ";
    }
    std::string stmt()
    {
        std::string o = "Stmt{";
        ws(o);
        if (!lit(';', o))
        {
            o += expr();
            std::string t;
            while (ok && lit('&', t))
            {
                o += t + expr();
                t.clear();
            }
            if (ok && !lit(';', o))
                ok = false;
        }
        return o + "} ";
    }
};
template <typename Node>
std::string show(Node n)
{
    if (n.kind().is_token())
    {
        auto l = n.lexeme();
        if (std::string(n.kind().name()) == "whitespace")
            return "w" + std::to_string(l.end() - l.begin()) + " ";
        return std::string(l.begin(), l.end()) + " ";
    }
    std::string r = n.kind().name();
    r += "{";
    for (auto c : n.children())
        r += show(c);
    return r + "} ";
}
inline void expr_one(const std::string& s)
{
    P    p{s};
    auto want = p.stmt();
    lexy::string_input<lexy::utf8_char_encoding> in(s.data(), s.size());
    lexy::parse_tree_for<decltype(in)>           tree;
    auto res = lexy::parse_as_tree<Stmt>(tree, in, lexy::noop);
    vh::traces(1);
    vh::transitions(s.size());
    if (p.ok && p.i <= s.size())
    {
        if (!res.is_success() || tree.empty())
        {
            vh::fail("parsing failed; expected " + want);
            return;
        }
        auto got = show(tree.root());
        if (got != want)
            vh::fail("tree is " + got + ", expected " + want);
        vh::outcome(got);
    }
    else if (res.is_success())
        vh::fail("accepted");
    if (!tree.empty())
    {
        // lossless, whatever happened
        const char* cur = s.data();
        for (auto [ev, node] : tree.traverse())
            if (ev == lexy::traverse_event::leaf)
            {
                if (node.lexeme().begin() != cur)
                    vh::fail("token does not start where the previous one ended");
                cur = node.lexeme().end();
            }
        if (tree.remaining_input().begin() != cur || tree.remaining_input().end() != s.data() + s.size())
            vh::fail("remaining input is wrong");
        auto bad = tv::check_views(tree, s.data(), true);
        if (!bad.empty())
            vh::fail(bad);
        vh::outcome(show(tree.root()));
    }
}
template <int>
void expressions()
{
    auto go = [](const std::string& al, int L, const std::string& pre, const std::string& post) {
        for (int len = 0; len <= L; ++len)
        {
            std::vector<int> d(std::size_t(len), 0);
            while (true)
            {
                std::string s = pre;
                for (int x : d)
                    s += al[std::size_t(x)];
                s += post;
                vh::step([&] { return "expression tree of \"" + s + "\""; }, [&] { expr_one(s); });
                int i = len - 1;
                while (i >= 0 && ++d[std::size_t(i)] == int(al.size()))
                    d[std::size_t(i--)] = 0;
                if (i < 0)
                    break;
            }
        }
    };
    bool th = vh::thorough();
    go("a-*!,=;", th ? 7 : 6, "", "");
    go("a*()_;", th ? 8 : 6, "", "");
    go("a,=&;_", th ? 8 : 6, "", "");
    go("a-*!,=()", th ? 6 : 5, "a", "a;");
    // long ones, over block boundaries
    for (int n = 0; n < (th ? 400 : 130); ++n)
        for (auto unit : {"a*", "a=", "a,", "-", "(", "a*a="})
            for (auto tail : {"a!;", "a;", "a*(a=a);", "a**;a;"})
            {
                std::string s;
                for (int i = 0; i < n; ++i)
                    s += unit;
                s += tail;
                if (unit[0] == '(' && tail[1] != '*')
                    s.insert(s.size() - 1, std::size_t(n), ')');
                vh::step([&] { return "expression tree of \"" + s + "\""; }, [&] { expr_one(s); });
            }
}
} // namespace
static int k0 = parts::add<0>([](auto x) { kinds<int(sizeof x) * 0>(); });
static int k1 = parts::add<1>([](auto x) { kind_values<int(sizeof x) * 0>(); });
static int k2 = parts::add<2>([](auto x) { expressions<int(sizeof x) * 0>(); });
PARTS_MAIN
