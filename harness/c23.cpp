// C23: visualisation of code points, lexemes and trees against a reference renderer.
#include "parts.hpp"
#include "uenc.hpp"
#include "viz.hpp"
#include <algorithm>
#include <array>
#include <iterator>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy/visualize.hpp>
#include <list>
#include <sys/mman.h>
namespace
{
using namespace viz;
//=== the real thing ===//
inline char* scratch()
{
    static std::vector<char> v(1 << 22);
    return v.data();
}
// an iterator that has nothing but what an output iterator has
struct Out
{
    using iterator_category = std::output_iterator_tag;
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    std::string* s;
    std::size_t  at; // position this iterator writes to
    struct Ref
    {
        std::string* s;
        std::size_t  at;
        void         operator=(char c) const
        {
            if (s->size() < at + 1)
                s->resize(at + 1, '?');
            (*s)[at] = c;
        }
    };
    Ref operator*() const
    {
        return {s, at};
    }
    Out& operator++()
    {
        ++at;
        return *this;
    }
    Out operator++(int)
    {
        auto c = *this;
        ++at;
        return c;
    }
};
template <typename T>
void compare(const char* what, const T& obj, const O& o, const std::string& want)
{
    auto ro  = real(o);
    auto buf = scratch();
    auto end = lexy::visualize_to(buf, obj, ro);
    if (std::size_t(end - buf) != want.size() || std::memcmp(buf, want.data(), want.size()) != 0)
        vh::fail(std::string(what) + ": expected " + q(want) + " actual " + q(std::string(buf, end)));
}
template <typename T>
void compare_all(const T& obj, const O& o, const std::string& want)
{
    compare("pointer", obj, o, want);
    auto        ro = real(o);
    std::string s;
    lexy::visualize_to(std::back_inserter(s), obj, ro);
    vh::eq("back_inserter", q(want), q(s));
    std::string p;
    auto        it = lexy::visualize_to(Out{&p, 0}, obj, ro);
    vh::eq("output iterator", q(want), q(p));
    if (it.at != want.size())
        vh::fail("the returned iterator is not at the end");
    char*       mem = nullptr;
    std::size_t n   = 0;
    FILE*       f   = open_memstream(&mem, &n);
    lexy::visualize(f, obj, ro);
    std::fflush(f);
    vh::eq("file", q(want), q(std::string(mem, n)));
    std::rewind(f);
    lexy::visualize_to(lexy::cfile_output_iterator(f), obj, ro);
    std::fclose(f);
    vh::eq("file iterator", q(want), q(std::string(mem, n)));
    std::free(mem);
}
template <typename T>
void compare_width(const T& obj, const O& o, const std::string& without_color)
{
    auto n = lexy::visualization_display_width(obj, real(o));
    if (n != width(without_color))
        vh::fail("display width: expected " + std::to_string(width(without_color)) + " actual " + std::to_string(n));
}
//=== A: code points ===//
void run_points(int)
{
    static const unsigned tabs[] = {0, 1, 2, 3, 8, 255};
    for (u32 block = 0; block <= 0x1100; ++block)
        vh::step([&] { return "code points " + hex(block * 256, 6) + ".."; },
                 [&] {
                     for (u32 i = 0; i < 256; ++i)
                     {
                         u32 c = block * 256 + i;
                         for (unsigned f = 0; f < 16; ++f)
                             for (auto t : tabs)
                             {
                                 auto o = opt(f, f, t);
                                 if (t && c != 9 && (f != 5 || c > 0x10F))
                                     continue;
                                 auto want = point(o, c);
                                 auto cp   = lexy::code_point(c);
                                 compare("pointer", cp, o, want);
                                 if (block < 3 || i == 0 || i == 255 || vh::thorough())
                                     compare_all(cp, o, want);
                                 auto n = o;
                                 n.col  = false;
                                 if (block < 0x300 || vh::thorough())
                                     compare_width(cp, o, point(n, c));
                                 if (i < 16)
                                     vh::outcome(want);
                                 vh::traces(1);
                             }
                     }
                     vh::transitions(256 * 16);
                 });
    vh::step([] { return "invalid code points"; },
             [] {
                 for (unsigned f = 0; f < 16; ++f)
                 {
                     compare_all(lexy::code_point(), opt(f), point(opt(f), 0xFFFFFFFF));
                     for (u32 c : {0x110000u, 0x110041u, 0x1000041u, 0x80000000u, 0x80000041u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x7FFFFFFFu})
                         compare_all(lexy::code_point(c), opt(f), point(opt(f), c));
                 }
             });
    vh::step([] { return "default arguments"; },
             [] {
                 for (u32 c = 0; c < 0x400; ++c)
                 {
                     std::string s;
                     lexy::visualize_to(std::back_inserter(s), lexy::code_point(c));
                     vh::eq("default options", q(point(opt(0), c)), q(s));
                 }
                 std::string s;
                 std::string big(700, 'x');
                 auto        in = lexy::string_input<lexy::utf8_char_encoding>(big);
                 lexy::visualize_to(std::back_inserter(s),
                                    lexy::lexeme_for<decltype(in)>(big.data(), big.data() + 700));
                 vh::eq("unlimited by default", q(big), q(s));
             });
    // the options themselves
    vh::step([] { return "option algebra"; },
             [] {
                 using namespace lexy;
                 visualization_flags one[] = {visualize_use_unicode, visualize_use_color, visualize_use_symbols, visualize_space};
                 for (unsigned f = 0; f < 16; ++f)
                     for (unsigned g = 0; g < 16; ++g)
                     {
                         auto make = [&](unsigned m) {
                             auto r = visualize_default;
                             for (int i = 0; i < 4; ++i)
                                 if (m >> i & 1)
                                     r = r | one[i];
                             return r;
                         };
                         visualization_options o;
                         o.flags            = make(f);
                         o.max_lexeme_width = 7;
                         o.tab_width        = 3;
                         o.max_tree_depth   = 5;
                         auto a = o | make(g), b = o.reset(make(g));
                         bool set_a = false;
                         for (int i = 0; i < 4; ++i)
                         {
                             vh::check(o.is_set(one[i]) == (f >> i & 1), "is_set");
                             vh::check(a.is_set(one[i]) == ((f | g) >> i & 1), "| sets a flag");
                             vh::check(b.is_set(one[i]) == ((f & ~g) >> i & 1), "reset clears a flag");
                             set_a |= (f >> i & 1) && (g >> i & 1);
                         }
                         for (auto& p : {a, b})
                             vh::check(p.max_lexeme_width == 7 && p.tab_width == 3 && p.max_tree_depth == 5, "other options are kept");
                         vh::check(o.is_set(make(g)) == set_a, "is_set of several");
                         vh::traces(1);
                     }
                 vh::check(visualize_fancy == (visualize_use_unicode | visualize_use_color | visualize_use_symbols), "fancy");
             });
    // stdout and stderr iterators
    vh::step([] { return "stdout and stderr iterators"; },
             [] {
                 for (int which = 1; which <= 2; ++which)
                 {
                     FILE* f  = which == 1 ? stdout : stderr;
                     std::fflush(f);
                     int keep = dup(which);
                     int mem  = memfd_create("c23", 0);
                     dup2(mem, which);
                     std::string want;
                     for (unsigned fl = 0; fl < 16; ++fl)
                         for (u32 c = 0; c < 0x120; ++c)
                         {
                             want += point(opt(fl), c);
                             if (which == 1)
                                 lexy::visualize_to(lexy::stdout_output_iterator{}, lexy::code_point(c), real(opt(fl)));
                             else
                                 lexy::visualize_to(lexy::stderr_output_iterator{}, lexy::code_point(c), real(opt(fl)));
                         }
                     std::fflush(f);
                     dup2(keep, which);
                     close(keep);
                     std::string got(want.size() + 10, 0);
                     auto        n = pread(mem, &got[0], got.size(), 0);
                     close(mem);
                     got.resize(std::size_t(n));
                     vh::check(got == want, which == 1 ? "stdout" : "stderr");
                 }
             });
}

//=== B: lexemes ===//
template <typename Enc, E e>
struct Lexemes
{
    using C = typename Enc::char_type;
    static vh::Guard& guard()
    {
        static vh::Guard g(1 << 12);
        return g;
    }
    static void one(const std::vector<u32>& u, const O& o, bool all)
    {
        auto p = guard().template tail<C>(u.size());
        for (std::size_t i = 0; i < u.size(); ++i)
            p[i] = C(u[i]);
        using input = lexy::string_input<Enc>;
        lexy::lexeme_for<input> l(p, p + u.size());
        auto                    want = lex(o, e, u);
        compare("pointer", l, o, want);
        vh::traces(1);
        vh::transitions(u.size());
        if (all)
        {
            vh::outcome(want);
            auto n = o;
            n.col  = false;
            compare_width(l, o, lex(n, e, u));
            compare_all(l, o, want);
            std::list<C> li(p, p + u.size());
            using linput = lexy::range_input<Enc, typename std::list<C>::iterator>;
            compare("list", lexy::lexeme_for<linput>(li.begin(), li.end()), o, want);
        }
    }
    static std::string str(const std::vector<u32>& u)
    {
        std::string s;
        for (auto c : u)
            s += " " + hex(c, int(sizeof(C)) * 2);
        return s;
    }
    // all strings of exactly len over the alphabet
    static void strings(const std::vector<u32>& a, int len, const std::vector<O>& os, bool all)
    {
        // one step per prefix
        int  pre = len > 2 ? len - 2 : len > 1 ? len - 1 : 0;
        std::vector<u32>         u(std::size_t(len), 0);
        std::vector<std::size_t> d(std::size_t(len), 0);
        auto                     inc = [&](int lo, int hi) {
            for (int i = hi - 1; i >= lo; --i)
            {
                if (++d[std::size_t(i)] < a.size())
                    return true;
                d[std::size_t(i)] = 0;
            }
            return false;
        };
        do
        {
            vh::step(
                [&] {
                    std::vector<u32> p;
                    for (int i = 0; i < pre; ++i)
                        p.push_back(a[d[std::size_t(i)]]);
                    return "units" + str(p) + " + " + std::to_string(len - pre) + " of " + std::to_string(a.size());
                },
                [&] {
                    do
                    {
                        for (int i = 0; i < len; ++i)
                            u[std::size_t(i)] = a[d[std::size_t(i)]];
                        for (auto& o : os)
                            one(u, o, all);
                    } while (inc(pre, len));
                });
            for (int i = pre; i < len; ++i)
                d[std::size_t(i)] = 0;
        } while (inc(0, pre));
    }
    static void run(const std::vector<u32>& full, const std::vector<u32>& reps, int n)
    {
        std::vector<O> all, some, few;
        for (unsigned f = 0; f < 16; ++f)
            for (unsigned w = 0; w <= 5; ++w)
                for (unsigned t : {0u, 2u})
                    all.push_back(opt(f, w, t));
        for (unsigned f : {0u, 7u, 13u})
            for (unsigned w = 0; w <= 5; ++w)
                some.push_back(opt(f, w, f == 13 ? 3 : 0));
        for (unsigned w : {0u, 1u, 3u})
            few.push_back(opt(w == 1 ? 5 : 0, w, w));
        vh::step([] { return "empty lexeme"; },
                 [&] {
                     for (auto& o : all)
                         one({}, o, true);
                     compare_all(lexy::lexeme_for<lexy::string_input<Enc>>(), opt(0), "");
                 });
        strings(reps, 1, all, true);
        strings(reps, 2, all, false);
        strings(full, 1, some, sizeof(C) == 1);
        if (full.size() <= 256)
            strings(full, 2, vh::thorough() ? some : few, false);
        for (int l = 3; l <= n; ++l)
            strings(reps, l, l == 3 || vh::thorough() ? some : few, false);
        // long lexemes around the largest width
        for (unsigned len = 250; len < 260; ++len)
            vh::step([&] { return "length " + std::to_string(len); },
                     [&] {
                         std::vector<u32> u(len, 'a');
                         u[len / 2] = '\\';
                         for (unsigned w = 250; w < 256; ++w)
                             for (unsigned f : {0u, 15u})
                                 one(u, opt(f, w), true);
                         one(u, opt(0, 0), true);
                     });
    }
};
inline std::vector<u32> upto(u32 n)
{
    std::vector<u32> r;
    for (u32 i = 0; i < n; ++i)
        r.push_back(i);
    return r;
}
inline std::vector<u32> bytes8()
{
    return {0,    9,    0x0A, 0x0D, 0x20, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1,
            0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFD, 0xFE, 0xFF};
}
inline std::vector<u32> units16()
{
    return {0,    9,    0x0A,  0x20,   0x41,   0x5C,   0x7F,   0x80,   0x9F,   0xA0,   0xFF,
            0x100, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF};
}
inline std::vector<u32> units32()
{
    return {0,      9,       0x0A,     0x20,     0x41,      0x5C,       0x7F,       0x9F,       0xFF,       0xD7FF,     0xD800, 0xDFFF,
            0xE000, 0x10000, 0x10FFFF, 0x110000, 0x1000000, 0x1000041, 0x80000000, 0xFFFFFF,   0xFF0000FF, 0xFFFFFFFE, 0xFFFFFFFF};
}

//=== C: trees ===//
enum class tk
{
    word,
    blank,
};
inline const char* token_kind_name(tk k)
{
    return k == tk::word ? "word" : "blank";
}
#define PROD(NAME, STR)                                                                                                            \
    struct NAME                                                                                                                    \
    {                                                                                                                              \
        static constexpr auto name = STR;                                                                                          \
        static constexpr auto rule = lexy::dsl::any;                                                                               \
    };
PROD(Root, "Root")
PROD(P0, "P")
PROD(P1, "long name")
template <typename Enc, E e>
struct Trees
{
    using C     = typename Enc::char_type;
    using Input = lexy::string_input<Enc>;
    using Tree  = lexy::parse_tree_for<Input, tk>;
    using B     = typename Tree::builder;
    static constexpr C text[] = {C('a'), C(' '), C('\n'), C('b'), C('\t'), C('\\'), C(0xE9), C('c'), C('d'), C('e'), C('f'), C('g'), C('h'), C('i'), C('j')};
    // what: ( normal production, [ other production, ) ] end; letters are tokens
    //   e: empty position token, a: "a", s: " \n", l: long, x: error token, w: whitespace
    static void build(const std::string& shape, Tree& out, N& root)
    {
        B b(Tree{}, lexy::production_info(Root{}));
        root = {"Root", false, {}, {}};
        std::vector<typename B::marker> marks;
        std::vector<N>                  open;
        auto           add = [&](N n) { (open.empty() ? root : open.back()).kids.push_back(std::move(n)); };
        auto           tok = [&](auto kind, const char* name, int from, int to) {
            b.token(kind, text + from, text + to);
            N n{name, true, {}, {}};
            for (int i = from; i < to; ++i)
                n.text.push_back(static_cast<u32>(std::make_unsigned_t<C>(text[i])));
            add(n);
        };
        using K = lexy::token_kind<tk>;
        for (char c : shape)
            switch (c)
            {
            case '(':
                marks.push_back(b.start_production(lexy::production_info(P0{})));
                open.push_back({"P", false, {}, {}});
                break;
            case '[':
                marks.push_back(b.start_production(lexy::production_info(P1{})));
                open.push_back({"long name", false, {}, {}});
                break;
            case ')':
            case ']': {
                b.finish_production(std::move(marks.back()));
                marks.pop_back();
                auto n = std::move(open.back());
                open.pop_back();
                add(n);
                break;
            }
            case 'e':
                tok(K(lexy::position_token_kind), "position", 0, 0);
                break;
            case 'a':
                tok(K(tk::word), "word", 0, 1);
                break;
            case 's':
                tok(K(tk::blank), "blank", 1, 3);
                break;
            case 'l':
                tok(K(lexy::literal_token_kind), "literal", 0, 15);
                break;
            case 'x':
                tok(K(lexy::error_token_kind), "error token", 3, 7);
                break;
            case 'w':
                tok(K(lexy::whitespace_token_kind), "whitespace", 1, 2);
                break;
            }
        out = std::move(b).finish();
    }
    static void check(const std::string& shape, const std::vector<O>& os)
    {
        vh::step([&] { return "tree " + shape; },
                 [&] {
                     Tree t;
                     N    n;
                     build(shape, t, n);
                     for (auto& o : os)
                     {
                         std::string want;
                         tree(o, e, n, "", true, 0, want);
                         compare_all(t, o, want);
                         auto p = o;
                         p.col  = false;
                         std::string plain;
                         tree(p, e, n, "", true, 0, plain);
                         compare_width(t, o, plain);
                         vh::outcome(want);
                         vh::traces(1);
                     }
                     vh::transitions(shape.size());
                 });
    }
    // all shapes with up to n nodes below the root
    template <typename F>
    static void shapes(std::string& s, int open, int nodes, F f)
    {
        if (open == 0)
            f(s);
        if (open)
        {
            std::size_t i = s.size();
            // find the matching opener
            int d = 0;
            for (std::size_t k = i; k-- > 0;)
            {
                if (s[k] == ')' || s[k] == ']')
                    ++d;
                else if ((s[k] == '(' || s[k] == '[') && d-- == 0)
                {
                    s += s[k] == '(' ? ')' : ']';
                    break;
                }
            }
            shapes(s, open - 1, nodes, f);
            s.resize(i);
        }
        if (nodes == 0)
            return;
        for (char c : {'(', '[', 'e', 'a', 's', 'l', 'x', 'w'})
        {
            if (c == 'x' && !s.empty() && s.back() == 'x')
                continue; // would be merged
            if (nodes < 4 && (c == '[' || c == 'l') && !vh::thorough() && s.size() > 2)
                continue;
            s += c;
            shapes(s, open + (c == '(' || c == '['), nodes - 1, f);
            s.pop_back();
        }
    }
    // all trees with exactly the given number of nodes below the root whose leaves are tokens
    template <typename F>
    static void plain_shapes(const std::string& s, std::vector<int> kids, int nodes, F f)
    {
        if (kids.empty() && nodes == 0)
            f(s);
        if (!kids.empty() && kids.back() > 0)
        {
            auto up = kids;
            up.pop_back();
            plain_shapes(s + ")", up, nodes, f);
        }
        if (nodes == 0)
            return;
        if (!kids.empty())
            ++kids.back();
        plain_shapes(s + "a", kids, nodes - 1, f);
        kids.push_back(0);
        if (nodes > 1)
            plain_shapes(s + "(", kids, nodes - 1, f);
    }
    static void run(int n)
    {
        if (n > 3 || vh::thorough())
            for (int k = 1; k <= (vh::thorough() ? 10 : 9); ++k)
                plain_shapes("", {}, k, [&](const std::string& sh) { check(sh, {opt(0), opt(7, 0, 0, 4)}); });
        std::vector<O> os;
        for (unsigned f : {0u, 1u, 2u, 7u, 12u, 15u})
            for (unsigned d : {0u, 1u, 2u, 3u, 4u, 32u})
                os.push_back(opt(f, d == 2 ? 2 : d == 3 ? 15 : 0, d == 4 ? 2 : 0, d));
        std::string s;
        vh::step([] { return "empty tree"; },
                 [&] {
                     Tree t;
                     for (auto& o : os)
                         compare_all(t, o, "");
                 });
        shapes(s, 0, n, [&](const std::string& sh) { check(sh, os); });
        // deep chains: at every level before or after the child another token
        for (int depth = 0; depth <= 40; ++depth)
            for (int kind = 0; kind < 8; ++kind)
            {
                std::string a, b;
                for (int i = 0; i < depth; ++i)
                {
                    bool after = (kind & 1) != 0 && (kind < 4 || i % 2);
                    a += (kind & 2) && i % 3 == 0 ? "a(" : "(";
                    b.insert(0, after ? ")a" : ")");
                }
                std::vector<O> ds;
                for (unsigned d = 0; d <= 32; d += vh::thorough() ? 1 : (d >= 28 || d < 2) ? 1 : 2)
                    for (unsigned f : {0u, 7u})
                        ds.push_back(opt(f, 0, 0, d));
                check(a + "s" + b, ds);
            }
        // many siblings
        for (int k : {50, 170, 171, 500})
            check(std::string(std::size_t(k), 'a') + "(" + std::string(std::size_t(k), 's') + ")e", {opt(0), opt(15, 1, 1, 1)});
    }
};
template <typename Enc, E e>
constexpr typename Enc::char_type Trees<Enc, e>::text[];

// lexemes over the tokens of a tree
struct Digits
{
    static constexpr auto name = "Digits";
    static constexpr auto rule = lexy::dsl::while_(lexy::dsl::ascii::character);
};
template <typename Enc>
void node_lexemes()
{
    using C     = typename Enc::char_type;
    using Input = lexy::string_input<Enc>;
    using Tree  = lexy::parse_tree_for<Input>;
    std::vector<u32> a{0, 9, 0x0A, 0x20, 0x41, 0x5C, 0x7F};
    std::vector<u32> u;
    for (int len = 0; len <= 4; ++len)
    {
        std::size_t total = 1;
        for (int i = 0; i < len; ++i)
            total *= a.size();
        for (std::size_t k = 0; k < total; ++k)
            vh::step([&] { return "node lexeme " + std::to_string(len) + "/" + std::to_string(k); },
                     [&] {
                         u.clear();
                         auto r = k;
                         for (int i = 0; i < len; ++i, r /= a.size())
                             u.push_back(a[r % a.size()]);
                         std::basic_string<C> s;
                         for (auto c : u)
                             s.push_back(C(c));
                         Input in(s.data(), s.size());
                         Tree  t;
                         lexy::parse_as_tree<Digits>(t, in, lexy::noop);
                         using tin = lexy::parse_tree_input<std::decay_t<decltype(t.root())>>;
                         lexy::lexeme_for<tin> l(s.data(), s.data() + s.size());
                         E e = std::is_same_v<Enc, lexy::byte_encoding> ? e_byte : sizeof(C) == 1 ? e_utf8 : sizeof(C) == 2 ? e_utf16 : e_utf32;
                         for (unsigned f = 0; f < 16; ++f)
                             for (unsigned w = 0; w < 5; ++w)
                             {
                                 auto o    = opt(f, w, w == 2 ? 2 : 0);
                                 auto want = lex(o, e, u);
                                 compare_all(l, o, want);
                                 vh::traces(1);
                                 vh::outcome(want);
                             }
                     });
    }
}

[[maybe_unused]] int reg[] = {
    parts::add<0>([](auto) { run_points(0); }),
    parts::add<1>([](auto) { Lexemes<lexy::utf8_char_encoding, e_utf8>::run(upto(256), bytes8(), 4); }),
    parts::add<2>([](auto) { Lexemes<lexy::utf8_encoding, e_utf8>::run(upto(256), bytes8(), vh::thorough() ? 4 : 3); }),
    parts::add<3>([](auto) { Lexemes<lexy::utf16_encoding, e_utf16>::run(upto(65536), units16(), vh::thorough() ? 4 : 3); }),
    parts::add<4>([](auto) { Lexemes<lexy::utf32_encoding, e_utf32>::run(upto(vh::thorough() ? 0x112000 : 0x20000), units32(), vh::thorough() ? 4 : 3); }),
    parts::add<5>([](auto) { Lexemes<lexy::default_encoding, e_text>::run(upto(256), bytes8(), 3); }),
    parts::add<6>([](auto) { Lexemes<lexy::ascii_encoding, e_text>::run(upto(256), bytes8(), 3); }),
    parts::add<7>([](auto) { Lexemes<lexy::byte_encoding, e_byte>::run(upto(256), bytes8(), 3); }),
    parts::add<8>([](auto) { Trees<lexy::utf8_char_encoding, e_utf8>::run(vh::thorough() ? 5 : 4); }),
    parts::add<9>([](auto) { Trees<lexy::default_encoding, e_text>::run(vh::thorough() ? 4 : 3); }),
    parts::add<10>([](auto) { Trees<lexy::utf16_encoding, e_utf16>::run(vh::thorough() ? 4 : 3); }),
    parts::add<11>([](auto) { Trees<lexy::byte_encoding, e_byte>::run(3); }),
    parts::add<12>([](auto) {
        node_lexemes<lexy::utf8_char_encoding>();
        node_lexemes<lexy::utf32_encoding>();
        node_lexemes<lexy::utf16_encoding>();
    }),
};
} // namespace
PARTS_MAIN
