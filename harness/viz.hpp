// Reference renderer for lexy's visualisation (used by C23 and C24).
#ifndef VIZ_HPP
#define VIZ_HPP
#include <cstdint>
#include <lexy/visualize.hpp>
#include <string>
#include <vector>
namespace viz
{
using u32 = uint32_t;
struct O
{
    bool     uni, col, sym, sp;
    unsigned width = 0, tab = 0, depth = 32;
};
inline O opt(unsigned f, unsigned width = 0, unsigned tab = 0, unsigned depth = 32)
{
    return {(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, (f & 8) != 0, width, tab, depth};
}
inline lexy::visualization_options real(const O& o)
{
    lexy::visualization_options r;
    if (o.uni)
        r = r | lexy::visualize_use_unicode;
    if (o.col)
        r = r | lexy::visualize_use_color;
    if (o.sym)
        r = r | lexy::visualize_use_symbols;
    if (o.sp)
        r = r | lexy::visualize_space;
    r.max_lexeme_width = static_cast<unsigned char>(o.width);
    r.tab_width        = static_cast<unsigned char>(o.tab);
    r.max_tree_depth   = static_cast<unsigned char>(o.depth);
    return r;
}
inline std::string style(const O& o, const char* code, const std::string& s)
{
    return o.col ? std::string("\x1b[") + code + "m" + s + "\x1b[0m" : s;
}
inline std::string special(const O& o, const std::string& s)
{
    return style(o, "36;2", o.uni ? "\xE2\x9F\xA8" + s + "\xE2\x9F\xA9" : "\\" + s);
}
inline std::string hex(u32 v, int n)
{
    std::string r;
    for (; v || int(r.size()) < n; v /= 16)
        r.insert(r.begin(), "0123456789ABCDEF"[v % 16]);
    return r;
}
inline std::string byte(const O& o, u32 b)
{
    return special(o, (o.uni ? "0x" : "x") + hex(b, 2));
}
inline std::string point(const O& o, u32 c)
{
    if (c == ' ' && !o.sp)
        return " ";
    if (c == '\t' && o.tab)
    {
        std::string r;
        for (unsigned i = 0; i < o.tab; ++i)
            r += point(o, ' ');
        return r;
    }
    if (o.sym && c == '\n')
        return style(o, "2", "\xE2\x8F\x8E");
    if (o.sym && c == '\t')
        return style(o, "2", "\xE2\x87\xA8");
    if (o.sym && c == ' ')
        return style(o, "2", "\xE2\x90\xA3");
    if (c > 0x10FFFF)
        return special(o, o.uni ? "U+????" : "u????");
    struct
    {
        u32         c;
        const char *ascii, *uni;
    } names[] = {{0, "0", "NUL"}, {'\r', "r", "CR"}, {'\n', "n", "LF"}, {'\t', "t", "HT"}, {' ', "u0020", "SP"}};
    for (auto& n : names)
        if (n.c == c)
            return special(o, o.uni ? n.uni : n.ascii);
    if (c == '\\')
        return o.uni ? "\\" : special(o, "\\");
    if (c >= 0x21 && c <= 0x7E)
        return std::string(1, char(c));
    return special(o, o.uni ? "U+" + hex(c, 4) : c <= 0xFFFF ? "u" + hex(c, 4) : "U" + hex(c, 8));
}
inline std::string ellipsis(const O& o)
{
    return o.uni ? "\xE2\x80\xA6" : "...";
}
enum E
{
    e_utf8,
    e_utf16,
    e_utf32,
    e_text,
    e_byte
};
// The "characters" of a lexeme.
inline std::vector<std::string> chars(const O& o, E e, const std::vector<u32>& u)
{
    std::vector<std::string> r;
    std::size_t              i = 0;
    auto                     raw = [&](std::size_t n) {
        std::string s;
        for (; n; --n, ++i)
        {
            int len = 1;
            while (len < 4 && (u[i] >> (8 * len)))
                ++len;
            for (int k = len - 1; k >= 0; --k)
                s += byte(o, u[i] >> (8 * k) & 0xFF);
        }
        r.push_back(s);
    };
    while (i < u.size())
    {
        u32 c = u[i];
        switch (e)
        {
        case e_byte:
            r.push_back(special(o, hex(c, 2)));
            ++i;
            break;
        case e_text:
            if (c < 0x80)
                r.push_back(point(o, c)), ++i;
            else
                raw(1);
            break;
        case e_utf32:
            if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000))
                raw(1);
            else
                r.push_back(point(o, c)), ++i;
            break;
        case e_utf16:
            if (c < 0xD800 || c > 0xDFFF)
                r.push_back(point(o, c)), ++i;
            else if (c < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000)
                r.push_back(point(o, 0x10000 + (c - 0xD800) * 1024 + (u[i + 1] - 0xDC00))), i += 2;
            else
                raw(1);
            break;
        case e_utf8: {
            // lead byte and the continuation bytes it asks for, as far as they are there
            std::size_t want = c < 0xC0 || c >= 0xF8 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
            std::size_t have = 0;
            u32         v    = want == 0 ? c : want == 1 ? c & 31 : want == 2 ? c & 15 : c & 7;
            while (have < want && i + 1 + have < u.size() && (u[i + 1 + have] & 0xC0) == 0x80)
                v = v * 64 + (u[i + 1 + have++] & 63);
            static const u32 least[] = {0, 0x80, 0x800, 0x10000};
            if (have < want || (want == 0 && c >= 0x80) || v < least[want] || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000))
                raw(have + 1);
            else
                r.push_back(point(o, v)), i += have + 1;
            break;
        }
        }
    }
    return r;
}
inline std::string lex(const O& o, E e, const std::vector<u32>& u)
{
    std::string r;
    unsigned    n = 0;
    for (auto& c : chars(o, e, u))
    {
        r += c;
        if (++n == o.width)
            return r + ellipsis(o);
    }
    return r;
}
struct N
{
    std::string      name;
    bool             leaf = false;
    std::vector<u32> text;
    std::vector<N>   kids;
};
inline void tree(const O& o, E e, const N& n, const std::string& indent, bool last, unsigned depth, std::string& r)
{
    if (depth > o.depth)
        return;
    if (depth)
        r += style(o, "2", indent + (!o.uni ? "- " : last ? "\xE2\x94\x94\xE2\x94\x80\xE2\x94\x80" : "\xE2\x94\x9C\xE2\x94\x80\xE2\x94\x80"));
    r += style(o, "1", n.name);
    if (n.leaf)
    {
        auto p = o;
        p.sp   = true;
        if (!n.text.empty())
            r += ": " + lex(p, e, n.text);
        r += "\n";
        return;
    }
    r += depth == o.depth ? ": " + ellipsis(o) + "\n" : std::string(":\n");
    auto ind = depth == 0 ? "" : indent + (!o.uni ? "  " : last ? "   " : "\xE2\x94\x82  ");
    for (std::size_t i = 0; i < n.kids.size(); ++i)
        tree(o, e, n.kids[i], ind, i + 1 == n.kids.size(), depth + 1, r);
}
inline std::size_t width(const std::string& s)
{
    std::size_t n = 0;
    for (unsigned char c : s)
        n += c < 0x80 || c >= 0xC0;
    return n;
}

inline std::string q(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
        r += c < 0x20 || c >= 0x7F ? "\\x" + hex(c, 2) : std::string(1, char(c));
    return r + "\"";
}
inline std::string show(const O& o)
{
    return std::string(o.uni ? "unicode " : "") + (o.col ? "color " : "") + (o.sym ? "symbols " : "") + (o.sp ? "space " : "")
           + "width " + std::to_string(o.width) + " tab " + std::to_string(o.tab) + " depth " + std::to_string(o.depth);
}
} // namespace viz
#endif
