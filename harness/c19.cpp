// C19: input locations and line annotations.
#include "parts.hpp"
#include "uenc.hpp"
#include <forward_list>
#include <functional>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <list>
using uenc::u32;
using Units = std::vector<u32>;

//=== the model, over code units ===//
enum Count
{
    by_unit,
    by_point,
    by_byte
};
struct Model
{
    Units u;
    int   width; // bytes per unit: 1, 2, 4
    Count count;
    int   line = 16;

    struct Col
    {
        long   begin, end, line_begin;
        unsigned line_nr, col_nr;
    };
    std::vector<Col> cols; // every column or newline, and the end of input
    struct Line
    {
        long begin, newline, end;
    };
    std::vector<Line> lines;
    bool              wellformed = true;
    std::vector<bool> boundary; // position is at the start of a code point

    // length of the well-formed code point at i, 0 if there is none
    long cp(size_t i) const
    {
        auto c   = u[i];
        auto con = [&](size_t k) { return k < u.size() && u[k] >= 0x80 && u[k] < 0xC0; };
        if (width == 1)
        {
            if (c < 0x80)
                return 1;
            if (c >= 0xC2 && c < 0xE0)
                return con(i + 1) ? 2 : 0;
            if (c >= 0xE0 && c < 0xF0)
                return con(i + 1) && con(i + 2) && !(c == 0xE0 && u[i + 1] < 0xA0) && !(c == 0xED && u[i + 1] >= 0xA0) ? 3 : 0;
            if (c >= 0xF0 && c < 0xF5)
                return con(i + 1) && con(i + 2) && con(i + 3) && !(c == 0xF0 && u[i + 1] < 0x90) && !(c == 0xF4 && u[i + 1] >= 0x90) ? 4 : 0;
            return 0;
        }
        if (width == 2)
        {
            if (c < 0xD800 || c >= 0xE000)
                return 1;
            return c < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000 ? 2 : 0;
        }
        return c < 0xD800 || (c >= 0xE000 && c < 0x110000) ? 1 : 0;
    }
    void build(bool ascii)
    {
        boundary.assign(u.size() + 1, true);
        for (size_t i = 0; i < u.size();)
        {
            auto n = ascii ? 1 : cp(i);
            if (ascii && u[i] >= 0x80)
                n = 0;
            if (n == 0)
                wellformed = false, n = 1;
            for (long k = 1; k < n; ++k)
                boundary[i + size_t(k)] = false;
            i += size_t(n);
        }
        unsigned ln = 1, cn = 1;
        long     lb = 0;
        for (size_t i = 0; i < u.size();)
        {
            long n  = 1;
            bool nl = false;
            if (count == by_byte)
                nl = long(i) - lb == line - 1;
            else if (u[i] == '\n')
                nl = true;
            else if (u[i] == '\r' && i + 1 < u.size() && u[i + 1] == '\n')
                nl = true, n = 2;
            else if (count == by_point)
                n = ascii ? 1 : std::max(cp(i), 1l);
            cols.push_back({long(i), long(i) + n, lb, ln, cn});
            if (nl)
            {
                lines.push_back({lb, long(i), long(i) + n});
                ++ln, cn = 1, lb = long(i) + n;
            }
            else
                ++cn;
            i += size_t(n);
        }
        cols.push_back({long(u.size()), long(u.size()), lb, ln, cn});
        lines.push_back({lb, long(u.size()), long(u.size())});
    }
    const Col& at(long p) const
    {
        for (auto& c : cols)
            if (c.begin <= p && (p < c.end || c.begin == c.end))
                return c;
        return cols.back();
    }
    struct Ann
    {
        long b, e, ae; // before ends, annotated ends, after ends
        bool trunc, newline, rounded;
    };
    Ann annotate(const Col& c, long e) const
    {
        auto& l = lines[c.line_nr - 1];
        auto  b = c.begin;
        Ann   a{b, 0, 0, false, false, false};
        if (e == b)
            e = b == l.newline ? l.end : b + 1;
        else if (e > l.end)
            e = l.end, a.trunc = true;
        auto old = e;
        while (!boundary[size_t(e)] && e < l.end)
            ++e;
        a.rounded = e != old;
        if (e > l.newline)
            e = l.end, a.newline = true, a.ae = e;
        else
            a.ae = l.newline;
        a.e = e;
        return a;
    }
};
inline std::string show(const Units& u)
{
    std::string r;
    char        b[16];
    for (auto c : u)
        snprintf(b, sizeof b, "%X ", c), r += b;
    return "<" + r + ">";
}
//=== observing ===//
template <typename Counting, typename Input>
inline bool check(const Input& in, const Model& m, const char* what)
{
    using It = typename lexy::input_reader<Input>::iterator;
    std::vector<It> its{in.reader().position()};
    for (size_t i = 0; i < m.u.size(); ++i)
        its.push_back(std::next(its.back()));
    auto idx = [&](It it) {
        for (size_t i = 0; i < its.size(); ++i)
            if (its[i] == it)
                return long(i);
        return -1l;
    };
    auto bad = [&](const std::string& s) {
        vh::fail(std::string(what) + " " + show(m.u) + ": " + s);
        return false;
    };
    using Loc = lexy::input_location<Input, Counting>;
    std::vector<Loc> locs;
    Loc              first(in);
    if (first.line_nr() != 1 || first.column_nr() != 1 || idx(first.position()) != 0)
        return bad("first location");
    auto same = [&](const Loc& l, const Model::Col& c) { return l.line_nr() == c.line_nr && l.column_nr() == c.col_nr && idx(l.position()) == c.begin; };
    for (long p = 0; p <= long(m.u.size()); ++p)
    {
        auto& c   = m.at(p);
        auto  loc = lexy::get_input_location<Counting>(in, its[size_t(p)]);
        if (!same(loc, c))
            return bad("position " + std::to_string(p) + ": expected " + std::to_string(c.line_nr) + ":" + std::to_string(c.col_nr) + " at " + std::to_string(c.begin) + " actual " + std::to_string(loc.line_nr()) + ":" + std::to_string(loc.column_nr()) + " at " + std::to_string(idx(loc.position())));
        // from any anchor
        for (size_t a = 0; a < locs.size(); ++a)
        {
            auto l2 = lexy::get_input_location<Counting>(in, its[size_t(p)], locs[a].anchor());
            if (!same(l2, c))
                return bad("position " + std::to_string(p) + " from the anchor of " + std::to_string(a) + ": " + std::to_string(l2.line_nr()) + ":" + std::to_string(l2.column_nr()));
            // order
            auto& ca = m.at(long(a));
            int   o  = ca.begin < c.begin ? -1 : ca.begin > c.begin ? 1 : 0;
            auto& x  = locs[a];
            if ((x == loc) != (o == 0) || (x != loc) != (o != 0) || (x < loc) != (o < 0) || (x <= loc) != (o <= 0) || (x > loc) != (o > 0) || (x >= loc) != (o >= 0) || (loc < x) != (o > 0) || (loc > x) != (o < 0))
                return bad("order of " + std::to_string(a) + " and " + std::to_string(p));
        }
        auto l3 = lexy::get_input_location<Counting>(in, its[size_t(p)], loc.anchor());
        auto l4 = lexy::get_input_location<Counting>(in, its[size_t(p)], first.anchor());
        auto l5 = lexy::get_input_location<Counting>(in, its[size_t(p)], lexy::input_location_anchor<Input>(in));
        auto l6 = lexy::get_input_location<Counting>(in, loc.position());
        if (!same(l3, c) || !same(l4, c) || !same(l5, c) || !same(l6, c))
            return bad("position " + std::to_string(p) + " from its own or the first anchor");
        locs.push_back(loc);
        vh::transitions(locs.size() + 4);
        // annotations
        for (long e = c.begin; e <= long(m.u.size()) + 2; ++e)
            for (int mode = 0; mode < 2; ++mode)
            {
                bool over = e > long(m.u.size());
                if (mode == 0 && over)
                    continue;
                auto a    = mode == 0 ? lexy::get_input_line_annotation(in, loc, its[size_t(e)]) : lexy::get_input_line_annotation(in, loc, size_t(e - c.begin));
                auto want = m.annotate(c, e);
                auto desc = [&] {
                    return "annotation [" + std::to_string(c.begin) + "," + std::to_string(e) + ")" + (mode ? " by size" : "") + ": before [" + std::to_string(idx(a.before.begin())) + "," + std::to_string(idx(a.before.end())) + ") annotated [" + std::to_string(idx(a.annotated.begin())) + "," + std::to_string(idx(a.annotated.end())) + ") after [" + std::to_string(idx(a.after.begin())) + "," + std::to_string(idx(a.after.end())) + ") truncated " + std::to_string(a.truncated_multiline) + " newline " + std::to_string(a.annotated_newline) + " rounded " + std::to_string(a.rounded_end)
                           + "; expected end " + std::to_string(want.e) + " after end " + std::to_string(want.ae) + std::to_string(want.trunc) + std::to_string(want.newline) + std::to_string(want.rounded);
                };
                vh::transitions(1);
                if (idx(a.before.begin()) != c.line_begin || a.before.end() != loc.position() || a.annotated.begin() != loc.position() || a.after.begin() != a.annotated.end())
                    return bad(desc());
                // where code points are ill-formed, what is rounded to is not specified
                if (m.wellformed)
                {
                    if (idx(a.annotated.end()) != want.e || idx(a.after.end()) != want.ae || a.truncated_multiline != want.trunc || a.annotated_newline != want.newline || a.rounded_end != want.rounded)
                        return bad(desc());
                }
                else
                {
                    auto ae = idx(a.annotated.end()), fe = idx(a.after.end());
                    auto& l = m.lines[c.line_nr - 1];
                    auto  raw = e == c.begin ? (c.begin == l.newline ? l.end : e + 1) : std::min(e, l.end);
                    if (ae < raw || ae > l.end || a.truncated_multiline != want.trunc || (ae > l.newline ? ae != l.end || fe != l.end || !a.annotated_newline : fe != l.newline || a.annotated_newline))
                        return bad(desc());
                    // a well-formed code point is never split
                    if (!m.boundary[size_t(ae)])
                        return bad(desc());
                }
            }
    }
    vh::traces(1);
    vh::outcome(std::string(what) + std::to_string(m.cols.size()) + "," + std::to_string(m.lines.size()) + std::to_string(m.wellformed) + std::to_string(m.cols.back().col_nr));
    return true;
}
template <typename Counting, typename Enc>
inline bool inputs(Model m, const char* what)
{
    using C = typename Enc::char_type;
    m.build(std::is_same_v<Enc, lexy::ascii_encoding> || std::is_same_v<Enc, lexy::default_encoding> || std::is_same_v<Enc, lexy::byte_encoding>);
    std::basic_string<C> s;
    for (auto c : m.u)
        s.push_back(C(c));
    if (!check<Counting>(lexy::string_input<Enc>(s.data(), s.size()), m, what))
        return false;
    if (!check<Counting>(lexy::buffer<Enc>(s.data(), s.size()), m, what))
        return false;
    if (m.u.size() <= 8)
    {
        std::list<C>         l(s.begin(), s.end());
        std::forward_list<C> fl(s.begin(), s.end());
        if (!check<Counting>(lexy::range_input<Enc, typename std::list<C>::const_iterator>(l.cbegin(), l.cend()), m, what))
            return false;
        if (!check<Counting>(lexy::range_input<Enc, typename std::forward_list<C>::const_iterator>(fl.cbegin(), fl.cend()), m, what))
            return false;
    }
    return true;
}
// all sequences of up to n pieces
inline bool sequences(const std::vector<Units>& pieces, int n, const Units& prefix, const std::function<bool(const Units&)>& f)
{
    if (!f(prefix))
        return false;
    if (n == 0)
        return true;
    for (auto& p : pieces)
    {
        auto u = prefix;
        u.insert(u.end(), p.begin(), p.end());
        if (!sequences(pieces, n - 1, u, f))
            return false;
    }
    return true;
}
template <typename Counting, typename Enc>
inline void explore(const char* what, int width, Count c, std::vector<Units> pieces, int quick, int deep)
{
    for (size_t i = 0; i <= pieces.size(); ++i)
        vh::step([&] { return std::string(what) + (i == pieces.size() ? " empty" : " starting with " + show(pieces[i])); },
                 [&] {
                     sequences(pieces, i == pieces.size() ? 0 : (vh::thorough() ? deep + 1 : quick + 1) - 1, i == pieces.size() ? Units{} : pieces[i],
                               [&](const Units& u) { return vh::beat(), inputs<Counting, Enc>(Model{u, width, c}, what); });
                 });
}
using CU = lexy::code_unit_location_counting;
using CP = lexy::code_point_location_counting;
static std::vector<Units> p8()
{
    return {{'a'}, {'\n'}, {'\r'}, {0xC3, 0xA4}, {0xF0, 0x9F, 0x99, 0x82}, {0xE2, 0x82, 0xAC}};
}
static std::vector<Units> bad8()
{
    return {{'a'}, {'\n'}, {'\r'}, {0xC3, 0xA4}, {0x80}, {0xC3}, {0xF0, 0x9F}, {0xE2}};
}
static std::vector<Units> p1()
{
    return {{'a'}, {'\n'}, {'\r'}, {0}};
}
static std::vector<Units> p16()
{
    return {{'a'}, {'\n'}, {'\r'}, {0xE4}, {0xD83D, 0xDE42}, {0xFFFF}, {0x0A0D}};
}
static std::vector<Units> bad16()
{
    return {{'a'}, {'\n'}, {'\r'}, {0xD83D}, {0xDE42}};
}
static std::vector<Units> p32()
{
    return {{'a'}, {'\n'}, {'\r'}, {0x1F642}, {0x0D0A}};
}
static int a0 = parts::add<0>([](auto) { explore<CU, lexy::utf8_char_encoding>("utf8_char by unit", 1, by_unit, p8(), 4, 6); });
static int a1 = parts::add<1>([](auto) { explore<CP, lexy::utf8_char_encoding>("utf8_char by code point", 1, by_point, p8(), 4, 6); });
static int a2 = parts::add<2>([](auto) {
    explore<CP, lexy::utf8_encoding>("utf8 by code point", 1, by_point, p8(), 4, 5);
    explore<CU, lexy::utf8_encoding>("utf8 by unit", 1, by_unit, p8(), 4, 5);
});
static int a3 = parts::add<3>([](auto) {
    explore<CP, lexy::utf8_encoding>("utf8 by code point, ill-formed", 1, by_point, bad8(), 4, 5);
    explore<CU, lexy::utf8_char_encoding>("utf8_char by unit, ill-formed", 1, by_unit, bad8(), 4, 5);
});
static int a4 = parts::add<4>([](auto) {
    explore<CU, lexy::ascii_encoding>("ascii by unit", 1, by_unit, p1(), 6, 8);
    explore<CP, lexy::ascii_encoding>("ascii by code point", 1, by_point, p1(), 6, 8);
});
static int a5 = parts::add<5>([](auto) { explore<CU, lexy::default_encoding>("default by unit", 1, by_unit, {{'a'}, {'\n'}, {'\r'}, {0xE4}}, 6, 8); });
static int a6 = parts::add<6>([](auto) {
    explore<CU, lexy::utf16_encoding>("utf16 by unit", 2, by_unit, p16(), 4, 6);
    explore<CP, lexy::utf16_encoding>("utf16 by code point", 2, by_point, p16(), 4, 6);
    explore<CP, lexy::utf16_encoding>("utf16 by code point, ill-formed", 2, by_point, bad16(), 5, 7);
    explore<CU, lexy::utf16_encoding>("utf16 by unit, ill-formed", 2, by_unit, bad16(), 5, 7);
});
static int a7 = parts::add<7>([](auto) {
    explore<CU, lexy::utf32_encoding>("utf32 by unit", 4, by_unit, p32(), 5, 7);
    explore<CP, lexy::utf32_encoding>("utf32 by code point", 4, by_point, p32(), 5, 7);
    explore<CP, lexy::utf32_encoding>("utf32 by code point, ill-formed", 4, by_point, {{'a'}, {'\n'}, {0x110000}, {0xD800}, {'\r'}}, 5, 7);
});
// bytes: only the length matters
template <std::size_t W>
inline void bytes()
{
    vh::step([] { return "bytes in lines of " + std::to_string(W); }, [] {
        for (size_t n = 0; n <= 3 * W + 3 && n <= 100; ++n)
        {
            Units u;
            for (size_t i = 0; i < n; ++i)
                u.push_back(u32("a\n\r\xFF\x80"[i % 5]) & 255);
            if (!inputs<lexy::byte_location_counting<W>, lexy::byte_encoding>(Model{u, 1, by_byte, int(W)}, "bytes"))
                return;
        }
    });
}
static int b0 = parts::add<8>([](auto) {
    bytes<1>();
    bytes<2>();
    bytes<3>();
    bytes<4>();
    bytes<15>();
    bytes<16>();
    bytes<17>();
    bytes<32>();
});
// default counting
static int b1 = parts::add<9>([](auto) {
    vh::step([] { return "default counting"; }, [] {
        for (size_t n = 0; n <= 50; ++n)
        {
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s.push_back(i % 7 == 6 ? '\n' : char(0xC3 - i));
            auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
            auto bi = lexy::string_input<lexy::byte_encoding>(s.data(), s.size());
            for (size_t p = 0; p <= n; ++p)
            {
                auto a = lexy::get_input_location(in, s.data() + p);
                auto b = lexy::get_input_location(in, s.data() + p, lexy::get_input_location(in, s.data() + p / 2).anchor());
                if (a.line_nr() != p / 7 + 1 || a.column_nr() != p % 7 + 1 || a != b)
                    return vh::fail("text " + std::to_string(p));
                auto q = reinterpret_cast<const unsigned char*>(s.data());
                auto c = lexy::get_input_location(bi, q + p);
                auto d = lexy::get_input_location(bi, q + p, lexy::get_input_location(bi, q + p / 2).anchor());
                if (c.line_nr() != p / 16 + 1 || c.column_nr() != p % 16 + 1 || c != d)
                    return vh::fail("bytes " + std::to_string(p));
                vh::transitions(4);
            }
            vh::traces(2);
        }
    });
    // many and long lines
    vh::step([] { return "many and long lines"; }, [] {
        for (int len : {0, 1, 255, 256, 1000})
            for (int lines : {1, 2, 255, 256, 257, 1000})
            {
                std::string s;
                for (int i = 0; i < lines; ++i)
                    s += std::string(size_t(len), 'x') + (i % 2 ? "\r\n" : "\n");
                auto in   = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
                auto anch = lexy::input_location_anchor(in);
                vh::beat();
                size_t   p = 0;
                for (int i = 0; i < lines; ++i)
                {
                    for (int k : {0, len / 2, len})
                    {
                        auto l = lexy::get_input_location(in, s.data() + p + size_t(k), anch);
                        if (int(l.line_nr()) != i + 1 || int(l.column_nr()) != k + 1)
                            return vh::fail("line " + std::to_string(i));
                        anch = l.anchor();
                    }
                    p += size_t(len) + (i % 2 ? 2 : 1);
                    if (i == lines - 1)
                    {
                        auto l = lexy::get_input_location(in, s.data() + p);
                        if (int(l.line_nr()) != lines + 1 || l.column_nr() != 1)
                            return vh::fail("end");
                    }
                }
                vh::transitions(uint64_t(lines) * 3);
                vh::traces(1);
            }
    });
    // counts and ranges beyond 8 and 16 bits
    vh::step([] { return "beyond 16 bits"; }, [] {
        for (size_t at : {254u, 255u, 256u, 257u, 511u, 512u, 32767u, 32768u, 65534u, 65535u, 65536u, 65537u, 70000u, 131072u})
        {
            vh::beat();
            // as many empty lines
            auto s  = std::string(at, '\n') + "abc\ndef";
            auto in = lexy::string_input<lexy::utf8_char_encoding>(s.data(), s.size());
            auto l  = lexy::get_input_location<CU>(in, s.data() + at + 1);
            auto l2 = lexy::get_input_location<CP>(in, s.data() + at + 5, lexy::get_input_location<CP>(in, s.data() + at / 2).anchor());
            if (l.line_nr() != at + 1 || l.column_nr() != 2 || l2.line_nr() != at + 2 || l2.column_nr() != 2)
                return vh::fail(std::to_string(at) + " lines");
            auto first = lexy::get_input_location<CU>(in, s.data());
            if (!(first < l) || first == l)
                return vh::fail("order after " + std::to_string(at) + " lines");
            // a line of as many code points of two units, ranges from near its start to near its end
            std::string w = "x\ny";
            for (size_t i = 0; i < at; ++i)
                w += "\xC3\xA4";
            w += "z\r\nend";
            auto wi = lexy::buffer<lexy::utf8_char_encoding>(w.data(), w.size());
            auto d  = wi.data();
            auto eol = 3 + 2 * at;
            auto lu = lexy::get_input_location<CU>(wi, d + eol);
            auto lp = lexy::get_input_location<CP>(wi, d + eol);
            if (lu.line_nr() != 2 || lu.column_nr() != 2 * at + 2 || lp.line_nr() != 2 || lp.column_nr() != at + 2 || lu.position() != d + eol || lp.position() != d + eol)
                return vh::fail("column behind " + std::to_string(at) + " characters: " + std::to_string(lu.column_nr()) + " " + std::to_string(lp.column_nr()));
            for (size_t b : {size_t(2), size_t(3), eol - 2, eol})
            {
                auto loc = lexy::get_input_location<CP>(wi, d + b);
                for (size_t e : {b, b + 1, b + 255, b + 256, b + 257, b + 65535, b + 65536, b + 65537, eol - 1, eol, eol + 1, eol + 2, eol + 3, eol + 4, eol + 70000})
                    for (int mode = 0; mode < 2; ++mode)
                    {
                        if (e < b || (mode == 0 && e > w.size()))
                            continue;
                        auto a = mode ? lexy::get_input_line_annotation(wi, loc, e - b) : lexy::get_input_line_annotation(wi, loc, d + e);
                        // what is annotated: at least one unit, at most the line, whole code points
                        size_t nl = eol + 1, end = nl + 2, want = e == b ? (b == nl ? end : b + 1) : std::min(e, end);
                        bool   trunc = e > end;
                        if (want < nl && want > 3 && want < eol && (want - 3) % 2 == 1)
                            ++want;
                        bool annl = want > nl;
                        if (annl)
                            want = end;
                        if (a.before.begin() != d + 2 || a.before.end() != d + b || a.annotated.begin() != d + b || a.annotated.end() != d + want || a.after.begin() != d + want || a.after.end() != d + (annl ? end : nl) || a.annotated_newline != annl || a.truncated_multiline != trunc)
                            return vh::fail("annotation of [" + std::to_string(b) + "," + std::to_string(e) + ") in a line of " + std::to_string(at) + " characters covers [" + std::to_string(a.annotated.begin() - d) + "," + std::to_string(a.annotated.end() - d) + ") expected end " + std::to_string(want));
                        vh::transitions(1);
                    }
            }
            vh::traces(2);
            vh::outcome("big" + std::to_string(at));
        }
        // bytes
        std::string z(70000 * 16, '\0');
        auto        bi = lexy::string_input<lexy::byte_encoding>(z.data(), z.size());
        auto        q  = reinterpret_cast<const unsigned char*>(z.data());
        for (size_t p : {4095u, 4096u, 65535u, 65536u, 1048575u, 1048576u, 1048592u, 1120000u})
        {
            auto l = lexy::get_input_location(bi, q + p);
            if (l.line_nr() != p / 16 + 1 || l.column_nr() != p % 16 + 1)
                return vh::fail("byte " + std::to_string(p));
            auto m = lexy::get_input_location<lexy::byte_location_counting<70001>>(bi, q + p);
            if (m.line_nr() != p / 70001 + 1 || m.column_nr() != p % 70001 + 1)
                return vh::fail("byte " + std::to_string(p) + " in long lines: " + std::to_string(m.line_nr()) + ":" + std::to_string(m.column_nr()));
        }
    });
    // the iterator of command line arguments
    vh::step([] { return "command line arguments"; }, [] {
        char  a0[] = "prog", a1[] = "a\nb", a2[] = "", a3[] = "c\r\nd\n";
        char* argv[] = {a0, a1, a2, a3, nullptr};
        auto  in     = lexy::argv_input<lexy::utf8_char_encoding>(4, argv);
        Units u;
        for (auto c : std::string("a\nb\0\0c\r\nd\n", 10))
            u.push_back(u32(c));
        Model m{u, 1, by_unit};
        m.build(false);
        Model n{u, 1, by_point};
        n.build(false);
        check<CU>(in, m, "arguments by unit") && check<CP>(in, n, "arguments by code point");
    });
});
PARTS_MAIN
