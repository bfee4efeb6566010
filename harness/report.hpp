// Reference for lexy_ext::report_error: the text of a report, from the code units and positions.
#ifndef REPORT_HPP
#define REPORT_HPP
#include "viz.hpp"
#include <algorithm>
namespace report
{
using viz::E;
using viz::O;
using viz::u32;
struct Input
{
    E                e;
    std::vector<u32> u;
};
struct Line
{
    long nr, begin, end, next; // [begin,end) text, [end,next) newline
};
// The line a position is in; a position inside of \r\n belongs to that newline.
inline Line line_of(const Input& in, long pos)
{
    long n = long(in.u.size());
    Line l{1, 0, 0, 0};
    while (true)
    {
        l.end = l.begin;
        if (in.e == viz::e_byte)
        {
            l.end  = std::min(n, l.begin + 15);
            l.next = std::min(n, l.begin + 16);
        }
        else
        {
            auto at = [&](long i, u32 c) { return i < n && in.u[std::size_t(i)] == c; };
            while (l.end < n && !at(l.end, '\n') && !(at(l.end, '\r') && at(l.end + 1, '\n')))
                ++l.end;
            l.next = l.end == n ? n : at(l.end, '\n') ? l.end + 1 : l.end + 2;
        }
        if (pos < l.next || l.end == l.next)
            return l;
        ++l.nr;
        l.begin = l.next;
    }
}
inline bool continues(const Input& in, long i)
{
    u32 c = in.u[std::size_t(i)];
    return in.e == viz::e_utf8 ? (c & 0xC0) == 0x80 : in.e == viz::e_utf16 ? c >= 0xDC00 && c < 0xE000 : false;
}
struct Mark
{
    Line l;
    long begin, end, after_end;
    bool eof; // one more underline after the end of the text
};
// [begin, end), or size units when end < 0
inline Mark mark(const Input& in, long pos, long end, long size = 0)
{
    Mark m{line_of(in, pos), pos, 0, 0, false};
    // inside of a newline: the whole newline
    if (in.e != viz::e_byte && m.begin > m.l.end)
        m.begin = m.l.end;
    bool cut = false;
    if (end >= 0)
    {
        cut = end > m.l.next;
        if (end == m.begin)
            end = end == m.l.end ? m.l.next : std::min(end + 1, m.l.next);
    }
    else
    {
        end = m.begin + std::max(size, 1L);
        cut = m.begin + size > m.l.next;
    }
    end = std::min(end, m.l.next);
    while (end < m.l.next && continues(in, end))
        ++end;
    bool newline = end > m.l.end;
    if (newline)
        end = m.l.next;
    m.end       = end;
    m.after_end = std::max(end, m.l.end);
    m.eof       = cut && !newline;
    return m;
}
inline std::string part(const O& o, const Input& in, long a, long b)
{
    return viz::lex(o, in.e, std::vector<u32>(in.u.begin() + a, in.u.begin() + b));
}
inline std::string bar(const O& o)
{
    return o.uni ? "\xE2\x94\x82" : "|";
}
inline O plain(O o)
{
    o.col = false;
    return o;
}
inline std::string annotation(const O& o, const Input& in, bool primary, const Mark& m, const std::string& msg)
{
    auto nr = std::to_string(m.l.nr);
    while (nr.size() < 4)
        nr = " " + nr;
    auto before = part(o, in, m.l.begin, m.begin), marked = part(plain(o), in, m.begin, m.end),
         after = part(o, in, m.end, m.after_end);
    std::string code = primary ? "31;1" : "33", r;
    r += viz::style(o, "34", nr + " ") + bar(o) + " ";
    r += before + viz::style(o, code.c_str(), marked) + after + "\n";
    r += "     " + bar(o) + " ";
    r += std::string(viz::width(part(plain(o), in, m.l.begin, m.begin)), ' ');
    auto n = viz::width(marked);
    r += viz::style(o, code.c_str(), std::string(n == 0 ? 1 : n + m.eof, primary ? '^' : '~') + " " + msg + "\n");
    return r;
}
struct Err
{
    std::string what;           // the message of the annotation
    long        begin, end, size; // end < 0: size units
    std::string production;
    long        context;
};
inline std::string error(const O& o, const Input& in, const Err& e, const char* path = nullptr)
{
    std::string r = viz::style(o, "31;1", "error: ") + "while parsing " + e.production + "\n";
    if (path)
        r += viz::style(o, "34", path) + "\n";
    r += "     " + bar(o) + "\n";
    auto cl = line_of(in, e.context), el = line_of(in, e.begin);
    if (cl.nr != el.nr)
        r += annotation(o, in, false, mark(in, e.context, e.context + 1), "beginning here") + "     " + bar(o) + "\n";
    return r + annotation(o, in, true, mark(in, e.begin, e.end, e.size), e.what);
}
} // namespace report
#endif
