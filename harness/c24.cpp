// C24: error reports, for every error at every place of every text.
#include "parts.hpp"
#include "report.hpp"
#include "uenc.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy_ext/report_error.hpp>
#include <list>
#include <sys/mman.h>
namespace
{
namespace dsl = lexy::dsl;
using namespace viz;
using report::Err;
using report::Input;

struct Prod
{
    static constexpr auto name = "the production";
    static constexpr auto rule = dsl::any;
};
struct tag_named
{
    static constexpr auto name = "a named error";
};
struct tag_plain
{};
struct Out
{
    std::string* s;
    Out&         operator*()
    {
        return *this;
    }
    Out& operator++(int)
    {
        return *this;
    }
    Out& operator=(char c)
    {
        s->push_back(c);
        return *this;
    }
};
// plain pointers: every write has to go through the returned iterator
inline char* scratch()
{
    static std::vector<char> v(1 << 20);
    return v.data();
}

template <typename Enc, E e>
struct Texts
{
    using C = typename Enc::char_type;
    static std::vector<u32> units(const uenc::Text& t)
    {
        std::vector<u32> r;
        if constexpr (std::is_same_v<Enc, lexy::default_encoding> || std::is_same_v<Enc, lexy::byte_encoding>
                      || std::is_same_v<Enc, lexy::ascii_encoding>)
        {
            for (auto c : t)
                r.push_back(c > 0x7F ? 0xE9u : u32(c));
        }
        else
            for (auto c : uenc::to<C>(t))
                r.push_back(u32(std::make_unsigned_t<C>(c)));
        return r;
    }
    static std::string show_units(const std::vector<u32>& u)
    {
        std::string s;
        for (auto c : u)
            s += c >= 0x20 && c < 0x7F ? std::string(1, char(c)) : "<" + hex(c, 2) + ">";
        return "\"" + s + "\"";
    }
    template <typename In, typename It, typename Error>
    static void one(const In& in, It ctx, const Error& err, const O& o, const Input& m, const Err& want, const char* path)
    {
        // In may be a lexeme_input, whose context refers to the parent
        lexy::error_context<In> c(lexy::production_info(Prod{}), in, ctx);
        auto                    buf  = scratch();
        auto                    text = report::error(o, m, want, path);
        auto                    cb   = lexy_ext::report_error.opts(real(o)).path(path).to(buf);
        auto                    sink = cb.sink();
        buf[text.size() + 1]         = 'Z';
        sink(c, err);
        auto n = std::move(sink).finish();
        text += "\n";
        if (n != 1)
            vh::fail("reported errors: " + std::to_string(n));
        if (std::memcmp(buf, text.data(), text.size()) != 0)
            vh::fail("expected " + q(text) + " actual " + q(std::string(buf, text.size())));
        vh::check(buf[text.size()] == 'Z', "more is written");
        vh::traces(1);
    }
    // all errors on one text
    template <typename In, typename F>
    static void errors(const In& in, F at, const Input& m, const std::vector<O>& os, long lo, long hi, bool all_ends)
    {
        using R = lexy::input_reader<In>;
        static constexpr C lits[] = {C('l'), C('\n'), C('\\'), C('m'), C(0)};
        std::string        littext[2];
        for (long ctx = lo; ctx <= hi; ++ctx)
            for (long b = ctx; b <= hi; ++b)
            {
                // An error does not start in the middle of a code point.
                if (b < long(m.u.size()) && report::continues(m, b))
                    continue;
                for (auto& o : os)
                {
                    auto pl = report::plain(o);
                    for (long x = b; x <= hi; ++x)
                    {
                        if (!all_ends && x > b + 2 && x != hi)
                            continue;
                        one(in, at(ctx), lexy::error<R, tag_named>(at(b), at(x)), o, m, {"a named error", b, x, 0, "the production", ctx}, nullptr);
                        one(in, at(ctx), lexy::error<R, lexy::expected_keyword>(at(b), at(x), lits, std::size_t(4)), o, m,
                            {"expected keyword '" + lex(pl, e, {'l', '\n', '\\', 'm'}) + "'", b, x, 0, "the production", ctx}, "a/path");
                    }
                    one(in, at(ctx), lexy::error<R, tag_plain>(at(b)), o, m,
                        {lexy::error<R, tag_plain>(at(b)).message(), b, b, 0, "the production", ctx}, nullptr);
                    one(in, at(ctx), lexy::error<R, void>(at(b), at(hi), "custom"), o, m, {"custom", b, hi, 0, "the production", ctx}, "");
                    one(in, at(ctx), lexy::error<R, lexy::expected_char_class>(at(b), "class name"), o, m,
                        {"expected class name", b, -1, 1, "the production", ctx}, nullptr);
                    for (std::size_t len = 1; len <= 4; ++len)
                        for (std::size_t i = 0; i < len; ++i)
                        {
                            std::vector<u32> l{'l', '\n', '\\', 'm'};
                            l.resize(len);
                            one(in, at(ctx), lexy::error<R, lexy::expected_literal>(at(b), lits, i, len), o, m,
                                {"expected '" + lex(pl, e, l) + "'", b, -1, long(i) + 1, "the production", ctx}, nullptr);
                        }
                    if constexpr (!std::is_same_v<In, lexy::lexeme_input<lexy::string_input<Enc>>>)
                        annotations(in, at, m, o, b, hi);
                }
            }
    }
    template <typename In, typename F>
    static void annotations(const In& in, F at, const Input& m, const O& o, long b, long hi)
    {
        lexy_ext::diagnostic_writer<In> w(in, real(o));
        auto                            loc = lexy::get_input_location(in, at(b));
        for (int prim = 0; prim < 2; ++prim)
            for (int mode = 0; mode < 2; ++mode)
                for (long n = 0; n <= (mode ? 6 : hi - b); ++n)
                {
                    bool        color_off = true;
                    auto        msg = [&](char* out, lexy::visualization_options mo) {
                        color_off = !mo.is_set(lexy::visualize_use_color);
                        for (char c : {'m', 's', 'g'})
                            *out++ = c;
                        return out;
                    };
                    auto kind = prim ? lexy_ext::annotation_kind::primary : lexy_ext::annotation_kind::secondary;
                    auto end  = mode ? w.write_annotation(scratch(), kind, loc, std::size_t(n), msg)
                                     : w.write_annotation(scratch(), kind, loc, at(b + n), msg);
                    vh::eq("annotation", q(report::annotation(o, m, prim, mode ? report::mark(m, b, -1, n) : report::mark(m, b, b + n), "msg")),
                           q(std::string(scratch(), end)));
                    vh::check(color_off, "the message of an annotation is not told to use color");
                    vh::traces(1);
                }
    }
    static void text(const std::vector<u32>& u, const std::vector<O>& os, bool all_ends)
    {
        vh::step([&] { return "text " + show_units(u); },
                 [&] {
                     static vh::Guard g(1 << 16);
                     auto             p = g.template tail<C>(u.size());
                     for (std::size_t i = 0; i < u.size(); ++i)
                         p[i] = C(u[i]);
                     Input m{e, u};
                     auto  n  = long(u.size());
                     auto  in = lexy::string_input<Enc>(p, p + n);
                     errors(in, [&](long i) { return p + i; }, m, os, 0, n, all_ends);
                     vh::transitions(u.size() + 1);
                     vh::outcome(show_units(u));
                     std::vector<O> few{os[0], os.back()};
                     if (n <= 4)
                     {
                         std::list<C> l(p, p + n);
                         auto         li = lexy::range_input<Enc, typename std::list<C>::iterator>(l.begin(), l.end());
                         errors(li, [&](long i) { return std::next(l.begin(), i); }, m, few, 0, n, all_ends);
                         lexy::buffer<Enc> buf(p, std::size_t(n));
                         errors(buf, [&](long i) { return buf.data() + i; }, m, few, 0, n, all_ends);
                         // inputs that are a part of the text
                         for (long a = 0; a <= n; ++a)
                             for (long b = a; b <= n; ++b)
                             {
                                 lexy::lexeme_input<lexy::string_input<Enc>> part(in, p + a, p + b);
                                 errors(part, [&](long i) { return p + i; }, m, {os[0]}, a, b, false);
                             }
                     }
                 });
    }
    static void run(const uenc::Text& alphabet, int n)
    {
        std::vector<O> os;
        for (unsigned f : {0u, 7u, 9u})
            os.push_back(opt(f, 0, f == 9 ? 4 : 0));
        if (vh::thorough())
            for (unsigned f : {1u, 2u, 4u, 15u})
                os.push_back(opt(f, f == 1 ? 2 : 0, f == 2 ? 1 : 0));
        os.push_back(opt(5, 2, 0));
        // '|' stands for \r\n
        uenc::all(alphabet, n, [&](const uenc::Text& t) {
            uenc::Text x;
            for (auto c : t)
                if (c == U'|')
                    x += U"\r\n";
                else
                    x.push_back(c);
            text(units(x), os, int(t.size()) < n || vh::thorough());
        });
        // many lines, long lines
        for (int lines : {8, 9, 10, 98, 99, 100, 998, 999, 9998, 9999, 10000})
            vh::step([&] { return std::to_string(lines) + " lines"; },
                     [&] {
                         uenc::Text t;
                         for (int i = 0; i < lines; ++i)
                             t += U"x\n";
                         t += U"yz\n";
                         auto           u = units(t);
                         std::vector<C> v(u.begin(), u.end());
                         Input          m{e, u};
                         auto           in = lexy::string_input<Enc>(v.data(), v.size());
                         auto           R0 = lexy::error<lexy::input_reader<decltype(in)>, tag_named>(v.data() + v.size() - 3, v.data() + v.size() - 1);
                         for (auto& o : os)
                             for (long ctx : {0L, long(v.size()) - 5, long(v.size()) - 3})
                                 one(in, v.data() + ctx, R0, o, m, {"a named error", long(v.size()) - 3, long(v.size()) - 1, 0, "the production", ctx}, "p");
                     });
        for (int len : {14, 15, 16, 17, 31, 32, 33, 300})
            vh::step([&] { return "line of " + std::to_string(len); },
                     [&] {
                         uenc::Text t(std::size_t(len), U'q');
                         t[3] = U'\t', t[7] = U'\\', t[9] = 0xE9;
                         t += U"\nab";
                         auto           u = units(t);
                         std::vector<C> v(u.begin(), u.end());
                         Input          m{e, u};
                         auto           in = lexy::string_input<Enc>(v.data(), v.size());
                         for (auto& o : os)
                             for (long b = 0; b <= long(v.size()); ++b)
                                 for (long x : {b, b + 1, b + 5, long(v.size())})
                                     if (x <= long(v.size()) && (b == long(v.size()) || !report::continues(m, b)))
                                         one(in, v.data(), lexy::error<lexy::input_reader<decltype(in)>, tag_named>(v.data() + b, v.data() + x), o, m,
                                             {"a named error", b, x, 0, "the production", 0}, nullptr);
                     });
    }
};

//=== messages, paths, counts ===//
void run_writer(int)
{
    std::string text  = "ab\ncd";
    auto        input = lexy::string_input<lexy::utf8_char_encoding>(text.data(), text.size());
    for (unsigned f = 0; f < 16; ++f)
        vh::step([&] { return "messages with " + show(opt(f)); },
                 [&] {
                     auto                                       o = opt(f);
                     lexy_ext::diagnostic_writer<decltype(input)> w(input, real(o));
                     struct
                     {
                         lexy_ext::diagnostic_kind k;
                         const char *              name, *code;
                     } kinds[] = {{lexy_ext::diagnostic_kind::error, "error: ", "31;1"},   {lexy_ext::diagnostic_kind::warning, " warn: ", "33;1"},
                                  {lexy_ext::diagnostic_kind::note, " note: ", "1"},       {lexy_ext::diagnostic_kind::info, " info: ", "1"},
                                  {lexy_ext::diagnostic_kind::debug, "debug: ", "1"},      {lexy_ext::diagnostic_kind::fixit, "fixit: ", "1"},
                                  {lexy_ext::diagnostic_kind::help, " help: ", "1"}};
                     for (auto& k : kinds)
                     {
                         bool same = false;
                         auto msg  = [&](auto out, lexy::visualization_options mo) {
                             same   = mo.flags == real(o).flags;
                             *out++ = 'x';
                             *out++ = 'y';
                             return out;
                         };
                         auto want = style(o, k.code, k.name) + "xy\n";
                         auto e    = w.write_message(scratch(), k.k, msg);
                         vh::eq("message", q(want), q(std::string(scratch(), e)));
                         vh::check(same, "the message gets the options");
                         std::string s;
                         w.write_message(std::back_inserter(s), k.k, msg);
                         vh::eq("message", q(want), q(s));
                         vh::traces(1);
                     }
                     for (const char* p : {"", "a", "dir/file.txt", "with space\\and\tmore"})
                     {
                         auto e = w.write_path(scratch(), p);
                         vh::eq("path", q(style(o, "34", p) + "\n"), q(std::string(scratch(), e)));
                     }
                     auto e = w.write_empty_annotation(scratch());
                     vh::eq("empty annotation", q("     " + report::bar(o) + "\n"), q(std::string(scratch(), e)));
                 });
    // any number of errors in one report; every way to configure it
    for (int n = 0; n <= 4; ++n)
        for (int order = 0; order < 6; ++order)
            vh::step([&] { return std::to_string(n) + " errors, order " + std::to_string(order); },
                     [&] {
                         std::string s;
                         auto        o    = opt(n == 3 ? 7 : 0);
                         auto        path = n % 2 ? "p" : nullptr;
                         using R          = lexy::input_reader<decltype(input)>;
                         Input m{e_utf8, {'a', 'b', '\n', 'c', 'd'}};
                         lexy::error_context<decltype(input)> c(lexy::production_info(Prod{}), input, text.data() + 1);
                         std::string                          want;
                         auto                                 go = [&](auto cb) {
                             auto sink = cb.sink();
                             for (int i = 0; i < n; ++i)
                             {
                                 sink(c, lexy::error<R, tag_named>(text.data() + 1 + i, text.data() + 5));
                                 want += report::error(o, m, {"a named error", 1 + i, 5, 0, "the production", 1}, path);
                             }
                             if (n)
                                 want += "\n";
                             auto r = std::move(sink).finish();
                             vh::check(r == std::size_t(n), "number of reported errors");
                             vh::eq("report", q(want), q(s));
                         };
                         auto base = lexy_ext::report_error;
                         switch (order)
                         {
                         case 0: go(base.to(Out{&s}).opts(real(o)).path(path)); break;
                         case 1: go(base.to(Out{&s}).path(path).opts(real(o))); break;
                         case 2: go(base.opts(real(o)).to(Out{&s}).path(path)); break;
                         case 3: go(base.opts(real(o)).path(path).to(Out{&s})); break;
                         case 4: go(base.path(path).to(Out{&s}).opts(real(o))); break;
                         case 5: go(base.path("other").path(path).opts(real(opt(1))).opts(real(o)).to(std::back_inserter(s)).to(Out{&s})); break;
                         }
                         vh::traces(1);
                     });
    vh::step([] { return "stderr by default"; },
             [&] {
                 std::fflush(stderr);
                 int keep = dup(2), mem = memfd_create("c24", 0);
                 dup2(mem, 2);
                 using R = lexy::input_reader<decltype(input)>;
                 Input                                m{e_utf8, {'a', 'b', '\n', 'c', 'd'}};
                 lexy::error_context<decltype(input)> c(lexy::production_info(Prod{}), input, text.data());
                 auto                                 sink = lexy_ext::report_error.sink();
                 sink(c, lexy::error<R, tag_named>(text.data() + 3, text.data() + 4));
                 std::move(sink).finish();
                 std::fflush(stderr);
                 dup2(keep, 2);
                 close(keep);
                 std::string want = report::error(opt(0), m, {"a named error", 3, 4, 0, "the production", 0}) + "\n";
                 std::string got(want.size() + 10, 0);
                 got.resize(std::size_t(pread(mem, &got[0], got.size(), 0)));
                 close(mem);
                 vh::eq("stderr", q(want), q(got));
             });
}

//=== error objects ===//
void run_objects(int)
{
    static const char text[] = "0123456789";
    using In                 = lexy::string_input<lexy::utf8_char_encoding>;
    using Li                 = lexy::lexeme_input<In>;
    using R                  = lexy::input_reader<In>;
    using R2                 = lexy::input_reader<Li>; // same iterator, another reader
    In in(text, 10);
    for (int b = 0; b <= 10; ++b)
        for (int x = b; x <= 10; ++x)
            vh::step([&] { return "error objects [" + std::to_string(b) + "," + std::to_string(x) + ")"; },
                     [&] {
                         auto p = text + b, e = text + x;
                         auto range = [&](const auto& err, const char* msg) {
                             vh::check(err.position() == p && err.begin() == p && err.end() == e, "range of the error");
                             vh::eq("message", msg, err.message());
                         };
                         lexy::error<R, tag_named> g(p, e);
                         range(g, "a named error");
                         lexy::error<R2, tag_named> g2 = g;
                         range(g2, "a named error");
                         const lexy::error<R, void>& ge = g;
                         range(ge, "a named error");
                         lexy::error<R2, void> ge2 = ge;
                         range(ge2, "a named error");
                         lexy::error<R, void> gm(p, e, "text");
                         range(gm, "text");
                         lexy::error<R2, void> gm2 = gm;
                         range(gm2, "text");
                         vh::check(ge.is<tag_named>() && ge2.is(tag_named{}) && !ge.is<tag_plain>() && !gm.is<tag_named>(), "is()");
                         vh::check(lexy::error<R, tag_plain>(p, e).is<tag_plain>() && !lexy::error<R, tag_plain>(p, e).is<tag_named>(), "is()");
                         for (int k = 0; k < 2; ++k)
                         {
                             lexy::error<R, tag_named> s(p);
                             lexy::error<R, void>      sm(p, "text");
                             vh::check(s.position() == p && s.begin() == p && s.end() == p, "range of an error at a position");
                             vh::check(sm.position() == p && sm.begin() == p && sm.end() == p, "range of an error at a position");
                             lexy::error<R2, tag_named> s2 = s;
                             vh::check(s2.position() == p && s2.begin() == p && s2.end() == p, "range of a converted error");
                         }
                         static const char str[] = "literal";
                         for (std::size_t i = 0; i < 7; ++i)
                             for (std::size_t n = i + 1; n <= 7; ++n)
                             {
                                 lexy::error<R, lexy::expected_literal>  l(p, str, i, n);
                                 lexy::error<R2, lexy::expected_literal> l2 = l;
                                 auto                                    chk = [&](const auto& l) {
                                     vh::check(l.position() == p && l.string() == str && l.index() == i && l.length() == n && l.character() == str[i],
                                               "data of expected_literal");
                                 };
                                 chk(l), chk(l2);
                                 lexy::error<R, lexy::expected_keyword>  k(p, e, str, n);
                                 lexy::error<R2, lexy::expected_keyword> k2 = k;
                                 auto                                    chk2 = [&](const auto& k) {
                                     vh::check(k.position() == p && k.begin() == p && k.end() == e && k.string() == str && k.length() == n,
                                               "data of expected_keyword");
                                 };
                                 chk2(k), chk2(k2);
                             }
                         lexy::error<R, lexy::expected_char_class>  c(p, str);
                         lexy::error<R2, lexy::expected_char_class> c2 = c;
                         vh::check(c.position() == p && c.name() == str && c2.position() == p && c2.name() == str, "data of expected_char_class");
                         lexy::error_context<In> cx(lexy::production_info(Prod{}), in, p);
                         vh::check(&cx.input() == &in && cx.position() == p && std::string(cx.production()) == "the production", "context");
                         Li                      li(in, p, e);
                         lexy::error_context<Li> lx(lexy::production_info(Prod{}), li, e);
                         vh::check(&lx.input() == &li.parent_input() && lx.input().data() == text && lx.input().size() == 10 && lx.position() == e, "context of a part of an input");
                         vh::traces(1);
                     });
}


[[maybe_unused]] int reg[] = {
    parts::add<0>([](auto) { Texts<lexy::utf8_char_encoding, e_utf8>::run(U"a\n\t|\u00E9\U0001F600", vh::thorough() ? 5 : 4); }),
    parts::add<1>([](auto) { Texts<lexy::utf8_encoding, e_utf8>::run(U"a\n\u00E9", vh::thorough() ? 5 : 4); }),
    parts::add<2>([](auto) { Texts<lexy::utf16_encoding, e_utf16>::run(U"a\n|\u00E9\U0001F600", vh::thorough() ? 4 : 3); }),
    parts::add<3>([](auto) { Texts<lexy::utf32_encoding, e_utf32>::run(U"a\n|\U0001F600", vh::thorough() ? 5 : 4); }),
    parts::add<4>([](auto) { Texts<lexy::default_encoding, e_text>::run(U"a\n\r\\\u00E9", vh::thorough() ? 5 : 4); }),
    parts::add<5>([](auto) { Texts<lexy::ascii_encoding, e_text>::run(U"a\n| ", vh::thorough() ? 5 : 4); }),
    parts::add<6>([](auto) { Texts<lexy::byte_encoding, e_byte>::run(U"a\n\u00E9", vh::thorough() ? 5 : 3); }),
    parts::add<7>([](auto) { run_writer(0); }),
    parts::add<8>([](auto) { run_objects(0); }),
};
} // namespace
PARTS_MAIN
