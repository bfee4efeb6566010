// C30: the interactive shell delivers exactly the typed text.
#include "parts.hpp"
#include <algorithm>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy_ext/shell.hpp>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace
{
using Text = std::u32string;
std::string show(const Text& t)
{
    std::string r;
    for (std::size_t i = 0; i < t.size() && i < 40; ++i)
        r += t[i] == U'\n' ? std::string("\\n") : t[i] == 0 ? std::string("\\0") : std::string(1, char(t[i]));
    return "\"" + r + "\"" + (t.size() > 40 ? "..#" + std::to_string(t.size()) : "");
}
// What the user types and what the prompt was asked to do.
struct User
{
    Text text;
    std::size_t at = 0;
    bool open = true;
    bool close_early = false; // closes together with the last character, or when asked for more
    int  primary = 0, cont = 0, eof = 0, lines = 0, done = 0;
};
template <typename E>
struct Prompt
{
    using encoding = E;
    using C        = typename E::char_type;
    User* u;
    void  primary_prompt() { ++u->primary; }
    void  continuation_prompt() { ++u->cont; }
    void  eof_prompt() { ++u->eof; }
    bool  is_open() const { return u->open; }
    struct read_line_callback
    {
        User*       u;
        std::size_t operator()(C* buffer, std::size_t size)
        {
            std::size_t n = 0;
            while (n < size)
            {
                if (u->at == u->text.size())
                {
                    u->open = false;
                    break;
                }
                auto c      = u->text[u->at++];
                buffer[n++] = C(c);
                if (c == U'\n')
                    break;
            }
            if (u->close_early && u->at == u->text.size())
                u->open = false;
            return n;
        }
        void done() && { ++u->done; }
    };
    auto read_line()
    {
        ++u->lines;
        return read_line_callback{u};
    }
    struct write_message_callback
    {
        std::basic_string<C>* out;
        bool*                 done_;
        void operator()(const C* p, std::size_t n) { out->append(p, n); }
        void done() && { *done_ = true; }
    };
    std::basic_string<C>* out = nullptr;
    bool*                 written = nullptr;
    auto write_message()
    {
        return write_message_callback{out, written};
    }
};

// The model: the text typed since the last primary prompt, and how much of it was requested.
struct Model
{
    Text        text;
    std::size_t begin = 0, end = 0; // requested so far
    bool        open = true, close_early = false;
    int         cont = 0, eof = 0;

    bool next_line() // false: nothing typed
    {
        auto b = end;
        while (end < text.size() && (end == b || text[end - 1] != U'\n'))
            ++end;
        bool complete = end > b && text[end - 1] == U'\n';
        // the end was seen
        if ((!complete) || (close_early && end == text.size()))
            open = false;
        return end > b;
    }
    void prompt()
    {
        begin = end;
        if (!next_line())
            ++eof;
    }
    // -1: end of input
    long peek(std::size_t idx)
    {
        if (begin + idx < end)
            return long(text[begin + idx]);
        if (!open)
            return -1;
        ++cont;
        if (!next_line())
        {
            ++eof;
            return -1;
        }
        return long(text[begin + idx]);
    }
};

template <typename E>
struct Run
{
    using Shell = lexy_ext::shell<Prompt<E>>;
    using Input = typename Shell::input;
    using C     = typename E::char_type;
    User                   u;
    Model                  m;
    Shell                  shell;
    std::unique_ptr<Input> reader, other;
    std::size_t            idx = 0, other_idx = 0, mark_idx = 0;
    std::optional<typename Input::marker> mark;
    struct Lex
    {
        lexy::lexeme<Input> lex;
        std::size_t         b, e; // in the text
    };
    std::vector<Lex> lexemes;

    Run(const Text& t, bool close_early) : shell(Prompt<E>{&u})
    {
        u.text = m.text = t;
        u.close_early = m.close_early = close_early;
        prompt();
    }
    void prompt()
    {
        lexemes.clear();
        mark.reset();
        reader.reset();
        other.reset();
        auto in = shell.prompt_for_input();
        m.prompt();
        reader = std::make_unique<Input>(in.reader());
        idx = 0;
        state("prompt");
    }
    void state(const char* what)
    {
        if (u.cont != m.cont)
            vh::fail(std::string(what) + ": " + std::to_string(u.cont) + " continuation prompts instead of "
                     + std::to_string(m.cont));
        if (u.eof != m.eof)
            vh::fail(std::string(what) + ": " + std::to_string(u.eof) + " end prompts instead of "
                     + std::to_string(m.eof));
        if (shell.is_open() != m.open)
            vh::fail(std::string(what) + ": the shell is " + (m.open ? "not " : "") + "open");
        if (u.at != m.end)
            vh::fail(std::string(what) + ": a line was read that was not asked for");
        vh::transitions(1);
    }
    long peek()
    {
        auto want = m.peek(idx);
        auto got  = reader->peek();
        bool eof  = got == E::eof();
        if (eof != (want < 0) || (!eof && got != E::to_int_type(C(want))))
            vh::fail("character " + std::to_string(idx) + " is " + std::to_string(long(got)) + " instead of "
                     + std::to_string(want));
        state("peek");
        return want;
    }
    bool op(int o)
    {
        switch (o)
        {
        case 0: // read a character
            if (peek() < 0)
                return false; // nothing changes any more
            reader->bump();
            ++idx;
            return true;
        case 1:
            peek();
            return true;
        case 2:
            mark     = reader->current();
            mark_idx = idx;
            return true;
        case 3:
            if (!mark)
                return false;
            reader->reset(*mark);
            idx = mark_idx;
            return true;
        case 4: // a lexeme from the mark to here
            if (!mark || mark_idx > idx)
                return false;
            lexemes.push_back({lexy::lexeme<Input>(*reader, mark->position()), m.begin + mark_idx, m.begin + idx});
            return true;
        case 5: // work on a copy, keep the original
            if (!other)
            {
                other     = std::make_unique<Input>(*reader);
                other_idx = idx;
            }
            else
                std::swap(reader, other), std::swap(idx, other_idx);
            return true;
        case 6:
            if (u.primary > 3)
                return false;
            verify();
            prompt();
            return true;
        }
        return false;
    }
    void verify()
    {
        for (auto& l : lexemes)
        {
            Text got;
            for (auto it = l.lex.begin(); it != l.lex.end(); ++it)
                got.push_back(char32_t(std::make_unsigned_t<C>(*it)));
            if (got != u.text.substr(l.b, l.e - l.b) || l.lex.empty() != got.empty())
                vh::fail("a lexeme became " + show(got) + " instead of " + show(u.text.substr(l.b, l.e - l.b)));
            // it can be written back
            std::basic_string<C> out;
            bool                 done = false;
            shell.get_prompt().out = &out;
            shell.get_prompt().written = &done;
            {
                auto w = shell.write_message();
                w(l.lex)(C('x'));
            }
            if (!done || out.size() != got.size() + 1 || out.back() != C('x'))
                vh::fail("a lexeme was written as something else");
        }
    }
};

template <typename E>
void sequences(const char* name, int len, int depth)
{
    std::vector<Text> texts{Text()};
    for (std::size_t i = 0; i < texts.size(); ++i)
        if (texts[i].size() < std::size_t(len))
        {
            texts.push_back(texts[i] + U'a');
            texts.push_back(texts[i] + U'\n');
        }
    for (auto& t : texts)
        for (auto& c : t)
            if (c == U'a')
                c = U'a' + char32_t(&c - t.data());
    for (auto& t : texts)
        for (int early = 0; early < 2; ++early)
            for (int first = 0; first < 49; ++first)
                vh::step(
                    [&] {
                        return std::string(name) + ": typed " + show(t) + (early ? " closing early" : "")
                               + ", operation sequences starting " + std::to_string(first);
                    },
                    [&] {
                        std::vector<int> ops{first % 7, first / 7};
                        // depth-first over operation sequences, each replayed from the start
                        auto go = [&](auto& self) -> void {
                            Run<E> r(t, early);
                            bool   ok = true;
                            for (int o : ops)
                                ok = ok && r.op(o);
                            r.verify();
                            vh::traces(1);
                            if (!ok || int(ops.size()) == depth)
                                return;
                            for (int o = 0; o < 7; ++o)
                            {
                                ops.push_back(o);
                                self(self);
                                ops.pop_back();
                            }
                        };
                        go(go);
                        vh::outcome(show(t) + std::to_string(early * 49 + first));
                    });
}

template <typename E>
void lengths(const char* name)
{
    // capacity of the first buffer, in characters
    const std::size_t cap = (1024 - 24) / sizeof(typename E::char_type);
    std::vector<std::size_t> first;
    for (std::size_t n = 0; n <= 2 * cap + 10; ++n)
        if (vh::thorough() || n < 20 || n % 16 == 5 || (n + 140 > cap && n < cap + 4)
            || (n + 140 > 2 * cap && n < 2 * cap + 4))
            first.push_back(n);
    for (auto k : {4 * cap, 8 * cap})
        for (auto n = k - 3; n < k + 3; ++n)
            first.push_back(n);
    for (auto a : first)
        vh::step([&] { return std::string(name) + ": a first line of " + std::to_string(a) + " characters"; },
                 [&] {
                     for (std::size_t b : {std::size_t(0), std::size_t(1), std::size_t(126), std::size_t(127),
                                           std::size_t(128), std::size_t(129), cap - 1, cap, 3 * cap})
                         for (int end = 0; end < 4; ++end)
                         {
                             Text t;
                             for (std::size_t i = 0; i < a; ++i)
                                 t.push_back(char32_t('!' + i * 7 % 90));
                             t.push_back(U'\n');
                             for (std::size_t i = 0; i < b; ++i)
                                 t.push_back(char32_t('!' + i * 11 % 90));
                             if (end & 1)
                                 t.push_back(U'\n');
                             Run<E> r(t, end & 2);
                             r.op(2);
                             for (std::size_t i = 0; i <= t.size(); ++i)
                             {
                                 if (!r.op(0))
                                     break;
                                 if (i % 97 == 0 || i == a)
                                     r.op(4), r.op(2);
                             }
                             if (r.idx != t.size())
                                 vh::fail("stopped at " + std::to_string(r.idx) + " of " + std::to_string(t.size()));
                             r.op(4);
                             r.verify();
                             vh::traces(1);
                             // line by line
                             Run<E> q(t, end & 2);
                             while (q.m.open && q.op(6))
                             {
                                 q.op(2);
                                 for (std::size_t i = 0; i < b; ++i)
                                     q.op(0);
                                 q.op(4);
                             }
                             q.verify();
                             vh::traces(1);
                             vh::beat();
                         }
                     vh::outcome(std::string(name) + std::to_string(a));
                 });
}

//=== the default prompt ===//
struct Source
{
    std::string content;
    std::size_t pos = 0, chunk = 1u << 30;
};
ssize_t src_read(void* c, char* buf, size_t n)
{
    auto& s = *static_cast<Source*>(c);
    auto  m = std::min({n, s.chunk, s.content.size() - s.pos});
    std::memcpy(buf, s.content.data() + s.pos, m);
    s.pos += m;
    return ssize_t(m);
}
ssize_t sink_write(void* c, const char* buf, size_t n)
{
    static_cast<std::string*>(c)->append(buf, n);
    return ssize_t(n);
}
struct Redirect
{
    FILE *     in, *out, *oin, *oout;
    Redirect(Source& s, std::string& o)
    {
        in   = fopencookie(&s, "r", {src_read, nullptr, nullptr, nullptr});
        out  = fopencookie(&o, "w", {nullptr, sink_write, nullptr, nullptr});
        oin  = stdin;
        oout = stdout;
        stdin  = in;
        stdout = out;
    }
    ~Redirect()
    {
        stdin  = oin;
        stdout = oout;
        fclose(in);
        fclose(out);
    }
};
template <typename E>
void std_one(const std::string& text, std::size_t chunk, bool line_by_line)
{
    Source      src{text, 0, chunk};
    std::string out, want_out;
    std::string got, want;
    {
        Redirect r(src, out);
        lexy_ext::shell<lexy_ext::default_prompt<E>> shell;
        if (!line_by_line)
        {
            auto in = shell.prompt_for_input();
            auto rd = in.reader();
            while (rd.peek() != E::eof())
            {
                got.push_back(char(*rd.position()));
                rd.bump();
            }
            want = text;
            if (rd.peek() != E::eof())
                vh::fail("the end is not stable");
        }
        else
            for (int k = 0; shell.is_open() && k < 20; ++k)
            {
                auto in = shell.prompt_for_input();
                auto rd = in.reader();
                std::string line;
                while (shell.is_open() || rd.position() != rd.position())
                {
                    // the first line only
                    if (!line.empty() && line.back() == '\n')
                        break;
                    if (rd.peek() == E::eof())
                        break;
                    line.push_back(char(*rd.position()));
                    rd.bump();
                }
                // an unterminated last line closes the shell at once
                while ((line.empty() || line.back() != '\n') && rd.peek() != E::eof())
                {
                    line.push_back(char(*rd.position()));
                    rd.bump();
                }
                got += "[" + line + "]";
                {
                    auto w = shell.write_message();
                    w(reinterpret_cast<const typename E::char_type*>(line.data()), line.size());
                }
                want_out += "> ";
                if (line.empty())
                    want_out += "\n"; // end prompt
                want_out += line;
                if (!line.empty() && line.back() != '\n')
                    want_out += "\n";
            }
        if (line_by_line)
        {
            std::string l;
            for (char c : text)
            {
                l.push_back(c);
                if (c == '\n')
                    want += "[" + l + "]", l.clear();
            }
            want += "[" + l + "]"; // what is left when the input closes
        }
    }
    if (got != want)
        vh::fail("default prompt read " + std::to_string(got.size()) + " characters " + got.substr(0, 60)
                 + ", instead of " + std::to_string(want.size()) + " " + want.substr(0, 60));
    if (line_by_line && out != want_out)
        vh::fail("default prompt wrote " + out.substr(0, 80) + " instead of " + want_out.substr(0, 80));
    vh::traces(1);
    vh::transitions(text.size());
}
template <typename E>
void default_prompts(const char* name)
{
    // all short texts, with null characters and bytes that look like the end
    std::vector<std::string> texts{""};
    for (std::size_t i = 0; i < texts.size(); ++i)
        if (texts[i].size() < (vh::thorough() ? 7u : 5u))
            for (char c : {'a', '\n', '\0'})
                texts.push_back(texts[i] + c);
    for (auto& t : texts)
        vh::step([&] { return std::string(name) + ": default prompt, short text " + show(Text(t.begin(), t.end())); },
                 [&] {
                     for (std::size_t chunk : {std::size_t(1), std::size_t(2), std::size_t(1) << 20})
                         for (int l = 0; l < 2; ++l)
                             std_one<E>(t, chunk, l);
                 });
    for (std::size_t a = 0; a <= 2100; ++a)
    {
        if (!vh::thorough() && a > 20 && a % 16 != 3 && !(a > 860 && a < 1010) && !(a > 1860 && a < 2010))
            continue;
        vh::step([&] { return std::string(name) + ": default prompt, line of " + std::to_string(a); },
                 [&] {
                     for (std::size_t b : {std::size_t(0), std::size_t(1), std::size_t(127), std::size_t(128), std::size_t(999),
                                           std::size_t(1000)})
                         for (int end = 0; end < 2; ++end)
                             for (int l = 0; l < 2; ++l)
                             {
                                 std::string t;
                                 for (std::size_t i = 0; i < a; ++i)
                                     t.push_back(char('!' + i * 7 % 90));
                                 t.push_back('\n');
                                 for (std::size_t i = 0; i < b; ++i)
                                     t.push_back(char('!' + i * 11 % 90));
                                 if (end)
                                     t.push_back('\n');
                                 std_one<E>(t, 1u << 20, l);
                             }
                 });
    }
}

//=== parsing from the shell gives what parsing the typed text gives ===//
struct word
{
    static constexpr auto rule  = lexy::dsl::identifier(lexy::dsl::ascii::alpha);
    static constexpr auto value = lexy::as_string<std::string>;
};
struct block
{
    static constexpr auto whitespace = lexy::dsl::ascii::space / lexy::dsl::ascii::newline;
    static constexpr auto rule
        = lexy::dsl::terminator(LEXY_LIT(";")).opt_list(lexy::dsl::p<word>, lexy::dsl::sep(LEXY_LIT(",")));
    static constexpr auto value = lexy::as_list<std::vector<std::string>>;
};
struct toklit
{
    static constexpr auto rule
        = lexy::dsl::peek(LEXY_LIT("ab\nc")) >> LEXY_LIT("ab\nc")
          | lexy::dsl::lookahead(LEXY_LIT("b"), LEXY_LIT("c")) >> lexy::dsl::until(LEXY_LIT("b"))
          | lexy::dsl::else_ >> lexy::dsl::while_(LEXY_LIT("a") / LEXY_LIT("\n"));
};
struct none
{
    using return_type = void;
    template <typename... Args>
    void operator()(const Args&...) const
    {}
};
void parsing()
{
    std::vector<std::string> texts{""};
    for (std::size_t i = 0; i < texts.size(); ++i)
        if (texts[i].size() < (vh::thorough() ? 7u : 6u))
            for (char c : {'a', ',', '\n', ';'})
                texts.push_back(texts[i] + c);
    for (auto& t : texts)
        vh::step([&] { return "parsing typed text " + show(Text(t.begin(), t.end())); },
                 [&] {
                     User u;
                     u.text = Text(t.begin(), t.end());
                     lexy_ext::shell<Prompt<lexy::default_encoding>> shell(Prompt<lexy::default_encoding>{&u});
                     auto in  = shell.prompt_for_input();
                     auto a   = lexy::parse<block>(in, lexy::noop);
                     auto b   = lexy::parse<block>(lexy::string_input(t), lexy::noop);
                     bool ok  = a.is_success() == b.is_success() && a.has_value() == b.has_value();
                     if (ok && a.has_value())
                         ok = a.value() == b.value();
                     if (!ok)
                         vh::fail("parsing differs from parsing the text");
                     vh::traces(1);
                     vh::transitions(1);
                     vh::outcome(t);
                 });
    texts.assign(1, "");
    for (std::size_t i = 0; i < texts.size(); ++i)
        if (texts[i].size() < (vh::thorough() ? 7u : 6u))
            for (char c : {'a', 'b', '\n', 'c'})
                texts.push_back(texts[i] + c);
    for (auto& t : texts)
        vh::step([&] { return "matching typed text " + show(Text(t.begin(), t.end())); },
                 [&] {
                     User u;
                     u.text = Text(t.begin(), t.end());
                     lexy_ext::shell<Prompt<lexy::default_encoding>> shell(Prompt<lexy::default_encoding>{&u});
                     auto in = shell.prompt_for_input();
                     if (lexy::match<toklit>(in) != lexy::match<toklit>(lexy::string_input(t)))
                         vh::fail("matching differs from matching the text");
                     vh::traces(1);
                     vh::transitions(1);
                 });
}

void run()
{
    int d = vh::thorough() ? 8 : 6;
    sequences<lexy::default_encoding>("char", 5, d);
    sequences<lexy::utf8_encoding>("utf8", 4, d - 1);
    sequences<lexy::utf32_encoding>("utf32", 4, d - 1);
    lengths<lexy::default_encoding>("char");
    lengths<lexy::utf8_encoding>("utf8");
    lengths<lexy::utf16_encoding>("utf16");
    lengths<lexy::utf32_encoding>("utf32");
    default_prompts<lexy::default_encoding>("char");
    default_prompts<lexy::utf8_encoding>("utf8");
    default_prompts<lexy::ascii_encoding>("ascii");
    parsing();
}
} // namespace
VH_MAIN(run)
