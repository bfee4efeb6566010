// C32: parses do not influence each other.  Every task (a parse or another operation on some input) is
// run alone in a process of its own; then
//  - two tasks are interleaved at every point where the library calls into user code (iterators, callbacks,
//    output iterators, memory resources), under every schedule with up to two (three) preemptions;
//  - all sequences of three tasks are run one after another on the same memory.
// Every task must give the result it gives alone.
#include "vh.hpp"
#include <functional>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <lexy_ext/report_error.hpp>
#include <map>
#include <sys/wait.h>
#include <ucontext.h>
namespace dsl = lexy::dsl;
namespace
{
//=== scheduler ===//
struct Fiber
{
    ucontext_t            ctx;
    std::vector<char>     stack;
    std::function<void()> f;
    bool                  done  = true;
    long                  steps = 0, budget = -1; // -1: unlimited
};
ucontext_t main_ctx;
thread_local Fiber* cur = nullptr; // (vh has a watchdog thread)
#define PLAIN __attribute__((noinline, no_sanitize("coverage")))
PLAIN void point()
{
    if (!cur)
        return;
    auto f = cur;
    ++f->steps;
    if (f->budget > 0 && --f->budget == 0)
        swapcontext(&f->ctx, &main_ctx);
}
// Compiled in for every load and store: one that goes to the static data of the program is a point as well;
// all others are private to a task unless it got the address from there.
extern "C" char __data_start, _end;
PLAIN void      touch(const void* p)
{
    if (p >= &__data_start && p < &_end)
        point();
}
PLAIN void entry()
{
    auto f = cur;
    f->f();
    f->done = true;
    swapcontext(&f->ctx, &main_ctx);
}
PLAIN void start(Fiber& f, std::function<void()> fn)
{
    f.f = std::move(fn);
    if (f.stack.empty())
        f.stack.resize(1 << 18);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp   = f.stack.data();
    f.ctx.uc_stack.ss_size = f.stack.size();
    f.ctx.uc_link          = nullptr;
    f.done                 = false;
    f.steps                = 0;
    makecontext(&f.ctx, entry, 0);
}
// Runs f for n points (to the end if n < 0); false if it has ended.
PLAIN bool resume(Fiber& f, long n)
{
    if (f.done)
        return false;
    if (n == 0)
        return true;
    f.budget = n;
    cur      = &f;
    swapcontext(&main_ctx, &f.ctx);
    cur = nullptr;
    return !f.done;
}

//=== user code that can be preempted ===//
struct YIt
{
    using value_type        = char;
    using difference_type   = std::ptrdiff_t;
    using reference         = const char&;
    using pointer           = const char*;
    using iterator_category = std::forward_iterator_tag;
    const char* p           = nullptr;
    const char& operator*() const
    {
        point();
        return *p;
    }
    YIt& operator++()
    {
        ++p;
        return *this;
    }
    YIt operator++(int)
    {
        auto c = *this;
        ++p;
        return c;
    }
    friend bool operator==(YIt a, YIt b)
    {
        return a.p == b.p;
    }
    friend bool operator!=(YIt a, YIt b)
    {
        return a.p != b.p;
    }
};
struct YOut
{
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using reference         = void;
    using pointer           = void;
    using iterator_category = std::output_iterator_tag;
    std::string* s;
    int*         n;
    YOut&        operator*()
    {
        return *this;
    }
    YOut& operator++()
    {
        return *this;
    }
    YOut operator++(int)
    {
        return *this;
    }
    YOut& operator=(char c)
    {
        if (++*n % 7 == 0)
            point();
        s->push_back(c);
        return *this;
    }
};
struct YRes
{
    void* allocate(std::size_t n, std::size_t)
    {
        point();
        return malloc(n);
    }
    void deallocate(void* p, std::size_t, std::size_t) noexcept
    {
        point();
        free(p);
    }
    friend bool operator==(const YRes&, const YRes&) noexcept
    {
        return true;
    }
};
YRes yres;

const char* ptr(const char* p)
{
    return p;
}
const char* ptr(const unsigned char* p)
{
    return (const char*)p;
}
const char* ptr(YIt it)
{
    return it.p;
}
struct Base
{
    const char* b;
    template <typename It>
    std::string operator()(It it) const
    {
        return std::to_string(ptr(it) - b);
    }
};
template <typename Reader, typename Tag>
std::string text(const lexy::error<Reader, Tag>& e)
{
    return e.message();
}
template <typename Reader>
std::string text(const lexy::error<Reader, lexy::expected_literal>& e)
{
    return "literal " + std::string(e.string(), e.string() + e.length()) + std::to_string(e.index());
}
template <typename Reader>
std::string text(const lexy::error<Reader, lexy::expected_keyword>& e)
{
    return "keyword " + std::string(e.string(), e.string() + e.length());
}
template <typename Reader>
std::string text(const lexy::error<Reader, lexy::expected_char_class>& e)
{
    return std::string("class ") + e.name();
}
auto err_cb(Base b)
{
    return lexy::collect<std::vector<std::string>>(lexy::callback<std::string>([b](const auto& ctx, const auto& e) {
        point();
        return text(e) + "@" + b(e.position()) + " in " + ctx.production() + "@" + b(ctx.position()) + ";";
    }));
}
std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v)
        s += x + ";";
    return s;
}

//=== grammars ===//
struct Str
{
    using return_type = std::string;
    template <typename T>
    static std::string one(const T& t)
    {
        if constexpr (std::is_same_v<T, std::string>)
            return t;
        else if constexpr (std::is_same_v<T, std::vector<std::string>>)
            return "[" + join(t) + "]";
        else if constexpr (std::is_same_v<T, lexy::nullopt>)
            return "~";
        else if constexpr (std::is_same_v<T, lexy::code_point>)
            return "U" + std::to_string(unsigned(t.value()));
        else if constexpr (std::is_arithmetic_v<T>)
            return std::to_string(t);
        else if constexpr (requires { t.begin(); })
            return "<" + std::string(t.begin(), t.end()) + ">";
        else
            return "@";
    }
    template <typename... Args>
    std::string operator()(const Args&... args) const
    {
        point();
        std::string s = "(";
        ((s += one(args) + ","), ...);
        return s + ")";
    }
    struct S
    {
        using return_type = std::string;
        std::string s     = "{";
        template <typename... Args>
        void operator()(const Args&... args)
        {
            point();
            ((s += one(args) + ","), ...);
        }
        std::string finish() &&
        {
            return s + "}";
        }
    };
    auto sink() const
    {
        return S{};
    }
};
inline constexpr Str str{};
#define PROD(N) struct N { static constexpr auto name = #N;
#define END static constexpr auto value = str; };
constexpr auto escs = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"');
constexpr auto syms = lexy::symbol_table<int>.map<LEXY_SYMBOL("ab")>(1).map<LEXY_SYMBOL("abc")>(2).map<LEXY_SYMBOL("x")>(3);
constexpr auto word = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum);
struct Value;
struct String
{
    static constexpr auto name  = "String";
    static constexpr auto rule  = dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::print, dsl::backslash_escape.symbol<escs>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<2>));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding>;
};
PROD(Number) static constexpr auto rule = dsl::sign + dsl::integer<signed char>(dsl::digits<>.no_leading_zero().sep(dsl::digit_sep_underscore)); END
PROD(Array) static constexpr auto rule = dsl::square_bracketed.opt_list(dsl::recurse<Value>, dsl::trailing_sep(dsl::comma));
    static constexpr auto value = str; };
PROD(Value)
    static constexpr auto max_recursion_depth = 4;
    static constexpr auto rule = dsl::peek(dsl::lit_c<'['>) >> dsl::p<Array> | dsl::peek(dsl::lit_c<'"'>) >> dsl::p<String>
                                 | LEXY_KEYWORD("null", word) >> dsl::nullopt | dsl::else_ >> dsl::p<Number>;
END
PROD(Json)
    static constexpr auto max_recursion_depth = 5;
    static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("#") >> dsl::until(dsl::newline);
    static constexpr auto rule = dsl::p<Value> + dsl::eof;
END
struct Expr : lexy::expression_production
{
    static constexpr auto name       = "Expr";
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto max_operator_nesting = 4;
    struct missing { static constexpr auto name = "missing operand"; };
    static constexpr auto atom = dsl::parenthesized(dsl::recurse<Expr>) | dsl::integer<int>(dsl::digits<>) | dsl::error<missing>;
    struct post : dsl::postfix_op { static constexpr auto op = dsl::op<'!'>(dsl::lit_c<'!'>); using operand = dsl::atom; };
    struct neg : dsl::prefix_op { static constexpr auto op = dsl::op<'-'>(dsl::lit_c<'-'>); using operand = post; };
    struct mul : dsl::infix_op_left { static constexpr auto op = dsl::op<'*'>(dsl::lit_c<'*'>) / dsl::op<'/'>(dsl::lit_c<'/'>); using operand = neg; };
    struct cmp : dsl::infix_op_single { static constexpr auto op = dsl::op<'='>(dsl::lit_c<'='>); using operand = mul; };
    using operation = cmp;
    static constexpr auto value = str;
};
PROD(Calc) static constexpr auto rule = dsl::p<Expr> + dsl::eof; END
struct Var; struct Cnt; struct Flg;
constexpr auto cnt = dsl::context_counter<Cnt>;
constexpr auto flg = dsl::context_flag<Flg>;
constexpr auto cid = dsl::context_identifier<Var>(word);
PROD(Ctx)
    static constexpr auto rule = cnt.create() + flg.create() + cid.create() + cid.capture() + cnt.push(dsl::while_(dsl::lit_c<'+'>))
        + dsl::if_(dsl::lit_c<'!'> >> flg.toggle()) + cnt.pop(dsl::while_(dsl::lit_c<'-'>)) + dsl::lit_c<':'> + cid.rematch() + dsl::lit_c<'.'>
        + cnt.value() + flg.value() + (cnt.is_zero() >> dsl::lit_c<'0'> | dsl::else_ >> dsl::lit_c<'1'>) + dsl::eof;
END
PROD(Syms)
    static constexpr auto whitespace = dsl::lit_c<' '>;
    static constexpr auto rule = dsl::list(dsl::symbol<syms>(word) | dsl::ascii::case_folding(LEXY_LIT("KEY")) >> dsl::position + LEXY_LIT("!")
        | LEXY_KEYWORD("else", word) | dsl::literal_set(LEXY_LIT("<"), LEXY_LIT("<=")) | word.reserve(LEXY_LIT("if"), LEXY_LIT("in"))
        | dsl::integer<int>(dsl::digits<dsl::hex>), dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = str;
};
PROD(Item) static constexpr auto rule = dsl::capture(dsl::token(dsl::ascii::alpha + dsl::opt(dsl::lit_c<'?'>))) ; END
PROD(Stmt) static constexpr auto rule = [] { auto t = dsl::terminator(dsl::semicolon).limit(dsl::lit_c<'}'>); return t.try_(dsl::p<Item> + dsl::lit_c<'='> + dsl::p<Item>); }(); END
PROD(Block)
    static constexpr auto whitespace = dsl::lit_c<' '>;
    static constexpr auto rule = dsl::lit_c<'{'> + dsl::opt(dsl::list(dsl::peek_not(dsl::lit_c<'}'> | dsl::eof) >> dsl::p<Stmt>)) + dsl::lit_c<'}'>
        + dsl::opt(dsl::lit_c<':'> >> dsl::combination(LEXY_LIT("a") >> dsl::p<Item>, LEXY_LIT("b") >> dsl::p<Item>)) + dsl::eof;
END
struct Rep : lexy::scan_production<std::string>
{
    static constexpr auto name = "Rep";
    template <typename C, typename R>
    static lexy::scan_result<std::string> scan(lexy::rule_scanner<C, R>& s)
    {
        point();
        auto n = s.template integer<int>(dsl::digits<>);
        if (!s)
        {
            auto g = s.error_recovery();
            while (!s.peek(dsl::lit_c<'.'>) && !s.is_at_eof())
                s.discard(dsl::ascii::character);
            if (!s.branch(dsl::lit_c<'.'>))
                std::move(g).cancel();
            else
                std::move(g).finish();
            return std::string("bad");
        }
        std::string r;
        for (int i = 0; s && i < n.value(); ++i)
        {
            lexy::scan_result<std::string> item;
            s.parse(item, dsl::p<Item>);
            if (item)
                r += item.value();
        }
        return r;
    }
};
PROD(Scanned) static constexpr auto rule = dsl::list(dsl::peek_not(dsl::eof) >> dsl::p<Rep>) + dsl::eof; END
struct Agg { int a = 0; std::string b; };
struct Mem
{
    static constexpr auto name  = "Mem";
    static constexpr auto rule  = dsl::partial_combination((dsl::member<&Agg::a> = LEXY_LIT("a") >> dsl::integer<int>(dsl::digits<>)),
                                                         (dsl::member<&Agg::b> = LEXY_LIT("b") >> dsl::p<Item>)) + dsl::eof;
    static constexpr auto value = lexy::as_aggregate<Agg>;
};
struct Fold
{
    static constexpr auto name  = "Fold";
    static constexpr auto rule  = dsl::list(dsl::integer<unsigned>(dsl::digits<>), dsl::sep(dsl::lit_c<'+'>)) + dsl::eof;
    static constexpr auto value = lexy::fold<std::string>("f", [](std::string s, unsigned n) { point(); return s + std::to_string(n) + ","; });
};
PROD(Chr) static constexpr auto rule = dsl::capture(dsl::ascii::digit); END
struct Cat
{
    static constexpr auto name  = "Cat";
    static constexpr auto rule  = dsl::list(dsl::p<Chr> | dsl::p<Item>) + dsl::eof;
    static constexpr auto value = lexy::concat<std::string> >> lexy::callback<std::string>([](std::string s) { point(); return s + "!"; });
};
struct CatStr
{
    static constexpr auto name  = "CatStr";
    static constexpr auto rule  = dsl::list(dsl::capture(dsl::ascii::lower) | dsl::capture(dsl::ascii::digit)) + dsl::eof;
    static constexpr auto value = lexy::as_string<std::string>;
};
struct Bits
{
    static constexpr auto name  = "Bits";
    static constexpr auto rule  = dsl::byte + dsl::bint16 + dsl::little_bint32 + dsl::bits(dsl::bit::_0, dsl::bit::any<6>, dsl::bit::_1);
    static constexpr auto value = str;
};
struct Uni
{
    static constexpr auto name  = "Uni";
    static constexpr auto rule  = dsl::identifier(dsl::unicode::xid_start, dsl::unicode::xid_continue) + dsl::opt(dsl::unicode::simple_case_folding(dsl::lit_cp<0x20, 0xE4>)) + dsl::opt(dsl::list(dsl::code_point.range<0x80, 0xFFFF>())) + dsl::eof;
    static constexpr auto value = str;
};

//=== tasks, for any input ===//
template <typename G>
struct Parse
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        auto r = lexy::parse<G>(in, err_cb(b));
        std::string s = r.is_success() ? "ok " : r.is_recovered_error() ? "rec " : "fatal ";
        if (r.has_value())
            s += Str::one(r.value());
        return s + "|" + join(r.errors());
    }
};
struct MemTask
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        auto r = lexy::parse<Mem>(in, err_cb(b));
        return (r.has_value() ? std::to_string(r.value().a) + r.value().b : "none") + join(r.errors());
    }
};
template <typename G>
struct Validate
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        auto m = lexy::match<G>(in);
        auto r = lexy::validate<G>(in, err_cb(b));
        return (m ? "match " : "no ") + std::to_string(r.error_count()) + join(r.errors());
    }
};
template <typename G>
struct Tree
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        lexy::parse_tree<lexy::input_reader<Input>, void, YRes> tree(&yres);
        auto        r = lexy::parse_as_tree<G>(tree, in, err_cb(b));
        std::string s = std::to_string(r.errors().size());
        for (auto [ev, node] : tree.traverse())
        {
            if (ev == lexy::traverse_event::exit)
                s += "}";
            else if (ev == lexy::traverse_event::enter)
                s += std::string(node.kind().name()) + "{";
            else
                s += std::string(node.kind().name()) + std::string(node.lexeme().begin(), node.lexeme().end()) + ",";
        }
        s += std::to_string((tree.empty() ? 0 : tree.depth())) + std::to_string(tree.size());
        int n = 0;
        lexy::visualize_to(YOut{&s, &n}, tree, lexy::visualization_options{});
        return s;
    }
};
template <typename G>
struct Trace
{
    template <typename Input>
    static std::string run(const Input& in, Base)
    {
        std::string s;
        int         n = 0;
        lexy::trace_to<G>(YOut{&s, &n}, in);
        return s;
    }
};
template <typename G>
struct Report
{
    template <typename Input>
    static std::string run(const Input& in, Base)
    {
        std::string s;
        int         n = 0;
        lexy::validate<G>(in, lexy_ext::report_error.path("p").to(YOut{&s, &n}));
        return s;
    }
};
struct Location
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        std::string s;
        auto        it = lexy::input_reader<Input>(in.reader()).position();
        auto        anchor = lexy::input_location_anchor<Input>(in);
        for (int i = 0; ptr(it) != b.b + 8 && i < 8; ++i)
        {
            auto l = lexy::get_input_location(in, it, anchor);
            if (l.column_nr() < 3)
                anchor = l.anchor();
            s += std::to_string(l.line_nr()) + ":" + std::to_string(l.column_nr()) + " ";
            auto a = lexy::get_input_line_annotation(in, l, 3);
            s += std::string(a.before.begin(), a.before.end()) + "^" + std::string(a.annotated.begin(), a.annotated.end()) + "^" + std::string(a.after.begin(), a.after.end()) + " ";
            auto r = in.reader();
            while (r.position() != it)
                r.bump();
            if (r.peek() == lexy::input_reader<Input>::encoding::eof())
                break;
            ++it;
        }
        return s;
    }
};
struct FreeScan
{
    template <typename Input>
    static std::string run(const Input& in, Base b)
    {
        std::vector<std::string> errs;
        auto cb = lexy::callback<void>([&](const auto& ctx, const auto& e) { point(); errs.push_back(text(e) + b(e.position()) + ctx.production()); });
        auto s  = lexy::scan(in, cb);
        std::string out;
        while (!s.is_at_eof())
        {
            auto r = s.template parse<Item>();
            if (r)
                out += r.value();
            else
            {
                auto g = s.error_recovery();
                s.discard(dsl::ascii::character);
                std::move(g).finish();
            }
        }
        return out + join(errs);
    }
};
struct FromTree
{
    struct A { static constexpr auto name = "A"; static constexpr auto rule = dsl::capture(dsl::tnode<lexy::identifier_token_kind>); static constexpr auto value = str; };
    struct Word { static constexpr auto name = "Word"; static constexpr auto rule = dsl::peek(word) >> word + dsl::opt(dsl::comma); };
    struct Words { static constexpr auto name = "Words"; static constexpr auto rule = dsl::list(dsl::p<Word>) + dsl::eof; };
    template <typename Input>
    static std::string run(const Input& in, Base)
    {
        lexy::parse_tree<lexy::input_reader<Input>, void, YRes> tree(&yres);
        lexy::parse_as_tree<Words>(tree, in, lexy::noop);
        if (tree.empty())
            return "empty";
        std::string s;
        for (auto n : lexy_ext::tokens(tree))
        {
            point();
            s += std::string(n.lexeme().begin(), n.lexeme().end()) + " ";
        }
        for (auto n : lexy_ext::children(tree, tree.root(), Word{}))
        {
            auto t = lexy_ext::child(tree, n, lexy::identifier_token_kind);
            s += t ? std::string(t->lexeme().begin(), t->lexeme().end()) : "none";
        }
        return s;
    }
};
struct Raw
{
    template <typename Input>
    static std::string run(const Input& in, Base)
    {
        std::string t;
        for (auto r = in.reader(); r.peek() != decltype(r)::encoding::eof(); r.bump())
            t += char(r.peek());
        auto buf = lexy::make_buffer_from_raw<lexy::utf16_encoding, lexy::encoding_endianness::bom>(t.data(), t.size() / 2 * 2, &yres);
        std::string s;
        for (std::size_t i = 0; i < buf.size(); ++i)
            s += std::to_string(buf.data()[i]) + " ";
        int n = 0;
        lexy::buffer<lexy::utf8_char_encoding, YRes> copy(t.data(), t.size(), &yres);
        lexy::visualize_to(YOut{&s, &n}, lexy::lexeme<lexy::input_reader<decltype(copy)>>(copy.data(), copy.data() + copy.size()), lexy::visualization_options{lexy::visualize_use_unicode});
        return s;
    }
};

struct Bytes
{
    template <typename Input>
    static std::string run(const Input& in, Base)
    {
        std::string t;
        for (auto r = in.reader(); r.peek() != decltype(r)::encoding::eof(); r.bump())
            t += char(r.peek());
        lexy::buffer<lexy::byte_encoding, YRes> buf((const unsigned char*)t.data(), t.size(), &yres);
        return Parse<Bits>::run(buf, Base{(const char*)buf.data()});
    }
};

//=== the explored tasks ===//
using YInput = lexy::range_input<lexy::utf8_char_encoding, YIt>;
struct Task
{
    std::string name, input;
    std::function<std::string(const char*, std::size_t)> range, string, buffer;
    std::string alone;
    long        points = 0;
};
// hands out the same memory over and over again
struct SameRes
{
    static inline char mem[1 << 12];
    void* allocate(std::size_t, std::size_t)
    {
        return mem;
    }
    void        deallocate(void*, std::size_t, std::size_t) noexcept {}
    friend bool operator==(const SameRes&, const SameRes&) noexcept
    {
        return true;
    }
};
SameRes           same;
std::vector<Task> tasks;
template <typename T>
void add(const char* name, std::initializer_list<std::string> inputs)
{
    for (auto& i : inputs)
        tasks.push_back({name, i,
                         [](const char* p, std::size_t n) { return T::run(YInput(YIt{p}, YIt{p + n}), Base{p}); },
                         [](const char* p, std::size_t n) { return T::run(lexy::string_input<lexy::utf8_char_encoding>(p, p + n), Base{p}); },
                         [](const char* p, std::size_t n) {
                             lexy::buffer<lexy::utf8_char_encoding, SameRes> b(p, n, &same);
                             return T::run(b, Base{b.data()});
                         }, "", 0});
}
void define()
{
    add<Parse<Json>>("parse json", {"[1,\"a\\n\",null]", "[[[[[1]]]]]", "[1,2", "#x\n -12_0", "[1_9_9,x,\"\\q\"]", "[[[[1]]],300]", "\"ab\\uC3zz\""});
    add<Tree<Json>>("tree json", {"[1,[\"a\"]]", "[1,,#\n2]", "nul"});
    add<Trace<Json>>("trace json", {"[1,\"\\x\"]"});
    add<Report<Json>>("report json", {"[\n1\t,\"ab\n]", "[1,%]"});
    add<Parse<Calc>>("parse calc", {"1*-2!=3", "(1/2", "1=2=3", "-----1", "((((1))))"});
    add<Tree<Calc>>("tree calc", {"1*2/3", "-(1)!"});
    add<Trace<Calc>>("trace calc", {"1=2=3"});
    add<Parse<Ctx>>("context", {"ab+++!---:ab.0", "a++-:a.1", "x+:y.0"});
    add<Parse<Syms>>("symbols", {"abc,x , key!", "else,in1,<=,abc", "ab,Fz,9A", "inn,<,keY?"});
    add<Validate<Block>>("block", {"{a=b;c=;}", "{a=b;a", "{}:aXbY", "{}:aXaY"});
    add<Parse<Block>>("block values", {"{a=b;c=d?;}:bXaY"});
    add<Report<Block>>("block report", {"{a=;}:aX"});
    add<Parse<Scanned>>("scan production", {"2ab1c", "x.1a", "2a", "xyz"});
    add<FreeScan>("scan", {"ab1c?", "123"});
    add<MemTask>("members", {"b?a12", "a1bX", "bXa7a8"});
    add<Parse<Fold>>("fold", {"1+22+3", "1+"});
    add<Parse<Cat>>("concat", {"ab?c1", "a1B"});
    add<Parse<CatStr>>("string", {"a1bc", "12A"});
    add<Bytes>("bits", {std::string("\x01\x02\x03\x04\x05\x06\x07\x7F", 8), std::string("\x01\x02\x03\x04\x05\x06\x07\x02", 8), "abc"});
    add<Parse<Uni>>("unicode", {"a\xC3\xA4" "b \xC3\x84", "\xC3\xA4 \xC3\xA4\xE2\x82\xAC", "\xF0\x9F\x98\x80"});
    add<Location>("location", {"a\nbc\r\nd", "\xC3\xA4x\n\n"});
    add<FromTree>("queries", {"ab,c,d1", "x,1"});
    add<Raw>("raw", {std::string("\xFE\xFF\xD8\x3D\x00\x61", 6), std::string("\xFE\xFF\x00\x62", 4), "\n\xC3\xA4\x80\x01"});
}
// in a process of its own
std::string isolated(const std::function<std::string()>& f)
{
    int fd[2];
    if (pipe(fd))
        _exit(98);
    fflush(nullptr);
    auto pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        auto s = f();
        for (std::size_t i = 0; i < s.size();)
        {
            auto n = write(fd[1], s.data() + i, s.size() - i);
            if (n <= 0)
                _exit(1);
            i += std::size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char        buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        r.append(buf, std::size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? r : "died";
}
Fiber fa, fb;
void  run_pair(const Task& a, const Task& b, const std::vector<long>& cuts)
{
    std::string ra, rb;
    start(fa, [&] { ra = a.range(a.input.data(), a.input.size()); });
    start(fb, [&] { rb = b.range(b.input.data(), b.input.size()); });
    bool first = true;
    for (auto c : cuts)
    {
        resume(first ? fa : fb, c);
        first = !first;
    }
    while (!fa.done || !fb.done)
    {
        resume(first ? fa : fb, -1);
        first = !first;
    }
    vh::transitions(cuts.size() + 2);
    vh::traces(1);
    auto where = [&] {
        std::string s;
        for (auto c : cuts)
            s += " " + std::to_string(c);
        return s;
    };
    if (ra != a.alone)
        vh::fail("switching after" + where() + " points: the first gives " + ra + " instead of " + a.alone);
    if (rb != b.alone)
        vh::fail("switching after" + where() + " points: the second gives " + rb + " instead of " + b.alone);
}
void run()
{
    define();
    for (auto& t : tasks)
    {
        t.alone = isolated([&] { return t.range(t.input.data(), t.input.size()); });
        if (t.alone == "died")
            t.alone = "(the task died when run alone)";
        auto n   = isolated([&] {
            std::string r;
            start(fa, [&] { r = t.range(t.input.data(), t.input.size()); });
            resume(fa, -1);
            return std::to_string(fa.steps) + (r == t.alone ? "" : "x");
        });
        t.points = atol(n.c_str());
        vh::step([&] { return t.name + " on \"" + t.input + "\" alone"; },
                 [&] {
                     vh::outcome(t.alone);
                     if (n.back() == 'x')
                         vh::fail("not deterministic: " + t.alone);
                     // the same text in other storage: same answer
                     auto s = isolated([&] { return t.string(t.input.data(), t.input.size()); });
                     auto b = isolated([&] { return t.buffer(t.input.data(), t.input.size()); });
                     vh::traces(3);
                     if (s != t.alone || b != t.alone)
                         vh::fail("string: " + s + " buffer: " + b + " range: " + t.alone);
                 });
        if (getenv("C32_SHOW"))
            fprintf(stderr, "%s \"%s\" %ld points: %s\n", t.name.c_str(), t.input.c_str(), t.points, t.alone.c_str());
    }
    long total = 0;
    for (auto& t : tasks)
        total += t.points;
    bool large = total > 20000; // only if lexy starts to use static data a lot
    // every schedule with one or two preemptions of every pair; with three of the shorter ones (thorough)
    for (auto& a : tasks)
        for (auto& b : tasks)
            vh::step([&] { return a.name + " \"" + a.input + "\" interleaved with " + b.name + " \"" + b.input + "\""; },
                     [&] {
                         for (long i = 0; i <= a.points && (!large || i < 3000); ++i)
                             run_pair(a, b, {i});
                         for (long i = 1; i <= a.points && (!large || a.points * b.points < 10000); ++i)
                         {
                             vh::beat();
                             for (long j = 1; j <= b.points; ++j)
                                 run_pair(a, b, {i, j});
                         }
                         if (vh::thorough() && a.points * b.points * a.points <= 1000000)
                             for (long i = 1; i <= a.points; ++i, vh::beat())
                                 for (long j = 1; j <= b.points; ++j)
                                     for (long k = 1; i + k <= a.points; ++k)
                                         run_pair(a, b, {i, j, k});
                     });
    // one after the other, on the same memory
    static char mem[4096];
    auto        seq = [&](std::initializer_list<const Task*> ts, bool buffer) {
        for (auto t : ts)
        {
            memset(mem, 0, sizeof mem);
            memcpy(mem, t->input.data(), t->input.size());
            auto r = buffer ? t->buffer(mem, t->input.size()) : t->string(mem, t->input.size());
            vh::traces(1);
            vh::transitions(1);
            if (r != t->alone)
                return vh::fail(t->name + " \"" + t->input + "\" gives " + r + " instead of " + t->alone);
        }
    };
    for (auto& a : tasks)
        for (auto& b : tasks)
            vh::step([&] { return a.name + " \"" + a.input + "\", then " + b.name + " \"" + b.input + "\", then each other task"; },
                     [&] {
                         for (auto& c : tasks)
                         {
                             seq({&a, &b, &c}, false);
                             seq({&a, &b, &c}, true);
                         }
                     });
}
} // namespace
#define ACCESS(N)                                                                                                      \
    extern "C" PLAIN void __sanitizer_cov_load##N(void* p)                                                             \
    {                                                                                                                  \
        touch(p);                                                                                                      \
    }                                                                                                                  \
    extern "C" PLAIN void __sanitizer_cov_store##N(void* p)                                                            \
    {                                                                                                                  \
        touch(p);                                                                                                      \
    }
extern "C" PLAIN void __sanitizer_cov_trace_pc() {}
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
VH_MAIN(run)
