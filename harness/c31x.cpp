// C31: side effects, values of a parse state and move-only values, under every action and kind of state.
#include "engine.hpp"
#include "parts.hpp"
#include <lexy/action/scan.hpp>
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/input/buffer.hpp>
#include <memory>

inline void eq2(const std::string& what, const std::string& a, const std::string& b)
{
    vh::eq(what.c_str(), a, b);
}
inline void ck(bool b, const std::string& what)
{
    vh::check(b, what.c_str());
}
template <typename T>
std::string show_value(const T& t)
{
    using eng::show;
    return show(t);
}
//=== state ===//
inline std::string glog;
struct P1;
struct P2;
struct P3;
struct SubV;
struct StPlain
{
    mutable std::string log;
};
// also determines the values of productions
struct StVal
{
    mutable std::string log;

    struct Cb
    {
        using return_type = std::string;
        const StVal* st;
        const char*  name;
        template <typename... Args>
        std::string operator()(Args&&... args) const
        {
            auto s = name + eng::val(LEXY_FWD(args)...);
            st->log += s + ";";
            return s;
        }
    };
    struct SinkCb
    {
        using return_type = std::string;
        const StVal* st;
        struct S
        {
            using return_type = std::string;
            const StVal* st;
            std::string  s;
            template <typename... Args>
            void operator()(Args&&... args)
            {
                s += eng::val(LEXY_FWD(args)...);
            }
            std::string finish() &&
            {
                st->log += "{" + s + "};";
                return "{" + s + "}";
            }
        };
        auto sink() const
        {
            return S{st, {}};
        }
    };
    auto value_of(P1) const;
    auto value_of(P2) const;
    auto value_of(SubV) const;
};

//=== effects ===//
inline constexpr auto e0 = [] { glog += "0"; };
inline constexpr auto e1 = [] {
    glog += "1";
    return int(glog.size());
};
inline constexpr auto e2 = [](auto& st) -> decltype(void(st.log += "2")) { st.log += "2"; };
inline constexpr auto e3 = [](auto& st) -> decltype(int((st.log += "3").size())) { return int((st.log += "3").size()); };
struct E4
{
    std::string operator()() const
    {
        glog += "4";
        return "none";
    }
    template <typename St>
    auto operator()(St& st) const -> decltype(st.log += "4", std::string())
    {
        st.log += "4";
        return std::is_const_v<St> ? "const" : "state";
    }
};
inline constexpr auto e4 = E4{};
// move-only
struct U
{
    std::unique_ptr<int> p;
    friend std::string   show(const U& u)
    {
        return u.p ? "u" + std::to_string(*u.p) : "gone";
    }
};
inline constexpr auto e5 = [] { return U{std::make_unique<int>(int((glog += "5").size()))}; };

// A function of the state alone needs one; with none, or a state it does not take, only the others are used.
template <bool HasState>
struct Eff
{
    static constexpr auto name = "Eff";
    static constexpr auto rule = [] {
        auto a = LEXY_LIT("a") >> dsl::effect<e0> + dsl::effect<e1>;
        auto b = LEXY_LIT("b") >> dsl::effect<e4> + dsl::effect<e0>;
        if constexpr (HasState)
            return dsl::list(a | b | LEXY_LIT("c") >> dsl::effect<e2> + dsl::effect<e3> | LEXY_LIT("d") >> dsl::effect<e5> + dsl::effect<e3>)
                   + dsl::effect<e4>;
        else
            return dsl::list(a | b | LEXY_LIT("c") >> dsl::effect<e5> | LEXY_LIT("d") >> dsl::effect<e4> + dsl::effect<e5>) + dsl::effect<e4>;
    }();
    static constexpr auto value = eng::val;
};
// `kind`: 0 none, 1 state, 2 const state, 3 a state no effect takes
inline std::string eff_model(const std::string& in, int kind, std::string& g, std::string& st)
{
    bool        state = kind == 1 || kind == 2;
    std::string v = "({";
    auto        four = [&] {
        (state ? st : g) += "4";
        return std::string(kind == 1 ? "state" : kind == 2 ? "const" : "none");
    };
    auto five  = [&] { return "u" + std::to_string((g += "5").size()); };
    auto three = [&] { return std::to_string((st += "3").size()); };
    std::size_t i = 0;
    for (; i < in.size() && in[i] >= 'a' && in[i] <= 'd'; ++i)
    {
        if (i)
            v += ";";
        switch (in[i])
        {
        case 'a':
            g += "01";
            v += std::to_string(g.size());
            break;
        case 'b':
            v += four();
            g += "0";
            break;
        case 'c':
            if (state)
                st += "2", v += three();
            else
                v += five();
            break;
        default:
            v += state ? five() : four();
            v += "," + (state ? three() : five());
        }
    }
    if (i == 0)
        return "";
    return v + "}," + four() + ")";
}

//=== all actions, with or without state ===//
struct Seen
{
    std::string what, g, st;
};
template <typename G, typename Input, typename... St>
std::vector<Seen> all_actions(const Input& in, St&... st)
{
    std::vector<Seen> r;
    auto              take = [&](std::string what) {
        std::string s;
        if constexpr (sizeof...(St) == 1)
            ((s = st.log, st.log.clear()), ...);
        r.push_back({what, glog, s});
        glog.clear();
        vh::traces(1);
    };
    glog.clear();
    ((void)st.log.clear(), ...);
    auto ok = [](auto& x) { return std::to_string(eng::status(x)) + eng::join(x.errors()); };
    {
        bool m = lexy::match<G>(in, st...);
        take(m ? "match" : "no match");
    }
    {
        auto v = lexy::validate<G>(in, st..., eng::errs);
        take(ok(v));
    }
    {
        auto p = lexy::parse<G>(in, st..., eng::errs);
        take(ok(p) + (p.has_value() ? show_value(p.value()) : std::string()));
    }
    {
        lexy::parse_tree_for<Input> tree;
        auto                        t = lexy::parse_as_tree<G>(tree, in, st..., eng::errs);
        take(ok(t));
    }
    {
        std::string out;
        lexy::trace_to<G>(std::back_inserter(out), in, st...);
        take("trace");
    }
    return r;
}
inline void expect(const std::vector<Seen>& r, bool success, const std::string& value, const std::string& g, const std::string& st,
                   const std::string& parse_st = "?")
{
    vh::eq("match", std::string(success ? "match" : "no match"), r[0].what);
    ck((r[1].what[0] == '0') == success && r[1].what == r[3].what, "status of validate " + r[1].what + " and tree " + r[3].what);
    ck(r[2].what.compare(0, r[1].what.size(), r[1].what) == 0, "parse: " + r[2].what + " but validate: " + r[1].what);
    if (success)
        vh::eq("value", value, r[2].what.substr(r[1].what.size()));
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        eq2("global effects of action " + std::to_string(i), g, r[i].g);
        eq2("state after action " + std::to_string(i), std::string(i == 2 && parse_st != "?" ? parse_st : st), r[i].st);
    }
    vh::outcome(r[2].what + "|" + g + "|" + st);
}
using In = lexy::string_input<lexy::utf8_char_encoding>;
template <typename F>
void strings(const char* what, const char* al, int len, F f)
{
    eng::all_strings(al, vh::thorough() ? len + 2 : len, [&](const std::string& s) {
        vh::step([&] { return std::string(what) + " on " + eng::show_input(s); },
                 [&] {
                     vh::transitions(s.size());
                     eng::base_it<const char*> = s.data();
                     f(s, In(s.data(), s.size()));
                 });
    });
}
// a state nothing is known about
struct Other
{
    struct L
    {
        void        clear() {}
        operator std::string() const
        {
            return "";
        }
    } log;
};
[[maybe_unused]] static const int reg0 = parts::add<0>([](auto) {
    strings("effects, no state", "abcdx", 5, [](const std::string& s, In in) {
        std::string g, st, v = eff_model(s, 0, g, st);
        expect(all_actions<Eff<false>>(in), !v.empty(), v, g, st);
    });
    strings("effects, a state they do not take", "abcdx", 4, [](const std::string& s, In in) {
        std::string g, st, v = eff_model(s, 3, g, st);
        Other       o;
        expect(all_actions<Eff<false>>(in, o), !v.empty(), v, g, st);
    });
    strings("effects, state", "abcdx", 5, [](const std::string& s, In in) {
        std::string g, st, v = eff_model(s, 1, g, st);
        StPlain     state;
        expect(all_actions<Eff<true>>(in, state), !v.empty(), v, g, st);
    });
    strings("effects, const state", "abcdx", 5, [](const std::string& s, In in) {
        std::string   g, st, v = eff_model(s, 2, g, st);
        const StPlain state;
        expect(all_actions<Eff<true>>(in, state), !v.empty(), v, g, st);
    });
});

//=== values determined by the state ===//
struct P3 // not known to the state
{
    static constexpr auto name  = "P3";
    static constexpr auto rule  = LEXY_LIT("c") >> dsl::opt(dsl::capture(LEXY_LIT("d")));
    static constexpr auto value = eng::val;
};
struct P1 // known to both
{
    static constexpr auto name = "P1";
    static constexpr auto rule = LEXY_LIT("a") >> dsl::opt(dsl::p<P3>);
    static constexpr auto value = lexy::callback<std::string>([](auto&&...) { return std::string("static"); });
};
struct P2 // known to the state alone; a sink
{
    static constexpr auto name = "P2";
    static constexpr auto rule = LEXY_LIT("b") >> dsl::list(dsl::p<P1> | dsl::p<P3>);
};
inline auto StVal::value_of(P1) const
{
    return Cb{this, "one"};
}
inline auto StVal::value_of(P2) const
{
    return SinkCb{this};
}
LEXY_DECLARE_SUBGRAMMAR(SubV)
struct SubV
{
    static constexpr auto name = "SubV";
    static constexpr auto rule = dsl::p<P1> | dsl::p<P3>;
};
inline auto StVal::value_of(SubV) const
{
    return Cb{this, "sub"};
}
LEXY_DEFINE_SUBGRAMMAR(SubV)
LEXY_INSTANTIATE_SUBGRAMMAR(SubV, lexy::parse_action<StVal, In, eng::Errs>)
LEXY_INSTANTIATE_SUBGRAMMAR(SubV, lexy::parse_as_tree_action<StVal, In, eng::Errs>)
LEXY_INSTANTIATE_SUBGRAMMAR(SubV, lexy::parse_action<const StVal, In, eng::Errs>)

struct Inner // its value is always needed
{
    static constexpr auto name = "Inner";
    static constexpr auto rule = LEXY_LIT("p") >> dsl::parse_as<eng::PA>(dsl::p<P1> | dsl::p<P2> | dsl::p<P3> | LEXY_LIT("s") >> dsl::subgrammar<SubV, std::string>);
    static constexpr auto value = eng::val;
};
struct Vals
{
    static constexpr auto name = "Vals";
    static constexpr auto rule = dsl::list(dsl::p<P1> | dsl::p<P2> | dsl::p<P3> | dsl::p<Inner> | LEXY_LIT("s") >> dsl::subgrammar<SubV, std::string>);
    static constexpr auto value = eng::val;
};
// parses one item; the values it has, and the callbacks it calls
struct ValModel
{
    const std::string& in;
    std::size_t        pos = 0;
    std::string        log, always; // of the callbacks, of those inside parse_as
    bool               inside = false;
    bool               bad    = false;
    char               peek() const
    {
        return pos < in.size() ? in[pos] : 0;
    }
    std::string note(std::string s)
    {
        log += s + ";";
        if (inside)
            always += s + ";";
        return s;
    }
    std::string p3()
    {
        ++pos;
        if (peek() == 'd')
            return ++pos, "(<" + std::to_string(pos - 1) + "," + std::to_string(pos) + ">)";
        return "(~)";
    }
    std::string p1()
    {
        ++pos;
        return note("one(" + (peek() == 'c' ? p3() : std::string("~")) + ")");
    }
    std::string p2()
    {
        ++pos;
        std::string s;
        bool        any = false;
        while (peek() == 'a' || peek() == 'c')
            s += "(" + (peek() == 'a' ? p1() : p3()) + ")", any = true;
        bad = !any;
        return bad ? "" : note("{" + s + "}");
    }
    std::string sub()
    {
        ++pos;
        if (peek() != 'a' && peek() != 'c')
            return bad = true, "";
        auto v = peek() == 'a' ? p1() : p3();
        return note("sub(" + v + ")");
    }
    std::string inner()
    {
        ++pos;
        auto was = inside;
        inside   = true;
        auto v   = item(false);
        inside   = was;
        return bad ? "" : "(PA(" + v + "))";
    }
    bool begins(bool outer) const
    {
        auto c = peek();
        return c == 'a' || c == 'b' || c == 'c' || c == 's' || (outer && c == 'p');
    }
    std::string item(bool outer)
    {
        if (!begins(outer))
            return bad = true, "";
        switch (peek())
        {
        case 'a':
            return p1();
        case 'b':
            return p2();
        case 'c':
            return p3();
        case 's':
            return sub();
        default:
            return inner();
        }
    }
    std::string all()
    {
        std::string v = "({";
        bool        any = false;
        while (!bad && (begins(true) || !any))
        {
            v += any ? ";" : "";
            v += item(true);
            any = true;
        }
        return bad ? "" : v + "})";
    }
};
[[maybe_unused]] static const int reg1 = parts::add<1>([](auto) {
    strings("values of the state", "abcdsp", 5, [](const std::string& s, In in) {
        ValModel m{s};
        auto     v = m.all();
        StVal    st;
        eng::log.clear();
        expect(all_actions<Vals>(in, st), !v.empty(), v, "", m.always, m.log);
        const StVal cst;
        expect(all_actions<Vals>(in, cst), !v.empty(), v, "", m.always, m.log);
    });
});

//=== move-only values ===//
struct Tok
{
    static inline int alive = 0, made = 0, moves = 0;
    std::string       s;
    friend std::string show(const Tok& t)
    {
        return t.s;
    }
    template <typename... Args>
        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, Tok> && ...)))
    explicit Tok(Args&&... args);
    Tok(Tok&& o) noexcept : s(std::move(o.s))
    {
        o.s = "moved from";
        ++alive;
        ++moves;
    }
    Tok& operator=(Tok&& o) noexcept
    {
        s   = std::move(o.s);
        o.s = "moved from";
        ++moves;
        return *this;
    }
    ~Tok()
    {
        --alive;
    }
};
template <typename... Args>
    requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, Tok> && ...)))
Tok::Tok(Args&&... args)
{
    s = "T" + eng::val(args...);
    ++alive;
    ++made;
}
struct Toks
{
    using return_type = Tok;
    struct S
    {
        using return_type = Tok;
        std::string s;
        template <typename... Args>
        void operator()(Args&&... args)
        {
            s += eng::val(args...);
        }
        Tok finish() &&
        {
            return Tok(std::move(s));
        }
    };
    auto sink() const
    {
        return S{};
    }
};
struct Leaf
{
    static constexpr auto name  = "Leaf";
    static constexpr auto rule  = LEXY_LIT("a") >> dsl::opt(dsl::capture(LEXY_LIT("b")));
    static constexpr auto value = lexy::construct<Tok>;
};
struct SubM;
LEXY_DECLARE_SUBGRAMMAR(SubM)
struct SubM
{
    static constexpr auto name  = "SubM";
    static constexpr auto rule  = dsl::p<Leaf> + dsl::parse_as<Tok>(dsl::opt(dsl::p<Leaf>) + dsl::effect<e5>);
    static constexpr auto value = lexy::construct<Tok>;
};
LEXY_DEFINE_SUBGRAMMAR(SubM)
struct LeafList
{
    static constexpr auto name  = "LeafList";
    static constexpr auto rule  = dsl::list(dsl::p<Leaf> | LEXY_LIT("(") >> dsl::subgrammar<SubM, Tok> + LEXY_LIT(")"));
    static constexpr auto value = Toks{};
};
struct Moves
{
    static constexpr auto name = "Moves";
    static constexpr auto rule = dsl::parse_as<Tok>(dsl::p<LeafList>) + dsl::opt(LEXY_LIT(".") >> dsl::parse_as<Tok>(dsl::p<Leaf> + dsl::position));
    static constexpr auto value = lexy::construct<Tok>;
};
struct MoveModel
{
    const std::string& in;
    std::size_t        pos  = 0;
    int                made = 0, forced = 0; // values in total, in parse_as
    std::string        g;
    bool               bad = false, inside = false;
    char               peek() const
    {
        return pos < in.size() ? in[pos] : 0;
    }
    void make(bool force = false)
    {
        ++made;
        forced += inside || force;
    }
    std::string leaf()
    {
        if (peek() != 'a')
            return bad = true, "";
        ++pos;
        std::string v = "~";
        if (peek() == 'b')
            ++pos, v = "<" + std::to_string(pos - 1) + "," + std::to_string(pos) + ">";
        make();
        return "T(" + v + ")";
    }
    std::string sub()
    {
        auto v = leaf();
        if (bad)
            return "";
        auto was    = inside;
        inside      = true;
        auto second = peek() == 'a' ? leaf() : std::string("~");
        inside      = was;
        g += "5";
        make(true);
        second = "T(" + second + ",u" + std::to_string(g.size()) + ")";
        make();
        return "T(" + v + "," + second + ")";
    }
    std::string all()
    {
        inside = true;
        std::string l;
        bool        any = false;
        while (!bad && (peek() == 'a' || peek() == '(' || !any))
        {
            any = true;
            if (peek() == 'a')
                l += "(" + leaf() + ")";
            else if (peek() == '(')
            {
                ++pos;
                l += "(" + sub() + ")";
                if (!bad && peek() != ')')
                    bad = true;
                ++pos;
            }
            else
                bad = true;
        }
        if (bad)
            return "";
        make();
        auto v = "T(" + l + ")"; // already the right type
        if (peek() == '.')
        {
            ++pos;
            auto x = leaf();
            if (bad)
                return "";
            auto p = "@" + std::to_string(pos);
            make();
            v += ",T(" + x + "," + p + ")";
        }
        else
            v += ",~";
        inside = false;
        make();
        return "T(" + v + ")";
    }
};
[[maybe_unused]] static const int reg2 = parts::add<2>([](auto) {
    strings("move-only values", "ab().", 7, [](const std::string& s, In in) {
        MoveModel m{s};
        auto      v = m.all();
        Tok::alive = Tok::made = Tok::moves = 0;
        auto count = [&](const char* what, int made) {
            eq2(std::string("values made by ") + what, std::to_string(made), std::to_string(Tok::made));
            eq2(std::string("values alive after ") + what, "0", std::to_string(Tok::alive));
            eq2(std::string("effects of ") + what, m.g, glog);
            Tok::made = 0;
            glog.clear();
            vh::traces(1);
        };
        glog.clear();
        vh::check(lexy::match<Moves>(in) == !v.empty(), "match");
        count("match", m.forced);
        vh::check(lexy::validate<Moves>(in, lexy::noop).is_success() == !v.empty(), "validate");
        count("validate", m.forced);
        {
            lexy::parse_tree_for<In> tree;
            vh::check(lexy::parse_as_tree<Moves>(tree, in, lexy::noop).is_success() == !v.empty(), "parse_as_tree");
        }
        count("parse_as_tree", m.forced);
        {
            auto r = lexy::parse<Moves>(in, lexy::noop);
            vh::eq("value", v, r.has_value() ? r.value().s : std::string());
            if (r.has_value())
            {
                auto t = std::move(r).value();
                vh::eq("value moved out", v, t.s);
                vh::eq("value left behind", "moved from", r.value().s);
            }
        }
        count("parse", m.made);
        lexy::buffer<lexy::utf8_char_encoding> buf(s.data(), s.size());
        eng::base_it<const char*> = buf.data();
        vh::check(lexy::match<Moves>(buf) == !v.empty(), "match of a buffer");
        count("match of a buffer", m.forced);
        vh::check(lexy::parse<Moves>(buf, lexy::noop).has_value() == !v.empty(), "parse of a buffer");
        count("parse of a buffer", m.made);
        vh::outcome(v);
    });
});
PARTS_MAIN
