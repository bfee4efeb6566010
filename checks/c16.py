"""C16: automatic whitespace."""
from checks.gram import *

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
struct tagB { static constexpr auto name = "tagB"; };
// inherits the whitespace of whoever uses it
struct PA { static constexpr auto name = "PA";
    static constexpr auto rule = LEXY_LIT("a") >> dsl::capture(LEXY_LIT("b"));
    static constexpr auto value = eng::val; };
// no automatic whitespace inside
struct PT : lexy::token_production { static constexpr auto name = "PT";
    static constexpr auto rule = LEXY_LIT("a") >> dsl::capture(LEXY_LIT("b")) + dsl::opt(LEXY_LIT("a"));
    static constexpr auto value = eng::val; };
// whitespace of its own
struct PW { static constexpr auto name = "PW";
    static constexpr auto whitespace = LEXY_LIT("_");
    static constexpr auto rule = dsl::capture(LEXY_LIT("a")) + LEXY_LIT("b");
    static constexpr auto value = eng::val; };
// a token production with whitespace of its own
struct PTW : lexy::token_production { static constexpr auto name = "PTW";
    static constexpr auto whitespace = LEXY_LIT("_");
    static constexpr auto rule = dsl::capture(LEXY_LIT("a")) + LEXY_LIT("b") + dsl::p<PA>;
    static constexpr auto value = eng::val; };
// nested
struct PN { static constexpr auto name = "PN";
    static constexpr auto rule = LEXY_LIT("b") >> dsl::p<PW> + dsl::p<PA>;
    static constexpr auto value = eng::val; };
struct PX : lexy::transparent_production { static constexpr auto name = "PX";
    static constexpr auto rule = LEXY_LIT("a") >> LEXY_LIT("b");
    static constexpr auto value = eng::val; };
inline model::Prod& M_PA() { static model::Prod p{"PA", m::br(m::lit("a"), m::cap(m::lit("b")))}; return p; }
inline model::Prod& M_PT() { static model::Prod p{"PT", m::br(m::lit("a"), m::cap(m::lit("b")), m::opt(m::lit("a"))), true}; return p; }
inline model::Prod& M_PW() { static model::Prod p{"PW", m::seq(m::cap(m::lit("a")), m::lit("b")), false, false, true, m::lit("_")}; return p; }
inline model::Prod& M_PTW() { static model::Prod p{"PTW", m::seq(m::cap(m::lit("a")), m::lit("b"), m::prod(M_PA())), true, false, true, m::lit("_")}; return p; }
inline model::Prod& M_PN() { static model::Prod p{"PN", m::br(m::lit("b"), m::prod(M_PW()), m::prod(M_PA()))}; return p; }
inline model::Prod& M_PX() { static model::Prod p{"PX", m::br(m::lit("a"), m::lit("b")), false, true}; return p; }
'''


def no_ws(r):
    return Rl("dsl::no_whitespace(%s)" % r.c, "m::no_ws(%s)" % r.m, br=r.br, ubr=r.ubr, vals=r.vals,
              cons=r.cons)


def ws(r):
    return Rl("dsl::whitespace(%s)" % r.c, "m::whitespace(%s)" % r.m, cons=False)


# (rule of the whitespace, alphabet used with it)
WS = [
    (lit(" "), "ab _"),
    (lset(" ", "_"), "ab _"),
    (cc(" _", "sp"), "ab _"),
    (choice(lit(" "), br(lit("_"), until(lit("!")))), "ab_!"),
    (br(lit("_"), lit("!")), "ab_!"),
    (lit("_!"), "ab_!"),
    (choice(lit("_"), br(lit("!"), lit("!"))), "ab_!"),
    (lit("aa"), "ab_"),
    (token(seq(lit("_"), opt(lit("!")))), "ab_!"),
]


def grammars(tier):
    f = Family(prelude=PRELUDE, wants="eng::W_PARSE|eng::W_TREE")
    th = tier == "thorough"
    a, b, ab = lit("a"), lit("b"), lit("ab")
    PA, PT, PN, PX = prod("PA", True), prod("PT", True), prod("PN", True), prod("PX", True)
    PW, PTW = prod("PW", False), prod("PTW", False)
    R = [a, cap(a), seq(a, b), seq(cap(ab), a), PA, PT, PW, PTW, PN, PX, seq(PT, a), seq(PA, PT),
         seq(PW, PA), seq(PTW, cap(b)), seq(a, eof), seq(PX, position),
         token(seq(a, b)), cap(token(seq(a, opt(b)))), choice(PT, b), opt(PA), seq(opt(a), cap(b)),
         list_(a, sep(b)), list_(cap(cc("ab"))), list_(PT), list_(PA, sep(b)),
         no_ws(seq(a, b)), seq(no_ws(seq(a, cap(b))), a), no_ws(seq(a, PA, b)), no_ws(PT),
         seq(no_ws(seq(a, no_ws(seq(b, a)), b)), a), no_ws(list_(a)), choice(no_ws(br(a, b)), b),
         seq(no_ws(seq(a, PW, b)), a),
         try_(seq(a, b)), try_(no_ws(seq(a, b))), seq(try_(no_ws(seq(a, b)), find(["b"]), True), b, a),
         seq(try_(seq(a, b), find(["b"]), True), b), seq(try_(PT), a), seq(try_(PW), cap(a)),
         seq(a, position, b), seq(peek(ab), a), seq(peek(seq(a, b)), a, b), seq(until(b), a), cap(until(b)),
         seq(must(a, "tagA"), b), while_(br(a, b)), loop(choice(br(a, b), break_)),
         seq(a, ws(lit("_")), b), seq(ws(lset("_", "!")), a, b), no_ws(seq(a, ws(lit("_")), b)),
         combination(False, [a, cap(b)]), times(2, a, sep(b)),
         Tm(lit("b")).list(cap(a), None), Tm(lit("b")).try_(seq(a, a)), Tm(lit("b"), (), a).try_(seq(a, a)),
         Tm(lit("b"), (), a).opt_list(cap(a), None), seq(if_(PA), a), seq(error("tagA", ab)),
         seq(lookahead(["b"], ["_"]), a), nfb(a, cc("b")), seq(nfb(a, cc("b")), b),
         seq(any_), seq(until_eof(b)), seq(a, eol), flag(a), seq(flag(ab), b)]
    for i, (w, al) in enumerate(WS):
        if any(x in w.c for x in ("opt",)) and False:
            continue
        mem = "static constexpr auto whitespace = %s;" % w.c
        mdl = "p.has_ws = true; p.ws = %s;" % w.m
        for r in R:
            f.add(r, al, 5 if len(al) > 3 else 6, mem, mdl)
            if th:
                f.add(seq(r, cap(b)), al, 5, mem, mdl)
                f.add(seq(r, PN), al, 5, mem, mdl)
    # no whitespace defined: only explicit whitespace and productions with their own
    for r in R:
        f.add(r, "ab_", 5)
    return f
