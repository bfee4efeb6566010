"""C31: composing rules: subgrammars, side effects, members and parse_as."""
from checks.gram import *

# production name, C++ rule, model rule, T of the subgrammar, further C++ and model members
SUBS = [
    ("S0", 'dsl::opt(LEXY_LIT("a")) + dsl::capture(LEXY_LIT("b"))',
     'm::seq(m::opt(m::lit("a")), m::cap(m::lit("b")))', "std::string", "", ""),
    # its own whitespace
    ("SW", 'LEXY_LIT("a") + dsl::position + dsl::capture(LEXY_LIT("b"))',
     'm::seq(m::lit("a"), m::position(), m::cap(m::lit("b")))', "std::string",
     'static constexpr auto whitespace = LEXY_LIT("-");', 'p.ws = m::lit("-");'),
    # its own variable of the same name
    ("SF", 'ff.create() + dsl::opt(LEXY_LIT("a") >> ff.set()) + ff.value() + LEXY_LIT("b")',
     'm::seq(m::var_create("F", 0), m::opt(m::br(m::lit("a"), m::var_set("F", 1))), m::var_value("F", true), m::lit("b"))',
     "std::string", "", ""),
    # a transparent one, with an error of its own
    ("ST", 'dsl::try_(LEXY_LIT("a")) + dsl::must(LEXY_LIT("b")).error<tagA>',
     'm::seq(m::try_(m::lit("a")), m::must(m::lit("b"), "tagA"))', "std::string", "", "p.transparent = true;"),
    # a token production
    ("SK", 'LEXY_LIT("a") + dsl::p<PB> + dsl::if_(LEXY_LIT("b"))',
     'm::seq(m::lit("a"), m::prod(M_PB()), m::if_(m::lit("b")))', "std::string", "", ""),
    # no value
    ("SN", 'dsl::if_(LEXY_LIT("a")) + LEXY_LIT("b") + dsl::position',
     'm::seq(m::if_(m::lit("a")), m::lit("b"), m::position())', "void", "", ""),
    # returns early
    ("SR", 'dsl::opt(LEXY_LIT("a") >> dsl::return_) + LEXY_LIT("b")',
     'm::seq(m::opt(m::br(m::lit("a"), m::return_())), m::lit("b"))', "std::string", "", ""),
    # recursive
    ("SX", 'LEXY_LIT("a") >> dsl::opt(dsl::recurse_branch<SX>) + LEXY_LIT("b")',
     'm::br(m::lit("a"), m::opt(m::recurse(p)), m::lit("b"))', "std::string", "", ""),
    # one in another, with other whitespace
    ("SS", 'LEXY_LIT("a") + dsl::subgrammar<SW, std::string> + LEXY_LIT("b")',
     'm::seq(m::lit("a"), m::sub(M_SW()), m::lit("b"))', "std::string",
     'static constexpr auto whitespace = LEXY_LIT("_");', 'p.ws = m::lit("_");'),
    # side effects and construction inside of it
    ("SE", 'EFFECT + dsl::parse_as<eng::PA>(LEXY_LIT("a") + dsl::p<PB>) + EFFECTV + LEXY_LIT("b")',
     'm::seq(m::effect(false), m::parse_as(m::seq(m::lit("a"), m::prod(M_PB()))), m::effect(true), m::lit("b"))',
     "std::string", "", ""),
    ("SL", 'dsl::list(dsl::capture(LEXY_LIT("a")), dsl::sep(LEXY_LIT("b")))',
     'm::list(m::cap(m::lit("a")), true, m::sep(m::lit("b")))', "std::string", "", ""),
]

PRELUDE = r'''
#include <lexy/dsl/subgrammar.hpp>
struct tagA { static constexpr auto name = "tagA"; };
struct tagB { static constexpr auto name = "tagB"; };
struct F; struct C;
inline constexpr auto ff = dsl::context_flag<F>;
inline constexpr auto cx = dsl::context_counter<C>;
#define EFFECT dsl::effect<eng::effect_fn>
#define EFFECTV dsl::effect<eng::effect_value_fn>
#define PRODN(N, BASE, CRULE, MRULE, CMEM, MMEM) \
struct N BASE { static constexpr auto name = #N; static constexpr auto rule = CRULE; \
  static constexpr auto value = eng::val; CMEM }; \
inline model::Prod& M_##N() { static model::Prod p; static bool once = [] { p.name = #N; p.rule = MRULE; MMEM return true; }(); (void)once; return p; }
#define NOTHING
#define TOKEN : lexy::token_production
#define TRANSPARENT : lexy::transparent_production
PRODN(PB, NOTHING, dsl::if_(LEXY_LIT("b")) + dsl::position, m::seq(m::if_(m::lit("b")), m::position()), , )
PRODN(PC, NOTHING, dsl::capture(LEXY_LIT("a")) >> dsl::opt(dsl::capture(LEXY_LIT("b"))), m::br(m::cap(m::lit("a")), m::opt(m::cap(m::lit("b")))), , )
PRODN(PL, NOTHING, dsl::list(dsl::p<PC>), m::list(m::prod(M_PC()), true), , )
PRODN(PT, TOKEN, LEXY_LIT("a") >> dsl::position + dsl::if_(LEXY_LIT("b")), m::br(m::lit("a"), m::position(), m::if_(m::lit("b"))), , p.token = true;)
// uses and changes the flag and the counter of whoever contains it
PRODN(PF, NOTHING, LEXY_LIT("a") >> ff.toggle() + ff.value() + cx.inc(), m::br(m::lit("a"), m::var_toggle("F"), m::var_value("F", true), m::var_add("C", 1)), , )
// whitespace is the one of whoever contains it, in every form
PRODN(PQ, NOTHING, dsl::parse_as<eng::PA>(dsl::capture(LEXY_LIT("a")) >> dsl::position) >> dsl::if_(LEXY_LIT("b")) + dsl::position, m::br(m::parse_as(m::br(m::cap(m::lit("a")), m::position())), m::if_(m::lit("b")), m::position()), , )
PRODN(PR, NOTHING, dsl::parse_as<eng::PA>(dsl::capture(LEXY_LIT("a")) + dsl::position + dsl::p<PQ>) + dsl::opt(dsl::capture(LEXY_LIT("b"))), m::seq(m::parse_as(m::seq(m::cap(m::lit("a")), m::position(), m::prod(M_PQ()))), m::opt(m::cap(m::lit("b")))), , )
PRODN(PM, NOTHING, (LEXY_MEM(x) = dsl::capture(LEXY_LIT("a")) >> dsl::opt(LEXY_LIT("b"))) >> (LEXY_MEM(y) = dsl::p<PB>), m::br(m::member("m:x", m::br(m::cap(m::lit("a")), m::opt(m::lit("b")))), m::member("m:y", m::prod(M_PB()))), , )
PRODN(PTQ, TOKEN, dsl::parse_as<eng::PA>(dsl::capture(LEXY_LIT("a")) >> dsl::p<PQ>), m::parse_as(m::br(m::cap(m::lit("a")), m::prod(M_PQ()))), , p.token = true;)
// no value callback is needed outside of parse_as
PRODN(PE, NOTHING, LEXY_LIT("a") >> EFFECTV + dsl::parse_as<eng::PA>(dsl::capture(LEXY_LIT("b"))), m::br(m::lit("a"), m::effect(true), m::parse_as(m::cap(m::lit("b")))), , )
'''


def subs():
    out = ""
    for n, c, mr, t, mem, mm in SUBS:
        out += "struct %s;\nLEXY_DECLARE_SUBGRAMMAR(%s)\n" % (n, n)
    for n, c, mr, t, mem, mm in SUBS:
        base = "TRANSPARENT" if n == "ST" else "TOKEN" if n == "SK" else "NOTHING"
        if n == "SK":
            mm += "p.token = true;"
        if t == "void":
            out += ("struct %s { static constexpr auto name = \"%s\"; static constexpr auto rule = %s; "
                    "static constexpr auto value = lexy::noop; %s };\n" % (n, n, c, mem))
            out += ("inline model::Prod& M_%s() { static model::Prod p; static bool once = [] { p.name = \"%s\"; "
                    "p.rule = %s; %s return true; }(); (void)once; return p; }\n" % (n, n, mr, mm))
        else:
            out += "PRODN(%s, %s, (%s), (%s), %s, %s)\n" % (n, base, c, mr, mem, mm)
        out += "LEXY_DEFINE_SUBGRAMMAR(%s)\n" % n
        # one of each action is instantiated explicitly, as a user has to
        if n in ("S0", "SW"):
            out += ("using In%s = lexy::string_input<ENG_ENC>;\n"
                    "LEXY_INSTANTIATE_SUBGRAMMAR(%s, lexy::match_action<void, In%s>)\n"
                    "LEXY_INSTANTIATE_SUBGRAMMAR(%s, lexy::validate_action<void, In%s, eng::Errs>)\n"
                    "LEXY_INSTANTIATE_SUBGRAMMAR(%s, lexy::parse_action<void, In%s, eng::Errs>)\n"
                    "LEXY_INSTANTIATE_SUBGRAMMAR(%s, lexy::parse_as_tree_action<void, In%s, eng::Errs>)\n"
                    % ((n,) * 9))
    return out


PRELUDE += subs()


def sub(n):
    t = next(s[3] for s in SUBS if s[0] == n)
    return Rl("dsl::subgrammar<%s, %s>" % (n, t), "m::sub(M_%s(), %s)" % (n, _b(t != "void")), vals=t != "void")


def _b(x):
    return "true" if x else "false"


EFF = Rl("EFFECT", "m::effect(false)", cons=False)
EFFV = Rl("EFFECTV", "m::effect(true)", cons=False, vals=True)


def pa(r, void=False):
    return Rl("dsl::parse_as<%s>(%s)" % ("void" if void else "eng::PA", r.c),
              "m::parse_as(%s, %s)" % (r.m, _b(void)), br=r.br, ubr=r.ubr, cons=r.cons, vals=not void)


def mem(n, r, macro=True):
    l = "LEXY_MEM(%s)" % n if macro else "dsl::member<&eng::Members::%s>" % n
    return Rl("(%s = %s)" % (l, r.c), 'm::member("m:%s", %s)' % (n, r.m), br=r.br, ubr=r.ubr,
              cons=r.cons, vals=True)


def raw(c, m_, **k):
    return Rl(c, m_, **k)


def grammars(tier):
    th = tier == "thorough"
    f = Family(prelude=PRELUDE, wants="eng::W_MATCH|eng::W_VALIDATE|eng::W_PARSE|eng::W_TREE|eng::W_TRACE")
    a, b, c, l, r = lit("a"), lit("b"), lit("c"), lit("("), lit(")")
    com = lit(",")
    ws = ('static constexpr auto whitespace = LEXY_LIT("_");', 'p.ws = m::lit("_");')
    ca, cb = cap(a), cap(b)
    PC, PL, PT = prod("PC", True), prod("PL", True), prod("PT", True)
    PB, PE, PF = prod("PB", False), prod("PE", True), prod("PF", True)
    fcreate = raw("ff.create()", 'm::var_create("F", 0)', cons=False)
    fset = raw("ff.set()", 'm::var_set("F", 1)', cons=False)
    fvalue = raw("ff.value()", 'm::var_value("F", true)', cons=False, vals=True)
    ftoggle = raw("ff.toggle()", 'm::var_toggle("F")', cons=False)
    fis = raw("ff.is_set()", 'm::var_is("F", 1)', br=True, cons=False)
    ccreate = raw("cx.create()", 'm::var_create("C", 0)', cons=False)
    cinc = raw("cx.inc()", 'm::var_add("C", 1)', cons=False)
    cvalue = raw("cx.value()", 'm::var_value("C", false)', cons=False, vals=True)

    # in the quick tier not every grammar is instantiated for every action
    n = [0]
    FEW = ["W_MATCH|W_PARSE", "W_PARSE|W_TREE", "W_VALIDATE|W_PARSE", "W_TREE|W_TRACE", "W_PARSE|W_MATCH|W_TREE"]

    def few(k=0):
        return None if th else FEW[(n[0] + k) % 5].replace("W_", "eng::W_")

    # subgrammars in every position
    for sn, *_ in SUBS:
        S = sub(sn)
        shapes = [
            (S, None), (seq(l, S, r), None), (seq(S, S), None),
            (seq(l, position, S, position, r), None),
            (choice(br(l, S, r), br(c, S), br(a, r)), "(abc)"),
            (opt(br(l, S)), None), (seq(opt(br(l, S)), if_(r)), None),
            (seq(try_(seq(l, S)), r), None),
            (seq(try_(seq(l, S), find([")"]), True), r), None),
            (seq(ca, S, cb), "ab"),
            (mem("x", S), None), (seq(l, pa(seq(ca, S, position)), r), "(ab)"),
            (pa(br(l, S)), "(ab)"), (EFFV if not S.vals else seq(EFF, S, EFFV), "ab"),
        ]
        if S.vals:
            shapes += [(list_(br(l, S), sep(com)), "(ab,"), (times(2, seq(l, S)), None),
                       (Tm(r, open_=l).list(S, sep(com)), "(ab),"), (Tm(r, open_=l).opt(br(c, S)), "(abc)"),
                       (Tm(r, open_=l).try_(S), None)]
        else:
            shapes += [(while_(br(l, S)), "(ab"), (seq(while_(br(l, S, com)), r), "(ab),"), (loop(choice(br(l, S), else_(break_))), "(ab")]
        for s, al in shapes:
            al = al or "(ab)"
            x = "-" if sn in ("SW", "SS") else ""
            k = len(al) + len(x)
            n[0] += 1
            f.add(s, al + x, (6 if k <= 4 else 5) + th - (not th and k > 6), wants=few())
            # with whitespace around it that it does not know about
            f.add(s, al + x + "_", (5 if k <= 4 else 4) + th, *ws, wants=few(2))
        # variables
        if sn == "SF":
            for s in [seq(fcreate, S, fvalue), seq(fcreate, fset, S, fvalue), seq(fcreate, fset, opt(br(l, S)), fvalue),
                      seq(fcreate, fset, try_(seq(l, S, r)), fvalue), seq(fcreate, ccreate, try_(S), PF, fvalue, cvalue),
                      seq(fcreate, ftoggle, pa(seq(S, fvalue, ftoggle)), fvalue)]:
                f.add(s, "(ab)", 6)

    # side effects: once, in order, only where the parser gets to
    effs = [
        EFF, EFFV, seq(EFF, EFFV), seq(a, EFFV), seq(EFFV, a), seq(EFFV, a, EFFV, b, EFFV),
        choice(br(a, EFFV), br(b, EFF, EFFV)), choice(br(a, EFFV, b), else_(seq(EFFV, b))),
        opt(br(a, EFFV)), seq(opt(br(a, EFFV)), opt(br(b, EFFV))), seq(while_(br(a, EFF)), EFFV),
        seq(while_(choice(br(a, EFF, b), br(c, EFF))), EFFV), list_(br(a, EFFV), sep(com)), list_(br(a, EFFV)),
        list_(choice(br(a, EFFV), br(b, EFFV, c))), times(2, seq(EFFV, a)),
        seq(try_(seq(EFFV, a, EFFV, b)), EFFV, c), seq(try_(seq(a, EFFV, b), find(["c"]), True), c, EFFV),
        try_(seq(a, EFFV), seq(EFFV, if_(b)), True), seq(EFF, if_(br(a, EFF, b)), EFFV),
        Tm(r, open_=l).list(seq(EFFV, a, EFFV), sep(com)), Tm(r, open_=l).opt(br(a, EFFV)),
        combination(False, [br(a, EFFV), br(b, EFFV)], "tagA", "tagB"),
        combination(True, [br(a, EFFV), br(b, EFFV, c)]),
        seq(PE, EFFV, opt(PE)), list_(PE, sep(com)), pa(seq(EFFV, a, EFFV)), seq(EFFV, pa(seq(EFFV, a)), EFFV),
        seq(peek(a), EFFV, ca), loop(choice(br(a, EFF), br(b, EFF, break_), else_(break_))),
        seq(opt(br(a, EFFV, return_)), EFFV, b), opt(br(PT, EFFV, b)), do_while(seq(EFF, a), br(b, EFF)),
        flag(br(a, EFF)), seq(nullopt, EFFV, a),
    ]
    for s in effs:
        f.add(s, "abc" + ("(),"if "(" in s.c else "," if '","' in s.c else ""), 6 if '(")' not in s.c else 4 + th)
        n[0] += 1
        f.add(s, "abc_" + (","if '","' in s.c else ""), 4 + th, *ws, wants=few())

    # parse_as, members: transparent for everything but the values
    plain = [a, ca, seq(ca, cb), seq(a, cb, position), PC, PL, PT, PB, seq(PC, cb), br(ca, PB), br(a, PC), PE,
             choice(br(a, cb), br(b, PC)), choice(ca, PC if False else br(b, position)), opt(ca), opt(PC), opt(br(a, b)),
             list_(ca), list_(PC, sep(com)), list_(br(a, cb), tsep(com)), opt_list(br(ca, cb)), times(2, ca),
             try_(seq(ca, cb)), try_(ca), try_(br(ca, cb), cb, True), must(ca, "tagA"), error("tagA", a) if th else seq(ca, error("tagA")),
             tok_error(a, "tagA"), position, nullopt, pos_(a), until(b), if_(br(a, b)), while_one(br(a, b)), Tm(b).list(br(ca, c)),
             Tm(c, open_=a).opt_list(cb, sep(com)), Tm(b).try_(ca), flag(a), combination(False, [ca, cb]),
             combination(True, [br(ca, c), cb]), inline_("PC", PC), eof, recover([ca, cb], ["c"]) if th else ca, any_,
             seq(EFFV, ca), br(a, EFFV, cb), seq(opt(a), PC, opt(b)), repeat(1, ca) if False else list_(pos_(a)),
             raw("dsl::no_whitespace(%s)" % seq(ca, cb).c, "m::no_ws(%s)" % seq(ca, cb).m, vals=True)]
    # a quarter of these in the quick tier: every rule, wrapper and position, but not all of them together
    def add(*args):
        n[0] += 1
        if th or n[0] % 5 == 0:
            f.add(*args, wants=None if th else "eng::W_PARSE|eng::W_TREE" if n[0] % 10 else "eng::W_PARSE|eng::W_MATCH")
    for p in plain:
        for w in (pa(p), pa(p, True), pa(pa(p)), pa(seq(p, position)), pa(seq(position, pa(p)))) \
                + ((mem("x", p), mem("y", p, False), mem("z", pa(p)), pa(mem("x", p))) if p.vals else ()):
            al = "abc," if '","' in p.c else "abc"
            add(w, al, 5)
            add(seq(position, w, cb), al, 4, *(ws if n[0] % 2 else ()))
            add(try_(seq(w, c)), al + "_", 4, *ws)
            if w.br and not w.ubr:
                add(opt(w), al, 4)
                add(choice(w, br(b, position), c), al, 4)
                if w.cons:
                    add(seq(if_(br(w, c)), opt(b)), al, 4)
                    if w.vals:
                        add(list_(w, sep(c)), al, 5)
                        add(opt_list(br(w, c)), al, 4)
                        add(Tm(c).list(w), al, 5)
                    add(seq(try_(w), opt(c)), al, 4)
    # in productions that take over the whitespace
    PQ, PR, PM, PTQ = prod("PQ", True), prod("PR", False), prod("PM", True), prod("PTQ", True)
    for s in [PQ, PR, PM, PTQ, seq(PQ, PQ), seq(PR, PM), seq(PTQ, opt(PQ)), opt(PM), choice(PTQ, br(b, PM)), list_(PQ), list_(PM, sep(b)),
              pa(PQ), pa(seq(PR, b)), pa(br(PQ, PR)), mem("x", PQ), try_(seq(PQ, c), find(["c"])), opt(pa(br(PM, c)))]:
        f.add(s, "ab_" + ("c" if '"c"' in s.c else ""), 7 + th - ('"c"' in s.c), *ws)
    # several members
    X, Y, Z = mem("x", ca), mem("y", PC), mem("z", br(cb, if_(c)))
    for s in [seq(X, Y), seq(X, Z), seq(Z, X, Y), seq(opt(br(X, Z)), opt(c)), choice(br(X, Z), Z), combination(False, [X, Z]),
              combination(True, [X, Z]), combination(False, [mem("y", ca, False), Z], "tagA", "tagB"),
              combination(True, [mem("x", PC, False), mem("y", br(b, PC)), mem("z", cap(c))]),
              list_(br(X, Z)), list_(choice(X, Z), sep(com)), seq(mem("x", opt(ca)), mem("y", opt(cb), False), mem("z", flag(c))),
              seq(mem("x", list_(ca)), mem("y", list_(cb))), try_(seq(X, Z)), Tm(c).list(choice(X, Z)), times(2, seq(X, Z)),
              pa(seq(X, Z)), pa(combination(False, [X, Z]))]:
        f.add(s, "abc,", 5)
        f.add(s, "abc_", 5, *ws)
    # variables and depth survive parse_as in both directions
    V = [seq(fcreate, pa(fset), fvalue), seq(fcreate, fset, pa(seq(fvalue, ftoggle)), fvalue),
         seq(fcreate, ccreate, pa(seq(opt(PF), cinc)), fvalue, cvalue),
         seq(fcreate, ccreate, pa(list_(PF)), fvalue, cvalue), seq(fcreate, ccreate, list_(pa(PF)), fvalue, cvalue),
         seq(fcreate, pa(choice(br(fis, ca), br(b, fset))), opt(br(fis, ca)), fvalue),
         seq(fcreate, ccreate, try_(pa(seq(PF, cinc, c))), fvalue, cvalue), seq(fcreate, ccreate, opt(pa(br(PF, c))), fvalue, cvalue),
         seq(fcreate, ccreate, pa(pa(seq(fset, PF))), fvalue, cvalue),
         seq(fcreate, ccreate, times(2, pa(PF)), fvalue, cvalue), seq(fcreate, ccreate, PL, pa(fset), opt(PF), fvalue, cvalue)]
    for s in V:
        f.add(s, "abc", 6)
        f.add(s, "ab_", 5, *ws)
    nows = lambda x: raw("dsl::no_whitespace(%s)" % x.c, "m::no_ws(%s)" % x.m, br=x.br, vals=x.vals)
    for s in [nows(seq(pa(seq(ca, cb)), a)), pa(nows(seq(ca, cb))), seq(nows(pa(seq(PC, PC))), a), pa(seq(nows(seq(a, PC)), b)),
              seq(pa(nows(seq(ca, b))), ca, b), nows(seq(mem("x", ca), pa(cb), a)), seq(try_(pa(nows(seq(ca, b)))), opt(b), opt(b))]:
        f.add(s, "ab_", 7, *ws)
    REC = Rl("dsl::recurse<SELF>", "m::recurse(p)", vals=True)
    for d in (2, 3):
        for s in [choice(br(l, pa(REC), r), ca), choice(br(l, pa(seq(REC, REC)), r), a), br(l, try_(pa(opt(br(a, REC)))), opt(br(r, pa(REC)))),
                  pa(choice(br(l, REC, r), ca)), seq(opt(br(l, try_(pa(REC)))), ca, opt(br(r, REC)))]:
            f.add(s, "(a)", 8 if th else 7, "static constexpr auto max_recursion_depth = %d;" % d, "p.max_depth = %d;" % d)
    return f
