"""C17: context counters, flags and identifiers."""
import itertools
from checks.gram import *

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
struct X; struct Y; struct Z; struct F; struct H; struct I; struct J;
inline constexpr auto cx = dsl::context_counter<X>;
inline constexpr auto cy = dsl::context_counter<Y>;
inline constexpr auto cz = dsl::context_counter<Z>;
inline constexpr auto ff = dsl::context_flag<F>;
inline constexpr auto fh = dsl::context_flag<H>;
inline constexpr auto id0 = dsl::identifier(LEXY_CHAR_CLASS("idc", dsl::lit_c<'x'> / dsl::lit_c<'y'>));
inline constexpr auto id1 = dsl::identifier(LEXY_CHAR_CLASS("idl", dsl::lit_c<'x'> / dsl::lit_c<'y'>),
                                            LEXY_CHAR_CLASS("idt", dsl::lit_c<'y'> / dsl::lit_c<'a'>));
inline constexpr auto id2 = id0.reserve(LEXY_LIT("xy"));
template <int N> struct II;
inline constexpr auto ci0 = dsl::context_identifier<I>(id0);
inline constexpr auto cj0 = dsl::context_identifier<J>(id0);
inline constexpr auto ci1 = dsl::context_identifier<I>(id1);
inline constexpr auto ci2 = dsl::context_identifier<I>(id2);
namespace mm {
inline m::P id0() { return m::ident("xy", "xy", "idc"); }
inline m::P id1() { return m::ident("xy", "ya", "idl"); }
inline m::P id2() { return m::ident("xy", "xy", "idc", {"xy"}); }
}
#define PRODN(N, CRULE, MRULE, ...) \
struct N { static constexpr auto name = #N; static constexpr auto rule = CRULE; \
  static constexpr auto value = eng::val; __VA_ARGS__ }; \
inline model::Prod& M_##N() { static model::Prod p{#N, MRULE}; return p; }
// modifies the variable of whoever uses it
PRODN(PInc, (LEXY_LIT("p") >> cx.inc() + cx.value()),
      m::br(m::lit("p"), m::var_add("X", 1), m::var_value("X", false)))
// shadows it, starts anew
PRODN(PSh, (LEXY_LIT("q") >> cx.create<5>() + cx.inc() + cx.value()),
      m::br(m::lit("q"), m::var_create("X", 5), m::var_add("X", 1), m::var_value("X", false)))
// creates, changes both its own and the outer one, then may fail
PRODN(PFail, (LEXY_LIT("r") >> cx.inc() + cx.create<7>() + cx.dec() + LEXY_LIT("a") + cx.value()),
      m::br(m::lit("r"), m::var_add("X", 1), m::var_create("X", 7), m::var_add("X", -1), m::lit("a"),
            m::var_value("X", false)))
// uses a child that uses the shadowing variable
PRODN(PNest, (LEXY_LIT("s") >> cx.create<2>() + dsl::p<PInc> + cx.value()),
      m::br(m::lit("s"), m::var_create("X", 2), m::prod(M_PInc()), m::var_value("X", false)))
PRODN(PFlag, (LEXY_LIT("t") >> ff.toggle() + ff.create<true>() + ff.value() + ff.toggle() + ff.value()),
      m::br(m::lit("t"), m::var_toggle("F"), m::var_create("F", 1), m::var_value("F", true), m::var_toggle("F"), m::var_value("F", true)))
// returns early while its variable exists
PRODN(PRet, (LEXY_LIT("u") >> cx.create<3>() + dsl::opt(LEXY_LIT("a") >> dsl::return_) + cx.value()),
      m::br(m::lit("u"), m::var_create("X", 3), m::opt(m::br(m::lit("a"), m::return_())), m::var_value("X", false)))
// recursion: every level has its own
struct PRec { static constexpr auto name = "PRec"; static constexpr auto max_recursion_depth = 20;
  static constexpr auto rule = LEXY_LIT("(") >> cx.inc() + cx.create<1>() + dsl::opt(dsl::recurse_branch<PRec>)
      + dsl::if_(LEXY_LIT("a") >> cx.inc()) + cx.value() + LEXY_LIT(")");
  static constexpr auto value = eng::val; };
inline model::Prod& M_PRec() { static model::Prod p; static bool once = [] { p.name = "PRec";
  p.rule = m::br(m::lit("("), m::var_add("X", 1), m::var_create("X", 1), m::opt(m::recurse(p)),
      m::if_(m::br(m::lit("a"), m::var_add("X", 1))), m::var_value("X", false), m::lit(")")); p.max_depth = 20; return true; }(); (void)once;
  return p; }
PRODN(PId, (LEXY_LIT("p") >> ci0.create() + ci0.capture() + dsl::if_(LEXY_LIT("-") >> ci0.rematch())),
      m::br(m::lit("p"), m::var_create("I"), m::id_capture("I", mm::id0()), m::if_(m::br(m::lit("-"), m::id_rematch("I", mm::id0())))))
PRODN(PIdO, (LEXY_LIT("q") >> ci0.capture()), m::br(m::lit("q"), m::id_capture("I", mm::id0())))
PRODN(PIdR, (ci0.rematch() >> LEXY_LIT("!")), m::br(m::id_rematch("I", mm::id0()), m::lit("!")))
'''

V = {"cx": "X", "cy": "Y", "cz": "Z", "ff": "F", "fh": "H"}


def R(c, m, **k):
    return Rl(c, m, **dict(dict(cons=False), **k))


def create(v, n=0):
    if v in ("ff", "fh"):
        return R("%s.create<%s>()" % (v, "true" if n else "false"),
                 'm::var_create("%s", %d)' % (V[v], n))
    return R("%s.create<%d>()" % (v, n), 'm::var_create("%s", %d)' % (V[v], n))


def create0(v):
    return R("%s.create()" % v, 'm::var_create("%s", 0)' % V[v])


def inc(v): return R("%s.inc()" % v, 'm::var_add("%s", 1)' % V[v])
def dec(v): return R("%s.dec()" % v, 'm::var_add("%s", -1)' % V[v])
def value(v): return R("%s.value()" % v, 'm::var_value("%s", %s)' %
                       (V[v], "true" if v in ("ff", "fh") else "false"), vals=True)
def push(v, r): return R("%s.push(%s)" % (v, r.c), 'm::var_push("%s", %s, 1)' % (V[v], r.m),
                         br=r.br, ubr=r.ubr, vals=r.vals, cons=r.cons)
def pop(v, r): return R("%s.pop(%s)" % (v, r.c), 'm::var_push("%s", %s, -1)' % (V[v], r.m),
                        br=r.br, ubr=r.ubr, vals=r.vals, cons=r.cons)
def is_(v, n): return R("%s.is<%d>()" % (v, n), 'm::var_is("%s", %d)' % (V[v], n), br=True)
def is_zero(v): return R("%s.is_zero()" % v, 'm::var_is("%s", 0)' % V[v], br=True)
def fset(v): return R("%s.set()" % v, 'm::var_set("%s", 1)' % V[v])
def freset(v): return R("%s.reset()" % v, 'm::var_set("%s", 0)' % V[v])
def toggle(v): return R("%s.toggle()" % v, 'm::var_toggle("%s")' % V[v])
def is_set(v): return R("%s.is_set()" % v, 'm::var_is("%s", 1)' % V[v], br=True)
def is_reset(v): return R("%s.is_reset()" % v, 'm::var_is("%s", 0)' % V[v], br=True)
def eqc(*vs): return R("dsl::equal_counts(%s)" % ", ".join(vs),
                       'm::var_eq({%s})' % ", ".join('"%s"' % V[v] for v in vs), br=True)


def icreate(v): return R("%s.create()" % v, 'm::var_create("%s")' % v[1].upper())
def icap(v): return R("%s.capture()" % v, 'm::id_capture("%s", mm::id%s())' % (v[1].upper(), v[2]),
                      br=True, vals=True, cons=True)
def irem(v, tag=None): return R("%s.rematch()%s" % (v, ".error<%s>" % tag if tag else ""),
                      'm::id_rematch("%s", mm::id%s()%s)' % (v[1].upper(), v[2], ', "%s"' % tag if tag else ""),
                      br=True, cons=True)
def ident(n): return R("id%d" % n, "mm::id%d()" % n, br=True, vals=True, cons=True)


def grammars(tier):
    th = tier == "thorough"
    f = Family(prelude=PRELUDE, wants="eng::W_MATCH|eng::W_VALIDATE|eng::W_PARSE|eng::W_TREE")
    a, b, c, d = lit("a"), lit("b"), lit("c"), lit("d")
    PInc, PSh, PFail, PNest = (prod(x, True) for x in ("PInc", "PSh", "PFail", "PNest"))
    PFlag, PRet = prod("PFlag", True), prod("PRet", True)
    PRec = Rl("dsl::p<PRec>", "m::prod(M_PRec())", br=True, vals=True)
    xv = value("cx")
    # operations selected by the input; each shows the value(s) before/after it
    ops = [
        ("a", br(a, xv, inc("cx"), xv)),
        ("b", br(b, xv, dec("cx"), xv)),
        ("c", br(push("cx", lit("c")), xv)),
        ("d", br(pop("cx", lit("dd")), xv)),
        ("e", push("cx", br(lit("e"), opt(a), xv))),
        ("f", br(pop("cx", while_one(lit("f"))), xv)),
        ("g", br(lit("g"), choice(br(is_("cx", 1), error("tagA")), br(is_zero("cx"), inc("cx")),
                                  else_(seq(dec("cx")))), xv)),
        ("h", br(lit("h"), if_(br(is_("cx", -1), inc("cx"))), if_(br(is_("cx", 2), dec("cx"), dec("cx"))), xv)),
        ("p", PInc), ("q", PSh), ("r", br(peek(lit("r")), try_(PFail), xv)), ("s", PNest), ("u", PRet),
        ("y", br(lit("y"), inc("cy"), value("cy"))),
        ("z", br(lit("z"), push("cy", while_(a)), value("cy"), eqc("cx", "cy"), xv)),
        ("w", br(lit("w"), choice(br(eqc("cx", "cy"), value("cy")), else_(nullopt)))),
        ("v", br(lit("v"), pop("cx", seq(a, b)), xv)),
        ("i", br(lit("i"), is_("cx", 1), is_zero("cx"), xv)),
        ("k", br(lit("k"), push("cx", prod("PInc", True)), xv)),
    ]
    inits = [0, 1, -3]
    n = 0
    for o1, o2 in itertools.combinations(ops, 2):
        al = "".join(dict.fromkeys(o1[0] + o2[0] + "ab"))
        init = inits[n % 3]
        n += 1
        f.add(seq(create("cx", init), create0("cy"), list_(choice(o1[1], o2[1])), xv, value("cy")), al,
              6 if len(al) <= 3 else 5)
    tr = list(itertools.combinations(ops, 3))
    for i, t in enumerate(tr):
        if not th and i % 12 != 5:
            continue
        al = "".join(dict.fromkeys("".join(x[0] for x in t) + "a"))
        f.add(seq(create("cx", inits[i % 3]), create("cy", 1), list_(choice(*[x[1] for x in t])),
                  eqc("cx", "cy"), xv), al, 5)
    # recursion
    for tail in (xv, seq(PInc, xv), seq(if_(br(is_("cx", 1), a)), xv)):
        f.add(seq(create0("cx"), PRec, tail), "(a)p", 6)
    f.add(seq(create0("cx"), opt(list_(PRec)), xv), "(a)", 8)
    # equal counts over several counters, as rule and as branch
    ch = list_(choice(br(a, inc("cx")), br(b, inc("cy")), br(c, inc("cz")), br(d, dec("cx"))))
    cr = seq(create0("cx"), create("cy", 0), create("cz", 1))
    f.add(seq(cr, ch, eqc("cx", "cy", "cz"), position), "abcd", 6)
    f.add(seq(cr, ch, choice(br(eqc("cx", "cy", "cz"), value("cz")), br(eqc("cx", "cz"), xv),
                             br(eqc("cy", "cz"), nullopt), eqc("cz", "cx", "cy"))), "abcd", 6)
    f.add(seq(cr, ch, if_(br(eqc("cz", "cy"), lit("!"))), opt(br(eqc("cy", "cx"), lit("?")))), "abc!?", 5)
    # the classical use: n a, then n b, then n c
    f.add(seq(cr, push("cx", while_(a)), push("cy", while_(b)), push("cz", while_(c)), eqc("cx", "cy"),
              eqc("cy", "cz"), eof), "abc", 8)
    # a variable created inside a list item's production does not outlive it; created twice = shadowed
    f.add(seq(create("cx", 1), inc("cx"), xv, create("cx", 10), inc("cx"), xv, if_(a), xv), "ab", 3)
    f.add(seq(create("cx", 1), create("ff", 1), create("cy", 2), xv, value("ff"), value("cy"),
              opt(br(a, inc("cx"), toggle("ff"))), xv, value("ff"), value("cy")), "ab", 3)
    # counters with whitespace: it counts
    for r in (push("cx", a), push("cx", while_(a)), push("cx", seq(a, b)), pop("cx", PInc), push("cx", cap(a))):
        f.add(seq(create0("cx"), r, xv, if_(br(is_("cx", 2), b)), xv), "ap_b", 5,
              'static constexpr auto whitespace = LEXY_LIT("_");', 'p.has_ws=true; p.ws=m::lit("_");')
    # flags
    fv, hv = value("ff"), value("fh")
    fops = [
        ("a", br(a, fv, fset("ff"), fv)), ("b", br(b, freset("ff"), fv)), ("c", br(c, fv, toggle("ff"), fv)),
        ("d", br(d, choice(br(is_set("ff"), a), br(is_reset("ff"), b)), fv)),
        ("e", br(lit("e"), if_(br(is_set("ff"), freset("ff"))), fv)),
        ("f", br(lit("f"), if_(br(is_reset("ff"), fset("ff"), toggle("fh"))), hv)),
        ("g", br(lit("g"), is_set("ff"), is_reset("ff"), fv)),
        ("h", br(lit("h"), toggle("fh"), hv, fv)),
        ("i", br(lit("i"), opt(br(is_set("fh"), a)), fset("fh"), hv)),
        ("t", PFlag), ("T", br(lit("T"), try_(seq(fset("ff"), a)), fv)),
    ]
    for i, t in enumerate(itertools.combinations(fops, 3)):
        al = "".join(dict.fromkeys("".join(x[0] for x in t) + "ab"))
        f.add(seq(create("ff", i % 2), create0("fh"), list_(choice(*[x[1] for x in t])), fv, hv),
              al, 5 if len(al) < 5 or th else 4)
    # context identifiers
    for v, k in (("ci0", 0), ("ci1", 1), ("ci2", 2)):
        al = "xy-" if k != 1 else "xya-"
        L = 7 if k != 1 else 6
        cap_, rem = icap(v), irem(v)
        pre = icreate(v)
        f.add(seq(pre, cap_, lit("-"), rem, position), al, L)
        f.add(seq(pre, cap_, lit("-"), irem(v, "tagA"), position), al, L)
        f.add(seq(pre, cap_, lit("-"), choice(br(rem, lit("-")), br(ident(k), nullopt)), position), al, L)
        f.add(seq(pre, cap_, list_(br(lit("-"), choice(br(rem, position), cap_)))), al, L)
        f.add(seq(pre, opt(cap_), opt(rem), position), al, 4)
        f.add(seq(pre, cap_, lit("-"), if_(br(rem, opt(lit("-")))), opt(rem), position), al, L)
        f.add(seq(pre, if_(lit("-")), rem), al, 4)
        f.add(seq(pre, opt(rem), position), al, 4)
        f.add(seq(pre, try_(cap_), if_(lit("-")), rem, position), al, 5)
        f.add(seq(pre, cap_, lit("-"), rem, rem), al, 4)
        f.add(seq(pre, cap_, rem, position), "xya_", 6,
              'static constexpr auto whitespace = LEXY_LIT("_");', 'p.has_ws=true; p.ws=m::lit("_");')
        f.add(seq(pre, cap_, opt(rem), position), "xya_", 6,
              'static constexpr auto whitespace = LEXY_LIT("_");', 'p.has_ws=true; p.ws=m::lit("_");')
    PId, PIdO, PIdR = prod("PId", True), prod("PIdO", True), prod("PIdR", True)
    for r in (seq(PId), seq(PIdO, lit("-"), irem("ci0")), seq(opt(PId), lit("-"), irem("ci0")),
              seq(list_(choice(PId, PIdO)), lit("-"), irem("ci0")),
              seq(icap("ci0"), lit("-"), choice(PIdR, ident(0)))):
        f.add(seq(icreate("ci0"), r, position), "pqxy-!", 5 if not th else 6)
    f.add(seq(icreate("ci0"), icreate("cj0"), icap("ci0"), lit("-"), icap("cj0"), lit("-"),
              choice(br(irem("ci0"), nullopt), br(irem("cj0"), position), ident(0))), "xy-", 8)
    f.add(seq(icreate("ci0"), icap("ci0"), lit("-"), icreate("ci0"), icap("ci0"), lit("-"), irem("ci0")), "xy-", 8)
    return f
