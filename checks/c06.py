"""C06: parse trees."""
from checks.gram import *

PRODS = [
    # name, bases, rule (built from Rl), branch?, values?, model extras
]

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
struct tagB { static constexpr auto name = "tagB"; };
'''


def _defs():
    """Productions of every kind; each may use the ones before it."""
    a, b, ab, c = lit("a"), lit("b"), lit("ab"), lit("c")
    out = {}
    pre = [PRELUDE]

    def d(name, rule, kind="", ws=None, callback=False):
        base = {"": "", "t": " : lexy::token_production", "x": " : lexy::transparent_production"}[kind]
        w = "static constexpr auto whitespace = %s;\n    " % ws.c if ws else ""
        pre.append("struct %s%s { static constexpr auto name = \"%s\";\n    %s"
                   "static constexpr auto rule = %s;\n    static constexpr auto value = eng::val; };\n"
                   "inline model::Prod& M_%s() { static model::Prod p{\"%s\", %s, %s, %s%s}; return p; }\n"
                   % (name, base, name, w, rule.c, name, name, rule.m, _b(kind == "t"),
                      _b(kind == "x"), ", true, %s" % ws.m if ws else ""))
        out[name] = prod(name, rule.br and not ws, True, rule.cons)
        return out[name]

    def _b(x):
        return "true" if x else "false"

    PA = d("PA", br(a, opt(b)))
    PB = d("PB", seq(cap(b), a))
    PT = d("PT", br(b, seq(a, opt(c))), "t")
    PE = d("PE", if_(a))                       # possibly empty
    PO = d("PO", seq(position, if_(b)))        # a position token first
    PX = d("PX", br(a, opt(PT)), "x")
    PXX = d("PXX", br(c, opt(PX), opt(PA)), "x")
    PXE = d("PXE", opt(b), "x")                # possibly empty, transparent
    PN = d("PN", br(c, opt(PX), opt(PT)))
    PF = d("PF", br(a, opt(PA), b))            # fails after a child
    PFX = d("PFX", br(a, opt(PT), c), "x")     # transparent, fails after a child
    PFF = d("PFF", br(c, PF))                  # fails inside a child
    PR = d("PR", br(a, try_(b, find(["c"]), True)))
    PS = d("PS", br(c, try_(PF, find(["c"]), True)))
    PW = d("PW", seq(a, PA), "", lit("_"))
    PL = d("PL", list_(choice(PA, PT), sep(c)))
    return "\n".join(pre), out


PRELUDE, P = _defs()


def grammars(tier):
    f = Family(prelude=PRELUDE, wants="eng::W_PARSE|eng::W_TREE")
    th = tier == "thorough"
    a, b, ab, c = lit("a"), lit("b"), lit("ab"), lit("c")
    names = list(P)
    ps = [P[n] for n in names]
    ML = 6 if th else 5
    contexts = []
    for p in ps:
        contexts += [p, seq(p, c), seq(a, p), try_(p), try_(p, find(["c"]), True),
                     try_(p, find(["b"], ["c"]), True), seq(try_(p), until(c)), Tm(c).try_(p),
                     Tm(lit("b"), ["c"]).try_(p), Tm(c).plain(p), list_(p, sep(c)),
                     Tm(b).list(p, sep(c)), seq(error("tagA", a), p),
                     seq(try_(ab), p), seq(until_eof(c), p)]
        if p.br:
            contexts += [opt(p), choice(p, ab), choice(br(c, p), p) if "PXX" not in p.c and "PN" not in p.c
                         and "PFF" not in p.c and "PS" not in p.c else opt(p),
                         choice(p, error("tagA")), Tm(c).opt(p), Tm(c).opt_list(p),
                         Tm(c).opt_list(p, sep(b)), must(p, "tagA")]
            if p.cons:
                contexts += [list_(p), Tm(c).list(p)]
    for r in contexts:
        f.add(r, "abc", ML)
    for p in ps:
        for q_ in ps:
            f.add(seq(p, q_), "abc", ML)
            if p.br:
                f.add(seq(opt(p), q_), "abc", ML)
            if th:
                f.add(seq(try_(p), q_), "abc", ML)
                f.add(try_(seq(p, q_), find(["c"]), True), "abc", ML)
    # inlined productions leave no node
    for n in ("PA", "PX", "PF", "PN", "PE", "PR"):
        i = Rl("dsl::inline_<%s>" % n, "m::inline_(M_%s())" % n, br=P[n].br, vals=True)
        f.add(seq(i, P["PA"]), "abc", ML)
        f.add(try_(i), "abc", ML)
    # whitespace
    for w in (lit("_"), br(lit("_"), lit("_"))):
        mem = "static constexpr auto whitespace = %s;" % w.c
        mod = "p.has_ws = true; p.ws = %s;" % w.m
        for r in ps + [seq(p, c) for p in ps] + [seq(a, p) for p in ps] + \
                [try_(p, find(["c"]), True) for p in ps] + [Tm(c).try_(p) for p in ps] + \
                [list_(p, sep(c)) for p in ps]:
            f.add(r, "abc_", 5, mem, mod)
    # recursion
    REC = Rl("dsl::recurse<SELF>", "m::recurse(p)", vals=True)
    for r in [choice(br(a, REC, b), c), seq(opt(br(a, REC)), P["PE"]),
              choice(br(a, try_(REC), b), P["PN"]), br(a, Tm(b).opt_list(br(c, REC))),
              seq(P["PE"], opt(br(b, REC)))]:
        f.add(r, "abc", 7)
    # trees of more than one storage block: the interesting part lies around the block boundary
    X = lit("x")
    fam = [P["PF"], P["PFX"], P["PXX"], P["PN"], P["PS"], P["PL"], P["PE"], try_(P["PFF"], find(["c"]), True),
           Tm(c).opt_list(P["PA"]), list_(P["PX"], sep(c)), opt(P["PFX"]), Tm(c).try_(P["PFX"])]
    for i, r in enumerate(fam):
        ss = ["a", "ab", "abab", "acab", "cabc", "aabc", "bacb", "cacabac", "aacba", "cabb"]
        f.add(seq(while_(X), r, until_eof(c)), "abcx", 3,
              extra=["std::string(%d, 'x') + %s" % (k, q(s)) for k in range(160, 172) for s in ss] +
                    ["std::string(%d, 'x') + %s + std::string(%d, 'a')" % (k, q(s), n)
                     for k in (3, 150, 330) for s in ss[:4] for n in (1, 150, 200)])
    # plain tokens of every kind
    for r in [seq(any_, eof), until_eof(c), seq(opt(cap(ab)), position, until_eof(b)),
              seq(while_(choice(a, cc("bc"))), eof), seq(eol, eof), seq(opt(Rl("dsl::newline", "m::newline()", br=True)), eol)]:
        f.add(r, "abc\n" if "eol" in r.c else "abc", 5)
    return f
