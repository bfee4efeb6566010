"""C03: error recovery."""
from checks.gram import *
from checks.c02 import PRELUDE as P2

PRELUDE = P2 + r'''
struct PR { static constexpr auto name = "PR";
    static constexpr auto rule = dsl::try_(LEXY_LIT("a") + dsl::capture(LEXY_LIT("b")), dsl::find(LEXY_LIT("c")));
    static constexpr auto value = eng::val; };
inline model::Prod& M_PR() { static model::Prod p{"PR", m::try_raw(m::seq(m::lit("a"), m::cap(m::lit("b"))), m::find({"c"}))}; return p; }
'''


def grammars(tier):
    f = Family(prelude=PRELUDE, wants="eng::W_PARSE|eng::W_TREE")
    th = tier == "thorough"
    a, b, ab, c = lit("a"), lit("b"), lit("ab"), lit("c")
    semi = lit(";")
    PA, PB, PR = prod("PA", True), prod("PB", False), prod("PR", False)
    # rules that fail in various ways (at once, after consuming, after an error, with values)
    R = [a, ab, seq(a, cap(b)), PA, PB, PR, br(a, cap(b), position), choice(a, br(b, a)),
         list_(a, sep(c)), must(b, "tagA"), seq(peek(a), b), error("tagA", a), seq(a, error("tagB")),
         opt(br(a, b)), lset("a", "ab", "bcc"), seq(cap(a), try_(b), cap(a)),
         combination(False, [a, b])]
    rec = [None, find(["c"]), find(["ca", "b"]), find(["c"], ["b"]), find(["b"], ["ba", "c"]),
           recover([c]), recover([br(c, cap(b)), br(b, position)]), recover([PA], ["cc"]),
           recover([c], ["b", "cb"]), any_, seq(b, cap(c)), error("tagA")]
    for r in R:
        for x in rec:
            raw = x is not None and (x.c.startswith("dsl::find") or x.c.startswith("dsl::recover"))
            if x is error and r.vals:
                continue
            t = try_(r, x, raw)
            f.add(t, maxlen=5)
            f.add(seq(t, c), maxlen=5)
            if th:
                f.add(seq(t, cap(any_)), maxlen=5)
                f.add(list_(t, sep(c)), maxlen=5)
            if t.br and not t.ubr:
                f.add(choice(t, c), maxlen=5)
    T = [Tm(semi), Tm(lit("cc")), Tm(cap(c)), Tm(semi, ["b"]), Tm(c, ["cb", "bb"]),
         Tm(semi, (), lit("(")), Tm(br(c, position)), Tm(c, ["ab"], cap(a)),
         Tm(PA)]
    items = [a, ab, cap(a), br(a, cap(b)), PA, lset("a", "ab")]
    nb = [seq(a, cap(b)), PB, PR, seq(opt(b), a)]
    ss = [None, sep(lit(",")), sep(cap(c), "tagB"), tsep(lit(",")), sep(br(lit(","), b)),
          isep(lit(","))]
    for t in T:
        al = "ab"
        for ch in ";c(":
            if ch in t.c.split("::", 1)[1]:
                al += ch
        if "c" not in al:
            al += "c"
        for r in R:
            f.add(t.plain(r), al, 5)
            f.add(t.try_(r), al, 5)
            f.add(t.opt(r), al, 5)
            f.add(seq(t.try_(r), cap(b)), al, 5)
        for it in items + nb:
            for s in ss:
                if s is None and not it.br:
                    continue
                if s is not None and "ignore" in s.c:
                    if not th or it is not a:
                        continue
                if not th and s is not None and it in nb[1:] and s is not ss[1]:
                    continue
                al2 = al.replace("c", "") if s and "," in s.c and ";" in al else al
                if s and "," in s.c:
                    al2 += ","
                al2 = "".join(dict.fromkeys(al2))
                f.add(t.list(it, s), al2, 5 if len(al2) > 3 else 6)
                if th or it is items[3] or it is items[0] or it is nb[0]:
                    f.add(t.opt_list(it, s), al2, 5)
                    f.add(seq(t.list(it, s), cap(b)), al2, 5)
    # nested
    t1, t2 = Tm(semi), Tm(c, ["b"])
    for r in [t1.try_(t2.try_(a)), t2.try_(t1.try_(a)), t1.list(t2.list(a, sep(lit(","))), None)
              if False else t1.list(br(a, t2.try_(a)), sep(lit(","))),
              t1.opt(t2.opt(seq(a, b))), try_(t1.try_(seq(a, a)), find(["b"]), True),
              t1.list(PR, sep(lit(","))), t1.try_(list_(try_(a, find([","], [";"]), True), sep(lit(","))))]:
        f.add(r, "ab;c", 5)
        f.add(r, "ab;,", 6)
    return f
