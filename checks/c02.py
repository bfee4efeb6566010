"""C02: lists, repetition, combinations, flags."""
from checks.gram import *

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
struct tagB { static constexpr auto name = "tagB"; };
struct PA { static constexpr auto name = "PA";
    static constexpr auto rule = LEXY_LIT("a") >> dsl::opt(LEXY_LIT("b"));
    static constexpr auto value = eng::val; };
struct PB { static constexpr auto name = "PB";
    static constexpr auto rule = dsl::capture(LEXY_LIT("b")) + LEXY_LIT("a");
    static constexpr auto value = eng::val; };
inline model::Prod& M_PA() { static model::Prod p{"PA", m::br(m::lit("a"), m::opt(m::lit("b")))}; return p; }
inline model::Prod& M_PB() { static model::Prod p{"PB", m::seq(m::cap(m::lit("b")), m::lit("a"))}; return p; }
enum class Fl { none = 0, a = 1, b = 2, ab = 3 };
static constexpr auto fl_tab = lexy::symbol_table<Fl>.map<LEXY_SYMBOL("a")>(Fl::a)
    .map<LEXY_SYMBOL("b")>(Fl::b).map<LEXY_SYMBOL("cc")>(Fl::ab);
static constexpr auto num_tab = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(1)
    .map<LEXY_SYMBOL("ab")>(2).map<LEXY_SYMBOL("c")>(3);
'''


def grammars(tier):
    f = Family(prelude=PRELUDE, wants="eng::W_PARSE|eng::W_TREE")
    th = tier == "thorough"
    a, b, ab, c = lit("a"), lit("b"), lit("ab"), lit("c")
    PA, PB = prod("PA", True), prod("PB", False)
    items = [a, ab, cap(cc("ab")), PA, br(a, cap(b)), br(a, position), choice(a, br(b, a)),
             lset("a", "aa"), must(a, "tagA"), br(peek(a), cap(cc("ab")))]
    nb_items = [PB, seq(a, cap(b)), seq(opt(b), a), choice(a, else_(position))]
    seps = [c, cap(c), lset("c", "bc"), br(b, c), br(c, position)]
    S = []
    for r in seps:
        S += [sep(r), sep(r, "tagB"), tsep(r)]
    nx = [None, eof, b, cap(c)] if th else [None, eof, b]

    def addall(r, al="abc", ml=6):
        for n in nx:
            f.add(r if n is None else seq(r, n), alphabet=al, maxlen=ml)

    for i in items:
        addall(list_(i))
        addall(opt_list(i))
        f.add(choice(br(list_(i), c), else_(any_)))
        for s in S:
            addall(list_(i, s))
            if th or s is S[0] or s is S[2]:
                addall(opt_list(i, s))
                f.add(choice(br(list_(i, s), b), else_(any_)), maxlen=6)
    for i in nb_items:
        for s in S:
            if "trailing_sep" not in s.c:
                addall(list_(i, s))
    T = S + [isep(c), isep(cap(c))]
    for i in items + nb_items:
        for n in (1, 2, 3):
            f.add(times(n, i), maxlen=6)
            f.add(seq(times(n, i), eof), maxlen=6)
            for s in T if th else T[::2]:
                f.add(seq(times(n, i, s), position), maxlen=6)
                if n == 2:
                    f.add(times(n, i, s), maxlen=6)
    # counted repetition
    for i in (items + nb_items if th else [a, cap(cc("ab")), PA, br(a, cap(b)), PB]):
        for mode in (0, 1, 2):
            if mode != 1 and i.vals:
                continue
            f.add(repeat(mode, i), alphabet="ab032", maxlen=5)
            f.add(seq(repeat(mode, i), position), alphabet="ab13", maxlen=5)
            for s in [sep(c), sep(c, "tagB"), tsep(cap(c) if mode == 1 else c), isep(c)]:
                f.add(seq(repeat(mode, i, s), eof), alphabet="ac0123"[:5 if i is a else 6],
                      maxlen=5)
    # combinations
    cs = [[a, b], [cap(a), cap(b)], [a, b, c], [cap(a), PA, cap(c)], [ab, a, c],
          [br(a, cap(b)), br(b, position), c], [a], [PA, cap(lset("b", "bb"))]]
    for rs in cs:
        for p in (False, True):
            for dup in (None, "tagA"):
                for mi in (None, "tagB"):
                    if p and mi or len(rs) == 1 and not p and not mi:
                        continue
                    r = combination(p, rs, dup, mi)
                    f.add(r, maxlen=6)
                    f.add(seq(r, position), maxlen=6)
                    f.add(seq(r, eof), maxlen=6)
    # flags
    for r in items:
        f.add(flag(r), maxlen=5)
        f.add(seq(flag(r), cap(cc("abc"))), maxlen=5)
        f.add(flag(r, "<5, 7>", '"5", "7"'), maxlen=5)
        f.add(seq(flag(r, "<4>", '"4", "0"'), flag(b)), maxlen=5)
    fs = sym("fl_tab", [("a", 1), ("b", 2), ("cc", 3)])
    for fl in [flags(fs), flags(fs, tag="tagA"), flags(fs, "Fl::a", 1), flags(fs, "Fl::ab", 3)]:
        f.add(fl, maxlen=6)
        f.add(seq(fl, eof), maxlen=6)
        f.add(seq(fl, c, fl), maxlen=6)
    ns = sym("num_tab", [("a", 1), ("ab", 2), ("c", 3)])
    for l in [list_(ns), list_(ns, sep(b)), opt_list(ns, tsep(b)), times(3, ns),
              combination(False, [ns, cap(b)]), list_(sym("num_tab", [("a", 1), ("ab", 2), ("c", 3)],
                                                         "tagA"), sep(lit("bb")))]:
        f.add(l, maxlen=6)
        f.add(seq(l, eof), maxlen=6)
    return f
