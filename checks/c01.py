"""C01: core combinators."""
import copy
from checks.gram import *

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
struct tagB { static constexpr auto name = "tagB"; };
struct PA { static constexpr auto name = "PA";
    static constexpr auto rule = LEXY_LIT("a") >> dsl::opt(LEXY_LIT("b"));
    static constexpr auto value = eng::val; };
struct PB { static constexpr auto name = "PB";
    static constexpr auto rule = dsl::capture(LEXY_LIT("b")) + LEXY_LIT("a");
    static constexpr auto value = eng::val; };
struct PT : lexy::token_production { static constexpr auto name = "PT";
    static constexpr auto rule = LEXY_LIT("b") >> dsl::position + LEXY_LIT("c");
    static constexpr auto value = eng::val; };
inline model::Prod& M_PA() { static model::Prod p{"PA", m::br(m::lit("a"), m::opt(m::lit("b")))}; return p; }
inline model::Prod& M_PB() { static model::Prod p{"PB", m::seq(m::cap(m::lit("b")), m::lit("a"))}; return p; }
inline model::Prod& M_PT() { static model::Prod p{"PT", m::br(m::lit("b"), m::position(), m::lit("c")), true}; return p; }
'''


def spelled(c, r):
    r = copy.copy(r)
    r.c = "(" + c + ")"
    return r


def deviations(s):
    """s, its prefixes, and s with one character changed, dropped or added"""
    res = [s[:i] for i in range(len(s) + 1)]
    for i in range(len(s)):
        res += [s[:i] + ch + s[i + 1:] for ch in "abcd" if ch != s[i]] + [s[:i] + s[i + 1:]]
    res += [s[:i] + ch + s[i:] for i in range(len(s) + 1) for ch in "abd"]
    return sorted(set(res))


def grammars(tier):
    f = Family(prelude=PRELUDE)
    a, b, ab, c = lit("a"), lit("b"), lit("ab"), lit("c")
    ccab = cc("ab")
    PA, PB, PT = prod("PA", True), prod("PB", False), prod("PT", True)
    # branch atoms
    B1 = [a, ab, cap(ccab), peek(ab), peek_not(a), lookahead(["b"], ["c"]), eof, br(a, b),
          PA, lset("b", "ba"), must(b, "tagA"), pos_(b)]
    # further rules (not branches)
    R1 = [PB, seq(b, a), error("tagA", ab), position, until(c), PT, choice(a, b)]
    for x in B1 + R1:
        f.add(x)
    L2 = []
    for x in B1:
        L2 += [opt(x), if_(x), token(x), peek(x, "tagB"), peek_not(x, "tagB"), must(x, "tagB"),
               must(x, "tagB", any_), try_(x)]
        if x.cons and not x.vals:
            L2 += [while_(x), while_one(x), do_while(b, x), loop(choice(x, br(c, break_))),
                   loop(choice(x, break_))]
        L2 += [choice(x, c), choice(x, else_(b)), choice(x, error("tagA")), pos_(x)]
    for x in R1:
        L2 += [token(x), peek(x), peek_not(x), try_(x)]
        if x.br and not x.ubr:
            L2 += [opt(x), choice(x, c), if_(x)]
    for x in L2:
        f.add(x)
        f.add(seq(x, c))
    for x in B1:
        for y in B1:
            f.add(choice(br(x, c), y))
            f.add(br(x, y))
            f.add(seq(opt(x), y))
    for x in B1:
        for y in R1 + [nullopt, any_]:
            f.add(br(x, y))
            f.add(seq(if_(x), y))
    f.add(seq(a, return_, b))
    f.add(choice(br(a, return_), b))
    f.add(seq(opt(br(a, return_)), b))
    for l in [eol, newline, until(newline), until_eof(newline), seq(newline, eof),
              choice(newline, else_(a)), while_(newline), seq(a, eol), seq(opt(newline), eol),
              peek(eol), until(lset("\n", "ab"))]:
        f.add(l, alphabet="a\n\r", maxlen=5)
    for t in [a, ab, ccab, lset("b", "ba"), token(seq(b, a)), until(c), until(ab), until_eof(c),
              nfb(a, cc("b")), fb(a, cc("bc")), nfb(ab, ccab), tok_error(ab, "tagA"), any_]:
        f.add(cap(t)); f.add(seq(cap(t), eof)); f.add(t)
        if t.ubr:
            continue
        f.add(until(t)); f.add(until_eof(t))
        f.add(tok_error(t, "tagB")); f.add(choice(t, c) if not t.ubr else t)
        f.add(peek(t)); f.add(error("tagA", t))
    for n, e in [(["a"], ["b"]), (["ab"], ["a"]), (["a"], ["ab"]), (["a", "bc"], ["c"]),
                 (["ab"], ["b", "ca"]), (["aa"], ["ab"])]:
        f.add(lookahead(n, e)); f.add(choice(br(lookahead(n, e), any_), else_(position)))
        f.add(seq(lookahead(n, e, "tagA"), any_)); f.add(opt(br(lookahead(n, e), c)))
    # the same composition written with other groupings of the operators
    x, y, z, w = cap(cc("ab")), ab, position, b
    k, l = br(a, position), br(b, z)
    for elems in ([x, y, z, w], [k, x, y, l], [a, k, l, z], [k, l, k, l], [x, k, y, l], [k, a, l, b]):
        e = [r.c for r in elems]
        for c_ in ("%s + (%s + (%s + %s))", "(%s + %s) + (%s + %s)", "((%s + %s) + %s) + %s", "(%s + (%s + %s)) + %s",
                   "%s + ((%s + %s) + %s)"):
            f.add(spelled(c_ % tuple(e), seq(*elems)), maxlen=6)
        if elems[0].br:
            for c_ in ("%s >> (%s + (%s + %s))", "(%s >> %s) + (%s + %s)", "((%s >> %s) + %s) + %s",
                       "(%s >> (%s + %s)) + %s", "(%s >> %s) >> (%s + %s)", "((%s >> %s) >> %s) >> %s",
                       "((%s >> %s) >> %s) + %s"):
                f.add(spelled("(" + c_ % tuple(e) + ") | dsl::error<tagB>", choice(br(*elems), error("tagB"))), maxlen=6)
    for elems in ([a, z, b, x], [a, x, k, z], [k, z, l, a], [br(x, y), w, k, z], [peek(a), x, br(y, z), k]):
        e = [r.c for r in elems]
        cs = ["%s >> (%s >> %s + %s)", "(%s >> %s) >> (%s >> %s)", "(%s >> %s) + (%s >> %s)"] \
            if elems[1].br and elems[2].br else ["(%s >> %s) >> (%s >> %s)", "(%s >> %s) + (%s >> %s)"] \
            if elems[2].br else []
        for c_ in cs:
            f.add(spelled("(" + c_ % tuple(e) + ") | dsl::else_ >> dsl::any", choice(br(*elems), else_(any_))), maxlen=6)
    f.add(spelled("%s | dsl::else_ >> (%s + %s)" % (c.c, a.c, k.c), choice(c, else_(seq(a, k)))))
    f.add(spelled("%s | dsl::else_ >> (%s >> %s)" % (c.c, k.c, b.c), choice(c, else_(seq(k, b)))))
    alts = [br(a, b, position), br(ab, x), br(cc("a"), position), br(a, c), b, br(lset("b", "ba"), c)]
    for i in range(len(alts)):
        t = [alts[(i * 5 + j * (1 + i % 2 * 4)) % 6] for j in range(4)]
        e = [r.c for r in t]
        for c_ in ("(%s | %s) | (%s | %s)", "%s | (%s | (%s | %s))", "(%s | (%s | %s)) | %s", "((%s | %s) | %s) | %s",
                   "%s | ((%s | %s) | %s)"):
            f.add(spelled(c_ % tuple(e), choice(*t)), maxlen=4)
            f.add(spelled("dsl::opt(" + c_ % tuple(e) + ")", opt(choice(*t))), maxlen=4)
    # long sequences and choices
    digits = [cap(lit(ch)) for ch in "abcabcabcabcabcabc"]
    for n in range(2, 18):
        r = []
        for i in range(n):
            r.append(digits[i] if i % 3 else if_(cap(lit("abc"[i % 3]))))
        f.add(seq(*r), maxlen=2, extra=[q(s_) for s_ in deviations("abcabcabcabcabcabc"[:n])])
        r[0] = a
        f.add(choice(br(*r), b), maxlen=2, extra=[q(s_) for s_ in deviations("abcabcabcabcabcabc"[:n])])
        f.add(choice(*[br(lit("ab"[:i] + "c" * (i + 1)) if i % 2 else lit("a" * (i + 1) + "b"), position)
                       for i in range(n)]),
              maxlen=2, extra=[q("a" * i + s_) for i in range(n + 2) for s_ in ("", "b", "c", "bc")]
              + [q("ab"[:j] + "c" * i) for i in range(3, n + 2) for j in range(3)])
    if tier == "thorough":
        for x in B1:
            for y in L2:
                f.add(br(x, y)); f.add(seq(y, x))
        for x in L2:
            for y in L2[::3]:
                f.add(seq(x, y))
    return f
