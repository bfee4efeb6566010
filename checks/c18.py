"""C18: bounded recursion."""
from checks.gram import *

PRELUDE = r'''
struct tagA { static constexpr auto name = "tagA"; };
template <typename G> struct Mid { static constexpr auto name = "Mid";
    static constexpr auto rule = LEXY_LIT("[") >> dsl::recurse<G> + LEXY_LIT("]");
    static constexpr auto value = eng::val; };
template <typename G> struct MidT { static constexpr auto name = "MidT";
    static constexpr auto rule = LEXY_LIT("[") >> dsl::try_(dsl::recurse<G> + LEXY_LIT("]"), dsl::find(LEXY_LIT("]"))) + dsl::if_(LEXY_LIT("]"));
    static constexpr auto value = eng::val; };
inline const model::Prod& mid(const model::Prod& g) { return *new model::Prod{"Mid", m::br(m::lit("["), m::recurse(g), m::lit("]"))}; }
inline const model::Prod& midt(const model::Prod& g) { return *new model::Prod{"MidT", m::br(m::lit("["), m::try_raw(m::seq(m::recurse(g), m::lit("]")), m::find({"]"})), m::if_(m::lit("]")))}; }
inline std::string nest(int n, std::string o, std::string mid, std::string c) { std::string r; for (int i = 0; i < n; ++i) r += o; r += mid; for (int i = 0; i < n; ++i) r += c; return r; }
'''


def grammars(tier):
    f = Family(prelude=PRELUDE, wants="eng::W_MATCH|eng::W_PARSE|eng::W_TREE")
    a, o, c = lit("a"), lit("("), lit(")")
    REC = Rl("dsl::recurse<SELF>", "m::recurse(p)", vals=True)
    RECE = Rl("dsl::recurse<SELF>.max_depth_error<tagA>", 'm::recurse(p, "tagA")', vals=True)
    MID = Rl("dsl::p<Mid<SELF>>", "m::prod(mid(p))", br=True, vals=True)
    MIDT = Rl("dsl::p<MidT<SELF>>", "m::prod(midt(p))", br=True, vals=True)
    shapes = []
    for R in (REC, RECE):
        shapes += [
            choice(br(o, R, c), a),
            opt(br(o, R, c)),
            seq(opt(br(o, R, c)), opt(br(a, R))),
            choice(br(o, R, R, c), a),
            choice(br(o, try_(R), c), a),
            choice(br(o, try_(seq(R, c), find([")"]), True), if_(c)), a),
            br(o, try_(opt(br(a, R))), opt(br(c, R))),
            choice(br(o, list_(R, sep(lit(","))), c), a),
            choice(br(o, Tm(c).list(R, sep(lit(",")))), a),
            choice(br(o, Tm(c).try_(R)), a, br(lit("b"), REC, R)),
            choice(br(o, R), a, MID),
            seq(opt(br(o, try_(R))), a, opt(br(lit("b"), R))),
            seq(opt(br(lit("["), Rl("dsl::no_whitespace(%s)" % R.c, "m::no_ws(%s)" % R.m))), a),
            seq(opt(MID), a),
            seq(opt(MIDT), a),
            seq(opt(choice(MIDT, br(o, MID, try_(R, find([")"]), True), c))), a),
        ]
    for d in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for s in shapes:
            al = "".join(ch for ch in "(a)b[]," if 'LIT("%s")' % ch in s.c or (
                "Mid" in s.c and ch in "[]") or ch in "a" or (ch in "()" and '"("' in s.c))
            f.add(s, al, {3: 8, 4: 6, 5: 6, 6: 5, 7: 5}.get(len(al), 8),
                  "static constexpr auto max_recursion_depth = %d;" % d, "p.max_depth = %d;" % d,
                  extra=["nest(%d, \"(\", \"a\", \")\")" % n for n in range(0, 9)] +
                        ["nest(%d, \"[\", \"a\", \"]a\")" % n for n in range(0, 9)] +
                        ["nest(%d, \"([\", \"a\", \"])\")" % n for n in range(0, 6)])
    # default limit, and a long one
    for mem, mdl, d in (("", "", 1024), ("static constexpr auto max_recursion_depth = 300;",
                                         "p.max_depth = 300;", 300)):
        for s in shapes[:6]:
            f.add(s, "(a)", 6, mem, mdl, extra=["nest(%d, \"(\", \"a\", \")\")" % n
                                               for n in (d - 1, d, d + 1, d + 2)])
    return f
