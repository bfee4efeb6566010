"""Grammar enumeration: rule ASTs printed both as lexy DSL and as model constructor."""
import os

class Rl:
    """A rule: C++ text, model text and the static facts needed to only build legal grammars."""
    __slots__ = ("c", "m", "br", "ubr", "tok", "lit", "vals", "cons", "cc", "size")

    def __init__(self, c, m, br=False, ubr=False, tok=False, lit=False, vals=False, cons=True,
                 cc=False, size=1):
        self.c, self.m = c, m
        self.br, self.ubr, self.tok, self.lit = br or ubr or tok, ubr, tok, lit
        self.vals, self.cons, self.cc, self.size = vals, cons, cc, size


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") \
        .replace("\r", "\\r").replace("\t", "\\t") + '"'


def lit(s):
    return Rl('LEXY_LIT(%s)' % q(s), 'm::lit(%s)' % q(s), tok=True, lit=True)


def lset(*ss):
    return Rl('dsl::literal_set(%s)' % ", ".join('LEXY_LIT(%s)' % q(s) for s in ss),
              'm::lset({%s})' % ", ".join(q(s) for s in ss), tok=True, lit=True)


def cc(chars, name=None):
    name = name or ("cc" + chars)
    e = " / ".join("dsl::lit_c<'%s'>" % c for c in (chars if len(chars) > 1 else chars * 2))
    return Rl('LEXY_CHAR_CLASS(%s, %s)' % (q(name), e), 'm::cc(%s, %s)' % (q(name), q(chars)),
              tok=True, cc=True)


any_ = Rl('dsl::any', 'm::any()', tok=True, ubr=True, cons=False)
eof = Rl('dsl::eof', 'm::eof()', br=True, cons=False)
eol = Rl('dsl::eol', 'm::eol()', br=True, cons=False)
newline = Rl('dsl::newline', 'm::newline()', tok=True)
nullopt = Rl('dsl::nullopt', 'm::nullopt()', vals=True, cons=False)
position = Rl('dsl::position', 'm::position()', vals=True, cons=False)
break_ = Rl('dsl::break_', 'm::break_()', ubr=True, cons=False)
return_ = Rl('dsl::return_', 'm::return_()', cons=False)


def cap(t):
    assert t.tok
    return Rl('dsl::capture(%s)' % t.c, 'm::cap(%s)' % t.m, br=True, ubr=t.ubr, vals=True,
              cons=t.cons, size=t.size)


def seq(*rs):
    return Rl("(" + " + ".join(r.c for r in rs) + ")", 'm::seq(%s)' % ", ".join(r.m for r in rs),
              vals=any(r.vals for r in rs), cons=any(r.cons for r in rs),
              size=sum(r.size for r in rs))


def br(cond, *rs):
    assert cond.br
    then = rs[0].c if len(rs) == 1 else "(" + " + ".join(r.c for r in rs) + ")"
    return Rl("(%s >> %s)" % (cond.c, then),
              'm::br(%s)' % ", ".join(r.m for r in (cond,) + rs), br=True, ubr=cond.ubr,
              vals=cond.vals or any(r.vals for r in rs),
              cons=cond.cons or any(r.cons for r in rs), size=cond.size + sum(r.size for r in rs))


def else_(r):
    return Rl("(dsl::else_ >> %s)" % r.c, 'm::br(m::else_(), %s)' % r.m, ubr=True, vals=r.vals,
              cons=r.cons, size=r.size)


def choice(*rs):
    assert all(r.br for r in rs) and not any(r.ubr for r in rs[:-1])
    u = rs[-1].ubr
    return Rl("(" + " | ".join(r.c for r in rs) + ")", 'm::choice(%s)' % ", ".join(r.m for r in rs),
              br=not u, vals=any(r.vals for r in rs), cons=all(r.cons for r in rs),
              size=sum(r.size for r in rs))


def u(name, mname, r, vals=None, cons=None, br=False, tok=False, ubr=False):
    return Rl("%s(%s)" % (name, r.c), "%s(%s)" % (mname, r.m), br=br, tok=tok, ubr=ubr,
              vals=r.vals if vals is None else vals, cons=r.cons if cons is None else cons,
              size=r.size + 1)


def opt(r):
    assert r.br and not r.ubr
    return u('dsl::opt', 'm::opt', r, vals=True, cons=False)


def if_(r):
    assert r.br and not r.ubr
    return u('dsl::if_', 'm::if_', r, cons=False)


def while_(r):
    assert r.br and not r.ubr and r.cons and not r.vals
    return u('dsl::while_', 'm::while_', r, cons=False)


def while_one(r):
    assert r.br and not r.ubr and r.cons and not r.vals
    return u('dsl::while_one', 'm::while_one', r, br=True)


def do_while(a, b):
    assert b.br and not b.ubr and not a.vals and not b.vals and (a.cons or b.cons)
    return Rl("dsl::do_while(%s, %s)" % (a.c, b.c), "m::do_while(%s, %s)" % (a.m, b.m), br=a.br,
              ubr=a.ubr, cons=a.cons, size=a.size + b.size)


def loop(r):
    assert not r.vals
    return u('dsl::loop', 'm::loop', r, cons=False)


def peek(r, tag=None):
    return Rl("dsl::peek(%s)%s" % (r.c, ".error<%s>" % tag if tag else ""),
              "m::peek(%s%s)" % (r.m, ', "%s"' % tag if tag else ""), br=True, cons=False,
              size=r.size + 1)


def peek_not(r, tag=None):
    return Rl("dsl::peek_not(%s)%s" % (r.c, ".error<%s>" % tag if tag else ""),
              "m::peek_not(%s%s)" % (r.m, ', "%s"' % tag if tag else ""), br=True, cons=False,
              size=r.size + 1)


def strs(l):
    return "{" + ", ".join(q(s) for s in l) + "}"


def lookahead(n, e, tag=None):
    def ls(l):
        return 'LEXY_LIT(%s)' % q(l[0]) if len(l) == 1 else \
            'dsl::literal_set(%s)' % ", ".join('LEXY_LIT(%s)' % q(s) for s in l)
    return Rl("dsl::lookahead(%s, %s)%s" % (ls(n), ls(e), ".error<%s>" % tag if tag else ""),
              "m::lookahead(%s, %s%s)" % (strs(n), strs(e), ', "%s"' % tag if tag else ""),
              br=True, cons=False)


def until(t):
    assert t.tok
    return u('dsl::until', 'm::until', t, tok=True)


def until_eof(t):
    return Rl("dsl::until(%s).or_eof()" % t.c, "m::until_eof(%s)" % t.m, tok=True, ubr=True,
              cons=False, size=t.size + 1)


def token(r):
    return u('dsl::token', 'm::token', r, vals=False, tok=True)


def error(tag, r=None):
    return Rl("dsl::error<%s>%s" % (tag, "(%s)" % r.c if r else ""),
              'm::error("%s"%s)' % (tag, ", " + r.m if r else ""), ubr=True, cons=False,
              size=1 + (r.size if r else 0))


def must(b, tag, r=None):
    assert b.br and not b.ubr
    return Rl("dsl::must(%s).error<%s>%s" % (b.c, tag, "(%s)" % r.c if r else ""),
              'm::must(%s, "%s"%s)' % (b.m, tag, ", " + r.m if r else ""), br=True, vals=b.vals,
              cons=b.cons, size=b.size + 1)


def tok_error(t, tag):
    assert t.tok
    return Rl("(%s).error<%s>" % (t.c, tag), 'm::tok_error(%s, "%s")' % (t.m, tag), tok=True,
              ubr=t.ubr, cons=t.cons, size=t.size + 1, cc=t.cc)


def pos_(r):
    return u('dsl::position', 'm::position', r, vals=True, br=r.br, ubr=r.ubr)


def nfb(l, c):
    return Rl("dsl::not_followed_by(%s, %s)" % (l.c, c.c), "m::nfb(%s, %s)" % (l.m, c.m), tok=True,
              lit=True)


def fb(l, c):
    return Rl("dsl::followed_by(%s, %s)" % (l.c, c.c), "m::fb(%s, %s)" % (l.m, c.m), tok=True,
              lit=True)


def prod(name, br_, vals=True, cons=True):
    """Reference to a production defined in the prelude."""
    return Rl("dsl::p<%s>" % name, "m::prod(M_%s())" % name, br=br_, vals=vals, cons=cons)


def inline_(name, r):
    return Rl("dsl::inline_<%s>" % name, "m::inline_(M_%s())" % name, br=r.br, ubr=r.ubr,
              vals=r.vals, cons=r.cons)


# separators: (cpp, model, is-consuming)
class Sp:
    def __init__(self, c, m, vals=False):
        self.c, self.m, self.vals = c, m, vals


def sep(r, tag=None):
    if tag:
        return Sp("dsl::sep(%s).trailing_error<%s>" % (r.c, tag),
                  'm::sep_e(%s, "%s")' % (r.m, tag), r.vals)
    return Sp("dsl::sep(%s)" % r.c, "m::sep(%s)" % r.m, r.vals)


def tsep(r):
    return Sp("dsl::trailing_sep(%s)" % r.c, "m::tsep(%s)" % r.m, r.vals)


def isep(r):
    return Sp("dsl::ignore_trailing_sep(%s)" % r.c, "m::isep(%s)" % r.m, r.vals)


def _b(x):
    return "true" if x else "false"


def list_(r, s=None):
    return Rl("dsl::list(%s%s)" % (r.c, ", " + s.c if s else ""),
              "m::list(%s, %s%s)" % (r.m, _b(r.br), ", " + s.m if s else ""), br=r.br, ubr=r.ubr,
              vals=True, cons=r.cons, size=r.size + 1)


def opt_list(r, s=None):
    return opt(list_(r, s))


def times(n, r, s=None):
    f = "dsl::twice(" if n == 2 else "dsl::times<%d>(" % n
    return Rl("%s%s%s)" % (f, r.c, ", " + s.c if s else ""),
              "m::times(%d, %s%s)" % (n, r.m, ", " + s.m if s else ""), br=False,
              vals=r.vals or bool(s and s.vals), cons=r.cons, size=r.size + 1)


def combination(partial, rs, dup=None, missing=None):
    c = "dsl::%scombination(%s)" % ("partial_" if partial else "", ", ".join(r.c for r in rs))
    if dup:
        c += ".duplicate_error<%s>" % dup
    if missing:
        c += ".missing_error<%s>" % missing
    m = 'm::combination(%s, {%s}, "%s", "%s")' % (_b(partial), ", ".join(r.m for r in rs),
                                                 dup or "combination duplicate",
                                                 missing or "exhausted choice")
    return Rl(c, m, vals=True, cons=not partial, size=1 + sum(r.size for r in rs))


def try_(r, rec=None, raw=False):
    if rec is None:
        return u('dsl::try_', 'm::try_', r, br=r.br, ubr=r.ubr, cons=False)
    return Rl("dsl::try_(%s, %s)" % (r.c, rec.c), "m::%s(%s, %s)" %
              ("try_raw" if raw else "try_", r.m, rec.m), br=r.br, ubr=r.ubr,
              vals=r.vals or rec.vals, cons=False, size=r.size + rec.size)


def find(n, l=()):
    c = "dsl::find(%s)" % ", ".join('LEXY_LIT(%s)' % q(s) for s in n)
    if l:
        c += ".limit(%s)" % ", ".join('LEXY_LIT(%s)' % q(s) for s in l)
    return Rl(c, "m::find(%s, %s)" % (strs(n), strs(l)), cons=False)


def recover(rs, l=()):
    c = "dsl::recover(%s)" % ", ".join(r.c for r in rs)
    if l:
        c += ".limit(%s)" % ", ".join('LEXY_LIT(%s)' % q(s) for s in l)
    return Rl(c, "m::recover({%s}, %s)" % (", ".join(r.m for r in rs), strs(l)), cons=False,
              vals=any(r.vals for r in rs))


class Tm:
    """terminator or brackets"""

    def __init__(self, term, limit=(), open_=None):
        self.t, self.l, self.o = term, limit, open_
        lim = ".limit(%s)" % ", ".join('LEXY_LIT(%s)' % q(s) for s in limit) if limit else ""
        if open_:
            self.c = "dsl::brackets(%s, %s)%s" % (open_.c, term.c, lim)
        else:
            self.c = "dsl::terminator(%s)%s" % (term.c, lim)
        self.m = "m::terminator(%s, %s)" % (term.m, strs(limit))

    def _w(self, c, m, br_, vals, ubr=False):
        if self.o:
            return Rl(c, "m::seq(%s, %s)" % (self.o.m, m), br=True, vals=vals or self.o.vals)
        return Rl(c, m, br=br_, ubr=ubr, vals=vals)

    def plain(self, r):
        return self._w("%s(%s)" % (self.c, r.c), "m::term_(%s, %s)" % (self.m, r.m), r.br,
                       r.vals or self.t.vals, r.ubr)

    def try_(self, r):
        return self._w("%s.try_(%s)" % (self.c, r.c), "m::term_try(%s, %s)" % (self.m, r.m), False,
                       r.vals or self.t.vals)

    def opt(self, r):
        return self._w("%s.opt(%s)" % (self.c, r.c), "m::term_opt(%s, %s)" % (self.m, r.m), False,
                       True)

    def list(self, r, s=None):
        return self._w("%s.list(%s%s)" % (self.c, r.c, ", " + s.c if s else ""),
                       "m::term_list(%s, %s, %s%s)" % (self.m, r.m, _b(r.br),
                                                       ", " + s.m if s else ""), False, True)

    def opt_list(self, r, s=None):
        return self._w("%s.opt_list(%s%s)" % (self.c, r.c, ", " + s.c if s else ""),
                       "m::term_opt_list(%s, %s, %s%s)" % (self.m, r.m, _b(r.br),
                                                           ", " + s.m if s else ""), False, True)


def flag(r, args="", m='"true", "false"'):
    assert r.br and not r.ubr
    return Rl("dsl::flag%s(%s)" % (args, r.c), "m::flag(%s, %s)" % (r.m, m), vals=True, cons=False)


def sym(name, table, tag=None):
    t = "{" + ", ".join('{%s, "%s"}' % (q(k), v) for k, v in table) + "}"
    return Rl("dsl::symbol<%s>%s" % (name, ".error<%s>" % tag if tag else ""),
              "m::sym(%s%s)" % (t, ', "%s"' % tag if tag else ""), br=True, vals=True)


def flags(s, init=None, initv=0, tag=None):
    return Rl("dsl::flags%s(%s)%s" % ("<%s>" % init if init else "", s.c,
                                      ".error<%s>" % tag if tag else ""),
              "m::flags(%s, %d%s)" % (s.m, initv, ', "%s"' % tag if tag else ""), vals=True,
              cons=False)


def repeat(mode, r, s=None):
    f = {0: "", 1: ".list", 2: ".capture"}[mode]
    return Rl("dsl::repeat(dsl::integer<std::size_t, dsl::decimal>(dsl::digit<>))%s(%s%s)" %
              (f, r.c, ", " + s.c if s else ""),
              "m::repeat(m::num1(), %d, %s%s)" % (mode, r.m, ", " + s.m if s else ""), br=True,
              vals=mode != 0)


PRELUDE_HEAD = r'''#include "engine.hpp"
namespace m = model;
%s
'''


class Family:
    """Collects grammars and writes them into TUs."""

    def __init__(self, wants="eng::W_MATCH|eng::W_VALIDATE|eng::W_PARSE|eng::W_TREE", prelude="",
                 extra_members="", extra_model=""):
        self.items, self.seen, self.extra, self.item_wants = [], set(), {}, {}
        self.wants, self.prelude = wants, prelude
        self.members, self.model = extra_members, extra_model

    def add(self, r, alphabet="abc", maxlen=4, members="", model="", extra=(), wants=None):
        """extra: further input strings (C++ expressions of type std::string); wants: other actions than the family's"""
        key = (r.c, members)
        if key in self.seen:
            return
        self.seen.add(key)
        self.items.append((r, alphabet, maxlen, self.members + members, self.model + model))
        if extra:
            self.extra[len(self.items) - 1] = extra
        if wants:
            self.item_wants[len(self.items) - 1] = wants

    def write(self, bdir, tag, per_tu=None, ntu=None):
        n = len(self.items)
        ntu = ntu or max(8, min(64, (n + 39) // 40))
        files = []
        for t in range(ntu):
            part = [(i, it) for i, it in enumerate(self.items) if i % ntu == t]
            if not part:
                continue
            out = [PRELUDE_HEAD % self.prelude]
            for i, (r, al, ml, mem, mod) in part:
                g = "G%d" % i
                wants = self.item_wants.get(i, self.wants)
                out.append("namespace g%d { struct %s%s { static constexpr auto name = \"G\"; %s\n"
                           "  static constexpr auto rule = %s;\n"
                           "  static constexpr auto value = eng::val; };\n"
                           "static eng::Reg reg([]{ static model::Prod p; p.name=\"G\"; p.rule=%s; %s\n"
                           "  eng::registry().push_back({%s, &p, %s, %d, %s, "
                           "&eng::run_string<%s, (%s)>, {%s}}); }); }\n"
                           % (i, g, "", mem.replace("SELF", g), r.c.replace("SELF", g), r.m, mod,
                              q((mem.strip() + " " if mem.strip() else "") + r.c), q(al), ml,
                              wants, g, wants, ", ".join(self.extra.get(i, ()))))
            p = os.path.join(bdir, "%s_%d.cpp" % (tag, t))
            with open(p, "w") as f:
                f.write("\n".join(out))
            files.append(p)
        return files


MAIN_CPP = r'''#include "engine.hpp"
static void run() { eng::run_registry(%s); }
VH_MAIN(run)
'''


def binary(fam, bdir, name, flags=("-O0",), extra="0"):
    files = fam.write(bdir, name)
    mp = os.path.join(bdir, name + "_main.cpp")
    with open(mp, "w") as f:
        f.write(MAIN_CPP % extra)
    return dict(name=name, sources=files + [mp], flags=list(flags))
