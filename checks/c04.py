"""C04: all actions on a cross-section of every kind of rule."""
from checks.gram import *
from checks import c01, c02, c03

W = "eng::W_MATCH|eng::W_VALIDATE|eng::W_PARSE|eng::W_TREE|eng::W_TRACE"


def grammars(tier):
    step = 1 if tier == "thorough" else 9
    f = Family(prelude=c03.PRELUDE + c01.PRELUDE[c01.PRELUDE.index("struct PT"):]
               .replace('inline model::Prod& M_PA() { static model::Prod p{"PA", m::br(m::lit("a"), m::opt(m::lit("b")))}; return p; }', '')
               .replace('inline model::Prod& M_PB() { static model::Prod p{"PB", m::seq(m::cap(m::lit("b")), m::lit("a"))}; return p; }', ''),
               wants=W)
    for mod, off in ((c01, 0), (c02, 1), (c03, 2)):
        for (r, al, ml, mem, mdl) in mod.grammars("quick").items[off::step]:
            if "\r" in al:
                al = "a\n"
            f.add(r, al, min(ml, 5))
    return f
