"""C24: the reports of the errors of a cross-section of every kind of rule, on texts with several lines."""
from checks.gram import *
from checks import c01, c02, c03, c04, c16, c17, c18

W = "eng::W_VALIDATE|eng::W_REPORT"


def grammars(tier):
    step = 2 if tier == "thorough" else 9
    f = Family(prelude=c04.grammars("quick").prelude, wants=W)
    for mod, off in ((c01, 3), (c02, 4), (c03, 5)):
        for (r, al, ml, mem, mdl) in mod.grammars("quick").items[off::step]:
            if "\r" not in al:
                al = "\n" + al[:4]
            f.add(r, al, min(ml, 4), mem, mdl)
    # a line break before every item
    nl = newline
    for x in [lit("ab"), cc("ab"), lset("b", "ba"), choice(lit("a"), lit("bc")), error("tagA", lit("ab")),
              prod("PA", True), must(lit("b"), "tagA"), eof, lookahead(["b"], ["c"], "tagB")]:
        f.add(seq(while_(nl), x), "\nab", 5)
        f.add(seq(try_(seq(while_(nl), x)), lit("b"), lit("a")), "\nab", 5)
    return f
