"""Which harness decides which property."""
import glob
import importlib
import os


class Check:
    level = "model_checking"
    assumptions = []
    technique = "explicit-state exploration of the real code against an independent executable model"
    level_note = ""
    what_is_a_state = "distinct (program, observable outcome) pairs"

    def binaries(self, tier, bdir):
        raise NotImplementedError

    def bounds(self, tier):
        return ""


class Gram(Check):
    def __init__(self, mod, bounds, flags=("-O0",), name=None):
        self.mod, self._b, self.flags, self.name = mod, bounds, flags, name or mod
        self.assumptions = ["grammars and inputs beyond the stated bounds are not explored"]

    def binaries(self, tier, bdir):
        from checks import gram
        mod = importlib.import_module("checks." + self.mod)
        extra = getattr(mod, "EXTRA", {"quick": 0, "thorough": 1})[tier]
        return [gram.binary(mod.grammars(tier), bdir, self.name, self.flags, str(extra))]

    def bounds(self, tier):
        return self._b


class Cpp(Check):
    """A dedicated harness, compiled as nparts translation units."""

    def __init__(self, name, bounds, nparts=1, flags=("-O1",), assumptions=(), **kw):
        self.name, self._b, self.nparts, self.flags = name, bounds, nparts, flags
        self.technique = kw.pop("technique", self.technique)
        self.kw = kw
        self.assumptions = list(assumptions) or ["inputs beyond the stated bounds are not explored"]

    def binaries(self, tier, bdir):
        srcs = []
        for i in range(self.nparts):
            p = os.path.join(bdir, "%s_part%d.cpp" % (self.name, i))
            with open(p, "w") as f:
                f.write('#define PART %d\n#define NPARTS %d\n#include "%s.cpp"\n'
                        % (i, self.nparts, self.name))
            srcs.append(p)
        kw = dict(self.kw)
        for pat in kw.pop("extra", ()):
            srcs += sorted(glob.glob(pat, recursive=True))
        return [dict(name=self.name, sources=srcs, flags=list(self.flags), **kw)]

    def bounds(self, tier):
        return self._b


class Multi(Check):
    """Several harnesses decide one property."""

    def __init__(self, *parts):
        self.parts = parts
        self.assumptions = [a for p in parts for a in p.assumptions]
        self.technique = parts[0].technique

    def binaries(self, tier, bdir):
        return [b for p in self.parts for b in p.binaries(tier, bdir)]

    def bounds(self, tier):
        return "; ".join(p.bounds(tier) for p in self.parts)


ASAN = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")

REG = {
    "C01": Multi(Gram("c01", "all listed rule compositions x all strings over a 3-letter alphabet"),
                 Cpp("c01x", "22 rules that consume many characters (any, until, lookahead, loops, captures, lines) x all "
                     "strings up to length 3 (5) and texts of up to 27 (40) units with up to two deviating ones, control, "
                     "high and wide units included, x buffers and strings in 6 encodings", nparts=8, flags=("-O1",))),
    "C02": Multi(Gram("c02", "list/opt_list/times/repeat/combination/flag rules with every listed item x "
                      "separator x follow-up rule, x all strings up to length 6 (7 thorough)"),
                 Cpp("c02x", "lists and counted repetitions of 0-40 (140) items and of 2^k-1..2^k+1 items up to 65537 (200000) "
                     "with a missing item, an extra or trailing separator at every characteristic place; fixed repetition of up "
                     "to 17; combinations of up to 17 alternatives in every rotation, with every replacement and insertion and "
                     "up to 300 duplicates; flag sets of 8-64 bits on all sequences of up to 4 (6)", nparts=14, flags=("-O1",))),
    "C03": Multi(Gram("c03", "try/find/recover/terminator/brackets forms with every listed rule, item, "
                      "separator and limit, x all strings up to length 5-6"),
                 Cpp("c03x", "14 find/recover rules with up to 3 overlapping multi-character synchronisation points and limits, and "
                     "all forms of the predefined brackets with and without limits, x all strings up to length 5-6 (7) and "
                     "discarded stretches of 0-20 (70) and 2^k-1..2^k+1 units up to 65537 with complete and incomplete "
                     "synchronisation points in them, x 5 encodings x strings, buffers, ranges", nparts=16, flags=("-O1",))),
    "C04": Multi(Gram("c04", "a cross-section of the C01-C03 grammars, every action, x all strings"),
                 Cpp("c04x", "22 grammars with whitespace, delimited text, recursion, expressions, context variables, identifiers, "
                     "numbers, combinations, scanning, lookahead, recovery and debug events x all strings up to length 5-6 (6-8): "
                     "all actions against each other, the trace against the tree and errors, with and without token kinds, under "
                     "14 display options", nparts=23, flags=("-O0",))),
    "C05": Cpp("c05", "75 grammars covering every word-at-a-time and per-encoding code path x all "
               "strings up to length 4 over their special characters and all texts of length up to "
               "26 with up to two deviating characters (14 at any two positions), x 6 encodings x "
               "string/zstring/buffer/range/lexeme/argv inputs; all argument vectors of up to 4 arguments", nparts=24, flags=("-O0",)),
    "C06": Multi(Gram("c06", "16 productions of every kind (plain, token, transparent, possibly empty, failing after a "
                "child, own whitespace) in 24 contexts and all pairs, with and without whitespace, x all "
                "strings up to length 5-7; every view of every tree; the same around a storage block boundary",
                      ("-O0", "-DENG_TREE_VIEWS")),
                 Cpp("c06x", "custom token kinds on all strings up to length 5 (7), 6 input kinds, inputs of up to 66000 "
                     "tokens, token kind values; expression productions on all strings up to length 6 (8) and long "
                     "chains", nparts=3, flags=("-O1",))),
    "C07": Cpp("c07", "all builder operation sequences (tokens, merged and ignored tokens, normal/token/transparent "
               "productions, containers, finish, cancel) of length 6-8 (8-10 thorough) from an empty tree, of length 3-4 "
               "(4-5) at every fill level of a storage block, in open productions and containers, in the second block, "
               "on reused trees, with 180/400-token steps and 1000 levels; all histories of 3 (4) operations on two "
               "trees with a failure of every allocation", nparts=10, flags=ASAN),
    "C08": Cpp("c08", "every UTF-8 sequence of length 0-3, of length 4 from lead byte 0xE0 (all of them "
               "thorough), length 5 over boundary bytes; every UTF-16 unit and every pair starting "
               "with a surrogate; every UTF-32 value up to 0x1FFFFF (all thorough); every ASCII pair",
               flags=("-O2",)),
    "C09": Cpp("c09", "every scalar value x 6 encoding/string-type pairs (callback, allocator, sink, "
               "escape); all sequences of up to 3 (4) of 13 boundary code points, each element "
               "pushed in 4 ways; boundary literals", flags=("-O2",)),
    "C10": Cpp("c10", "all 0x110000 code points x 19 classes (all encodings) + 38 general category "
               "rules (utf32 and selected others) + general_category()/simple_case_fold(); runs of up "
               "to 18 characters with any ASCII or 26 other characters at any position", nparts=8,
               flags=("-O2",)),
    "C11": Cpp("c11", "39 classes (a third of them over all 0x110000 code points, the rest over ASCII and "
               "57 boundary code points; all thorough), all pairs of 12 classes and all class/literal "
               "pairs under every operator, 19 triple shapes over 3-4 classes, in 5 encodings, plus "
               "ill-formed units; byte classes over all bytes; runs of up to 18 characters with any "
               "deviating character in word-scanned buffers", nparts=16, flags=("-O0",)),
    "C12": Multi(Cpp("c12", "43 literal, keyword, follow and case-folded rules on all strings up to length 2-5 and "
               "all near misses (truncated, extended, one or two characters changed), 8 input kinds; all "
               "ordered choices of up to 3 of 8 literals as a set (up to 2 with case folding) on all "
               "strings up to length 4; 4 symbol tables; 5 one-character literals against every code "
               "point with a folding (all code points thorough)", nparts=24, flags=("-O0",)),
               Cpp("c12x", "literals of 1-40, 63-65, 86, 120, 127-130, 255-257 and 300 characters (all different, all equal, one "
                   "to four units each) cut, changed or extended at every position in 6 encodings; literal sets and symbol tables "
                   "of 20, 130, 260-340 entries with common prefixes on all printable strings of two characters and around every "
                   "entry; keywords of 1-260 characters cut, changed and extended at every position",
                   nparts=15, flags=("-O0", "-fconstexpr-steps=200000000", "-fbracket-depth=2048", "-ftemplate-depth=2048"))),
    "C13": Cpp("c13", "6 bases x 9 digit forms on all strings up to length 4 (6 thorough) and on runs of up to 20 "
               "digits with any ASCII or 6 other characters at any position; 17 integer types (8 to 128 bit) "
               "and 13 bounded/unbounded ones x bases x forms on all values below 1100 (40000), around the "
               "maximum, its quotients and all powers of the radix, in every spelling (leading zeros, "
               "separators anywhere, one digit too many); code point ids over all code points (thorough); "
               "signs", nparts=32, flags=("-O0",)),
    "C14": Cpp("c14", "24 delimiter/class/limit/escape configurations on all strings up to length 4-7 over their "
               "special characters (ill-formed units included), on texts of up to 29 characters with 1-3 "
               "special characters at any position (word-scanned buffers), all strings up to length 4 (5) of broken "
               "multi-unit sequences in UTF-8, UTF-16 and UTF-32, with whitespace skipping, and "
               "without opening delimiter; all sequences of up to 4 of 10 string pieces", nparts=24,
               flags=("-O0",)),
    "C15": Cpp("c15", "all 216 three-level and 36 two-level operator tables (every combination of left, right, "
               "list, single, postfix, prefix), two tables of 16 levels and 47 operators (all pairs and triples of their infix operators, with prefix and postfix operators), nesting limits 0-3, 255, 256, subexpressions, groups, shared "
               "literals, branch operators, every tag kind, void values, whitespace, on all strings up to "
               "length 5-9 (7-12 thorough); a string is extended only while the parser looks at its end",
               nparts=45, flags=("-O0",)),
    "C16": Multi(Gram("c16", "9 whitespace rules x 65 rule compositions x all strings up to length 5-6"),
                 Cpp("c16x", "16 whitespace rules (classes with and without the space, literals, sets, comments "
                     "that can fail) x automatic, explicit and token-production skipping x all strings up to length 4 "
                     "(6) and runs of up to 27 (40) characters with up to two deviations x buffers and strings in 6 "
                     "encodings", nparts=8, flags=("-O1",))),
    "C17": Multi(Gram("c17", "all pairs and triples of counter/flag/identifier operations selected by the "
                      "input (operation sequences up to length 5-8), incl. nested, shadowing, failing, "
                      "returning and recursive productions"),
                 Cpp("c17x", "all sequences of 3 of 6 counter operations with amounts around the 8 and 16 bit limits; "
                     "identifiers of up to 34 (70) characters rematched against every one-character variation, prefix and "
                     "extension; 5 input kinds", nparts=2, flags=("-O1",))),
    "C18": Gram("c18", "32 recursive shapes x depth limits 1-4, 300, 1024 x all strings up to 8"),
    "C19": Cpp("c19", "all texts of up to 5-7 (6-9 thorough) pieces out of ASCII, LF, CR, 2-4 unit code points and ill-formed "
               "units in 7 encodings, string, buffer and forward-iterator inputs, unit/code point/byte counting: "
               "every position, every earlier anchor, every annotated range and size; lines, columns and ranges around "
               "every power of two to 131072", nparts=10, flags=("-O1",)),
    "C20": Cpp("c20", "all histories of 3-4 (5 thorough) buffer operations (construct, build, copy, copy to another "
               "resource, move, copy/move assign incl. self, swap, release/adopt, destroy) over 3 buffers and 3 memory "
               "resources, each with a failure of every single allocation; all sizes 0-72 (300) and around 128..65536 in 7 "
               "encodings with every constructor, every special unit at every position, and every kind of input as source",
               nparts=24, flags=ASAN + ("-fsized-deallocation",)),
    "C21": Cpp("c21", "every byte string of length 0-2, all of length 3 (quick: those starting a mark or over boundary "
               "bytes), every 2-byte unit, all 4-byte marks with any two bytes changed, up to 8 bytes over the marks' "
               "bytes, all sizes 0-200 (700) and around 1024..65536, x 7 encodings x 3 byte orders, memory ending at an "
               "inaccessible page", flags=ASAN + ("-fno-sanitize=alignment",)),
    "C22": Cpp("c22", "every sequence of system call outcomes with up to 2 (3) faults (10 open errors, seek, read errors and "
               "short reads, mmap, close) for 22 (90) sizes around the size classes; all sizes 0-70 (400) and around the "
               "class and page boundaries up to 1 MB x encodings x byte orders x marks; standard input of all sizes to "
               "2100 (4200) and around each buffer growth, in chunks, with a failure or early end at every read",
               flags=ASAN, extra=(os.environ.get("VERIF_REPO", "/repo") + "/src/**/*.cpp",),
               ldflags=["-Wl,--wrap=" + f for f in "open lseek read pread mmap munmap close".split()],
               technique="stateless exploration of the real code under a fault injector: every sequence of system call "
               "outcomes within the fault bound",
               assumptions=["the portable (non-unix) implementation of read_file is not built on this platform"]),
    "C23": Cpp("c23", "every code point x 16 flag sets x tab widths; lexemes in 7 encodings: all byte strings up to 2, class "
               "representatives to length 4, every UTF-16 unit, widths 0-5 and around 255, contiguous and list iterators; "
               "all trees of up to 4 (5) nodes of 6 kinds below the root, all with plain tokens of up to 9 (10) nodes, chains to depth 40 x every depth limit; to pointers, "
               "inserters, plain output iterators, files, stdout and stderr", nparts=13, flags=("-O1",)),
    "C24": Multi(Cpp("c24", "all texts of up to 4 (5) pieces out of ASCII, tab, LF, CRLF, 2- and 4-byte code points in 7 "
                     "encodings x every context, start and end of an error x every error kind and literal index x 4 (8) option "
                     "sets, on contiguous, list and buffer inputs and every part of a text as lexeme input; 8-10000 lines, "
                     "lines to 300 units; 0-4 errors per report; every message kind", nparts=9, flags=("-O1",)),
                 Gram("c24", "a ninth (half) of the rule compositions of C01-C03 x all strings up to length 4-5 with line breaks: "
                      "every report of validate, parse and parse_as_tree", flags=("-O0", "-DENG_REPORT"), name="c24g")),
    "C25": Multi(Cpp("c25", "all sequences of up to 3 of 37 scanner operations (4 through lexy::scan and a tree; thorough: 4 everywhere) on all "
               "texts up to length 3-6, status, value, position and errors compared after every operation; through "
               "lexy::scan on 4 inputs with and without whitespace and state, and through dsl::scan under parse, "
               "parse_as_tree, validate and match with and without arguments; recursion to depth 3 on all texts up "
               "to length 7 (8), context variables under all sequences of 5 (6) operations, scans in lists",
               nparts=16, flags=("-O1",)),
                 Cpp("c25x", "10 productions written as a scan and as a rule, with and without whitespace: all strings up to length "
                     "5-6 (6-7), same trace, tree, errors and value", flags=("-O1",))),
    "C26": Cpp("c26", "all sequences of 4-5 (6-7) calls of every sink (as_list, as_collection, concat, collect, fold, count, "
               "as_aggregate, as_string), each call in every argument form, 10 containers, every way to pass an allocator; all "
               "argument combinations up to 4 of the callbacks; all pairs of 14 placeholders x 11 argument lists; all "
               "state positions in compositions of up to 4; all texts up to length 6 (8) of 12 grammars; copies counted",
               nparts=27, flags=("-O0",)),
    "C27": Cpp("c27", "bytes of 1-17 x 7 classes, padding of 1-16 x 5 values, 10 integer rules, integers of 16 other tokens, "
               "162 bit patterns of single bits and 76 of nibbles and runs, all byte order marks: inputs shorter, "
               "exact and longer, with any one byte of any value and any two of boundary values, all 2-byte "
               "inputs; as rule, as branch, in a tree, with whitespace", nparts=28, flags=("-O0",)),
    "C28": Cpp("c28", "9 identifier definitions on all strings up to length 4 (6 thorough) over 7 characters and "
               "on runs of up to 27 characters with any deviating character; every reservation kind with "
               "each of 6 words, pairs of words and pairs of kinds, folded/keyword/set words, on all "
               "strings up to length 4-6 (7); 12 symbol rules on all strings up to length 5-7",
               nparts=24, flags=("-O0",)),
    "C29": Cpp("c29", "queries (tokens, child(ren) by 20 predicates, positions, covering nodes) of all trees of up to 5 (6) "
               "nodes below the root and of wide and deep ones across block boundaries; 27 grammars over token and "
               "production nodes, with and without whitespace, on all trees of up to 4 (5) nodes and their subtrees, against "
               "a reference interpreter", nparts=28, flags=("-O0",)),
    "C30": Cpp("c30", "all sequences of up to 6 (8) reader operations (read, look, mark, reset, take a lexeme, copy the "
               "reader, prompt again) on all typed texts of up to 4-5 characters and line ends, in 3 character types; "
               "first lines of all lengths around every buffer capacity and growth x 9 second lines x closing modes in 4 "
               "character types; the same through the default prompt and redirected stdin/stdout; parsing all texts of up "
               "to 6 (7) characters", flags=ASAN),
    "C31": Multi(Gram("c31", "11 subgrammars in 17 positions, with and without surrounding whitespace, and variables; 40 "
                      "compositions of side effects; 45 rules under parse_as and member in 16 positions, all strings up to "
                      "length 4-7, under match, validate, parse, parse_as_tree and trace"),
                 Cpp("c31x", "side effects without, with and with a const parse state, values determined by the parse state, "
                     "and move-only values counted, through subgrammars and parse_as: all strings up to length 5-7 (7-9) "
                     "under every action", nparts=3, flags=ASAN)),
    "C32": Cpp("c32", "60 tasks (parses of 14 grammars under every action, scans, error reports, locations, visualization, tree "
               "queries, raw conversion): every pair interleaved at every access to static data and call of user code, all schedules with one "
               "or two preemptions (thorough: three, where there are at most a million); every "
               "sequence of three tasks on the same memory, as string and as buffer",
               flags=("-O1", "-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores")),
}


def get(pid):
    return REG[pid]
