#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
D = "include/lexy/dsl/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


prop("C01", "Core combinators mean what the grammar says",
     "For every grammar built from tokens, sequences, branches, choices, options, conditionals, "
     "loops, lookahead, until, EOF/newline rules, captures, positions and explicit errors, and for "
     "every input, a parse follows exactly the documented PEG-like semantics: a branch is taken iff "
     "its condition matches, the first matching alternative of a choice is chosen, there is no "
     "backtracking once a branch is taken, and lookahead consumes nothing. The produced values, the "
     "consumed prefix and the reported errors (kind, range, and enclosing production) are the ones "
     "these semantics determine.",
     ["programs", "inputs"], "every composition of the core rules, every input",
     "Unit tests fix a handful of hand-written rule instances and inputs; composition (which rule is "
     "nested in which, and what follows) is only sampled.",
     [D + x for x in ("sequence.hpp", "branch.hpp", "choice.hpp", "option.hpp", "if.hpp", "loop.hpp",
                      "peek.hpp", "lookahead.hpp", "until.hpp", "eof.hpp", "newline.hpp",
                      "error.hpp", "token.hpp", "capture.hpp", "position.hpp", "production.hpp",
                      "return.hpp", "any.hpp")],
     [("continuation-passing parsers and branch parsers (try_parse/cancel/finish)", D + "base.hpp"),
      ("token_base", D + "token.hpp")],
     ["lexy::match", "lexy::validate", "lexy::parse", "lexy::parse_as_tree"])

prop("C02", "Repetition rules produce exactly the items present",
     "For every item and separator rule and every input, lists, optional lists, fixed and counted "
     "repetition, combinations and flags accept exactly the item/separator sequences their "
     "separator policy allows, hand every item to the sink once and in order, and report exactly "
     "the documented errors (trailing separator, duplicate, missing item) with the exact range. "
     "Repetition stops at the first position where no further item or separator begins and the "
     "following rule continues there.",
     ["programs", "inputs"], "every item/separator/policy combination, every input",
     "Tests use a few literal items; interactions of separator policy, branch vs. non-branch item, "
     "values and following rule are not covered.",
     [D + x for x in ("list.hpp", "separator.hpp", "times.hpp", "repeat.hpp", "combination.hpp",
                      "flags.hpp", "parse_as.hpp")],
     [("list loop", D + "list.hpp"), ("separator policies", D + "separator.hpp"),
      ("combination loop", D + "combination.hpp")],
     ["lexy::validate", "lexy::parse", "lexy::parse_as_tree"])

prop("C03", "Error recovery resynchronises exactly where documented",
     "For every rule wrapped in error recovery (try, find, recover, terminators and brackets with "
     "their try/opt/list forms and limits) and every malformed input, the parser discards exactly "
     "the input up to the documented synchronisation point, never past a limit, reports every error "
     "exactly once and in order, and then continues as if the construct had been finished. A parse "
     "that recovers yields a value and a recovered status; one that cannot recover is fatal and "
     "yields none.",
     ["programs", "inputs"], "every recovery construct, every input",
     "The number of error/recovery paths grows with every malformed input; tests sample a few.",
     [D + x for x in ("recover.hpp", "terminator.hpp", "brackets.hpp", "list.hpp", "option.hpp")],
     [("_tryt, _find, _reco", D + "recover.hpp"), ("_lstt state machine", D + "list.hpp")],
     ["lexy::validate", "lexy::parse", "lexy::parse_as_tree"])

prop("C04", "All parse actions agree on every input",
     "For every grammar and input, matching, validating, parsing to a value, parsing to a tree and "
     "tracing make the same decisions: matching succeeds iff validation reports no error, all report "
     "the same errors in the same order with the same context, and they agree on success, recovered "
     "and fatal status. The trace lists the same productions, tokens and errors, in the same order "
     "and at the same positions, as the parse does.",
     ["programs", "inputs"], "every grammar and input, through every action",
     "Each action has its own event handler; tests check each action on a few grammars only.",
     ["include/lexy/action/match.hpp", "include/lexy/action/validate.hpp",
      "include/lexy/action/parse.hpp", "include/lexy/action/parse_as_tree.hpp",
      "include/lexy/action/trace.hpp", "include/lexy/action/base.hpp"],
     [("event handlers of each action", "include/lexy/action/"), ("do_action",
      "include/lexy/action/base.hpp")], ["lexy::trace", "lexy::validate", "lexy::parse"])

prop("C05", "Parsing does not depend on how the input is stored",
     "The same sequence of code units gives the same result, errors, values and positions whether it "
     "is read from a string view, a null-terminated string, an owning buffer (which is scanned a "
     "word at a time), a general iterator range, a lexeme of another input, or command-line "
     "arguments. The same text gives corresponding results in every encoding able to represent it. "
     "No input is read past its end.",
     ["inputs", "configurations"], "every input length, content, alignment and storage",
     "Word-at-a-time scanning only differs from plain scanning at particular lengths, offsets and "
     "characters; tests use short inputs.",
     ["include/lexy/input/buffer.hpp", "include/lexy/input/string_input.hpp",
      "include/lexy/input/range_input.hpp", "include/lexy/input/argv_input.hpp",
      "include/lexy/input/lexeme_input.hpp", "include/lexy/_detail/swar.hpp", D + "ascii.hpp",
      D + "literal.hpp", D + "identifier.hpp", D + "until.hpp", D + "whitespace.hpp",
      D + "delimited.hpp", D + "digit.hpp", D + "any.hpp"],
     [("swar readers", "include/lexy/_detail/swar.hpp"), ("per-rule SWAR fast paths", D)],
     ["lexy::match", "lexy::validate", "lexy::parse"])

prop("C06", "Parse trees are lossless, well-formed and reflect the grammar",
     "For every grammar and input for which parsing does not fail fatally, the tree's tokens and the "
     "remaining input cover the whole input exactly once and in order, including whitespace and "
     "discarded input. Its production nodes are exactly the productions that matched (transparent "
     "ones excepted, failed ones replaced by an error token), properly nested; children, parent, "
     "sibling, lexeme, position and traversal views, size and depth all describe that one tree.",
     ["programs", "inputs"], "every grammar and input",
     "Tests compare a few small trees.",
     ["include/lexy/parse_tree.hpp", "include/lexy/action/parse_as_tree.hpp", D + "production.hpp",
      "include/lexy/token.hpp", "include/lexy/grammar.hpp"],
     [("builder", "include/lexy/parse_tree.hpp"), ("event handler",
      "include/lexy/action/parse_as_tree.hpp")], ["lexy::parse_tree"])

prop("C07", "The parse tree builder survives any operation history",
     "After any legal sequence of builder operations (productions, containers, tokens, finishing, "
     "cancelling, re-rooting, reuse of an existing tree), however long, the tree contains exactly "
     "the nodes that were kept, in order, with correct size and depth. Cancelling leaves no trace, "
     "earlier nodes are never altered, and all memory is returned to its resource exactly once, "
     "also across move, clear and reuse.",
     ["histories"], "every operation sequence, at every fill level of the node storage",
     "Storage is handed out in blocks; behaviour at block boundaries needs specific histories that "
     "tests do not reach.",
     ["include/lexy/parse_tree.hpp"],
     [("pt_buffer", "include/lexy/parse_tree.hpp"), ("builder::marker",
                                                    "include/lexy/parse_tree.hpp")],
     ["lexy::parse_tree::builder"],
     [("block list", "nodes live in fixed-size blocks", "include/lexy/parse_tree.hpp")])

prop("C08", "Code point decoding accepts exactly the well-formed encodings",
     "For every sequence of code units in ASCII, UTF-8, UTF-16 and UTF-32, parsing one code point "
     "succeeds iff the units at the position start with a well-formed encoding of a code point "
     "(no overlong forms, surrogates, out-of-range values or truncation), consumes exactly that "
     "encoding and yields its value. Otherwise it fails with the documented error without skipping "
     "valid input, and classification of code points (ASCII, BMP, scalar, surrogate, valid) is exact.",
     ["inputs"], "every code unit sequence",
     "The domain has billions of sequences; tests check about a hundred.",
     ["include/lexy/_detail/code_point.hpp", D + "code_point.hpp", "include/lexy/code_point.hpp"],
     [("parse_code_point / recover_code_point", "include/lexy/_detail/code_point.hpp")],
     ["dsl::code_point", "lexy::make_code_point ranges"])

prop("C09", "Code points encode and decode as exact inverses",
     "For every Unicode scalar value and every Unicode encoding, the text produced from the code "
     "point is its one well-formed encoding, decoding it gives the code point back, and sequences of "
     "code points round-trip unit for unit, both one at a time and through the string callbacks, "
     "escapes and code point literals.",
     ["inputs"], "every code point, encoding and pair of neighbours",
     "Tests sample a few code points per length class.",
     ["include/lexy/_detail/code_point.hpp", "include/lexy/code_point.hpp",
      "include/lexy/callback/string.hpp"],
     [("encode_code_point", "include/lexy/_detail/code_point.hpp"), ("as_string",
      "include/lexy/callback/string.hpp")], ["lexy::as_string", "lexy::visualize"])

prop("C10", "Unicode properties match the Unicode 15 character database",
     "For every code point from 0 to 0x10FFFF, the general category, the character classes derived "
     "from it (control, blank, newline, space, upper, lower, alpha, digit, alnum, word, graph, "
     "print, character), the identifier start/continue sets and simple case folding agree with the "
     "Unicode Character Database version the library states. The rules that match those classes "
     "accept exactly these code points in every Unicode encoding.",
     ["inputs"], "all 1,114,112 code points",
     "Tests probe a few dozen code points.",
     ["include/lexy/_detail/unicode_database.hpp", "include/lexy/code_point.hpp", D + "unicode.hpp"],
     [("category / property / case folding tables", "include/lexy/_detail/unicode_database.hpp")],
     ["lexy::code_point", "dsl::unicode", "lexy::simple_case_fold"])

prop("C11", "Character classes and their set algebra are exact",
     "Every predefined ASCII class, literal class, range and one-of class matches exactly its "
     "documented characters, and union, complement, difference and intersection of any classes match "
     "exactly the corresponding set, for every character of every encoding. A match consumes exactly "
     "one character (the whole code point in Unicode encodings); on a mismatch the documented error "
     "with the class's name is reported and nothing is consumed.",
     ["programs", "inputs"], "every class expression, every character",
     "Tests check few characters per class and few expressions.",
     [D + "ascii.hpp", D + "char_class.hpp", D + "code_point.hpp", D + "unicode.hpp"],
     [("char_class_ascii / char_class_match_cp", D + "char_class.hpp")],
     ["lexy::match", "lexy::validate"])

prop("C12", "Literals, literal sets and keywords match exactly",
     "A literal matches iff the input starts with it, a literal set or symbol table matches the "
     "longest member present, a keyword matches iff it is not followed by an identifier character, "
     "and a follow restriction holds exactly; with case folding the comparison is exactly equality "
     "of the folded text. Exactly the matched text is consumed, and failures report the literal, the "
     "matched prefix length and the position.",
     ["programs", "inputs"], "every set of literals, every folding mode, every input and encoding",
     "Sets with shared prefixes and backtracking need specific combinations of set and input.",
     [D + "literal.hpp", D + "case_folding.hpp", D + "follow.hpp", D + "identifier.hpp",
      D + "symbol.hpp", D + "punctuator.hpp"],
     [("lit_trie / lit_trie_matcher", D + "literal.hpp"), ("case folding readers",
      D + "case_folding.hpp")], ["lexy::match", "lexy::parse"])

prop("C13", "Numbers parse to their exact value or report overflow",
     "For every digit string, base, separator policy, sign and result type, parsing an integer "
     "yields exactly the mathematical value when it is representable and reports overflow exactly "
     "when it is not; there is never silent wrap-around. Digit rules accept exactly the digit "
     "strings their base, separator, leading-zero and digit-count constraints allow, and code point "
     "identifiers yield exactly the valid code points.",
     ["inputs", "configurations"], "every digit string, base, policy and result type",
     "Overflow limits differ per type and base; tests check a few values.",
     [D + "integer.hpp", D + "digit.hpp", D + "sign.hpp", "include/lexy/callback/integer.hpp"],
     [("integer_parser / integer_traits", D + "integer.hpp"), ("digits rules", D + "digit.hpp")],
     ["lexy::parse"])

prop("C14", "Delimited text and escapes yield exactly the content",
     "For every delimiter, character class, limit and escape set and every input, a delimited rule "
     "ends at the first unescaped closing delimiter, delivers exactly the content between the "
     "delimiters in order, replaces every valid escape by its value, and reports each invalid "
     "character, invalid escape and missing closing delimiter exactly once with its exact range. "
     "It never runs past its limit.",
     ["programs", "inputs"], "every delimiter/escape/limit configuration, every input",
     "Interaction of multi-character delimiters, escapes, limits and invalid characters is only "
     "sampled.",
     [D + "delimited.hpp"], [("_del, _del_limit, _escape", D + "delimited.hpp")],
     ["lexy::parse", "lexy::parse_as_tree"])

prop("C15", "Operator expressions group by precedence and associativity",
     "For every operator table (prefix, postfix, infix left/right/list/single, any nesting of "
     "precedence levels and operand redefinition) and every input, the produced value and tree group "
     "operations exactly as precedence and associativity require, operators are chosen by longest "
     "match, and operands and operators are delivered in source order. Non-associative chaining, "
     "missing operands and excessive nesting are reported with the exact error.",
     ["programs", "inputs"], "every operator table shape, every token sequence",
     "The space of tables x expressions is large; tests use a few tables.",
     [D + "expression.hpp", D + "operator.hpp"],
     [("_parse_lhs / _parse_rhs, binding powers", D + "expression.hpp")],
     ["lexy::parse", "lexy::parse_as_tree"])

prop("C16", "Whitespace is skipped exactly where the grammar allows",
     "With automatic whitespace skipping, whitespace is skipped once at the start and after every "
     "token, by the rule of the innermost production that defines one, and never inside tokens, "
     "token productions or regions that disable it; values and captures never include it. This holds "
     "for every grammar and input, also after failures from which the parse recovered.",
     ["programs", "inputs"], "every placement of whitespace rules and of whitespace in the input",
     "Tests check each rule with one whitespace definition.",
     [D + "whitespace.hpp", D + "base.hpp", "include/lexy/grammar.hpp", "include/lexy/action/base.hpp"],
     [("automatic_ws_parser, skip_whitespace, _wsn", D + "whitespace.hpp")],
     ["lexy::parse", "lexy::parse_as_tree"],
     [("skipping flag", "whether automatic skipping is on", "include/lexy/action/base.hpp")])

prop("C17", "Parse-time state variables behave as declared",
     "For every grammar using context counters, flags and identifiers, each variable has exactly the "
     "value its sequence of operations determines, tests of it take exactly the corresponding branch "
     "or report exactly the documented error, and an identifier comparison matches iff the text "
     "equals the remembered text. A variable is private to the production that created it, starts "
     "from its declared value, and is shared with nested productions only.",
     ["programs", "inputs"], "every sequence of variable operations and every input",
     "Operation sequences and nesting are only sampled.",
     [D + "context_counter.hpp", D + "context_flag.hpp", D + "context_identifier.hpp",
      "include/lexy/action/base.hpp"],
     [("parse_context_var", "include/lexy/action/base.hpp")], ["lexy::parse"])

prop("C18", "Recursion is bounded by the declared limit, and only by it",
     "For every recursive grammar with a declared maximum depth and every input, a parse reports the "
     "depth error exactly when the nesting of recursive productions would exceed that maximum, at "
     "the position of the recursion, and otherwise parses exactly as if there were no limit. The "
     "count returns to its previous value when a recursive production ends, whether it succeeded or "
     "failed and was recovered from.",
     ["programs", "inputs"], "every nesting history, every limit",
     "Tests check one limit with one shape; failure followed by recovery is not covered.",
     [D + "production.hpp", D + "expression.hpp", "include/lexy/action/base.hpp"],
     [("_depth_handler", D + "production.hpp")], ["lexy::validate", "lexy::parse"],
     [("cur_depth", "current recursion depth", "include/lexy/action/base.hpp")])

prop("C19", "Input locations and line annotations are exact",
     "For every input and position, the reported line and column count exactly the newlines and "
     "column units before it, resuming from any earlier anchor gives the same answer as starting at "
     "the beginning, and looking up a position by its location is the inverse. The annotated line "
     "splits exactly into the text before, the annotated range (clipped to its line and rounded to "
     "whole code points) and the text after.",
     ["inputs"], "every input, position, anchor and range",
     "Newline styles, truncated code points and line ends combine in many ways.",
     ["include/lexy/input_location.hpp"],
     [("counting policies", "include/lexy/input_location.hpp"), ("get_input_line_annotation",
      "include/lexy/input_location.hpp")],
     ["lexy::get_input_location", "lexy::get_input_line_annotation"])

prop("C20", "Buffers own exactly their bytes",
     "For every size and sequence of construct, copy, move, assign, swap-like and destroy operations, "
     "a buffer holds exactly the code units it was given, copies are independent, a moved-from buffer "
     "is still a valid buffer (an empty one after move construction), and every block of memory is released exactly once to the memory resource "
     "it came from, with the size and alignment it was requested with. Reading a buffer yields its "
     "units and then end of input.",
     ["histories", "inputs"], "every operation history and size",
     "Ownership transfers between resources need specific operation sequences.",
     ["include/lexy/input/buffer.hpp", "include/lexy/_detail/memory_resource.hpp"],
     [("buffer special members", "include/lexy/input/buffer.hpp")], ["lexy::buffer"])

prop("C21", "Raw bytes become code units with the right byte order and BOM",
     "For every byte sequence, target encoding and byte-order setting, making a buffer yields exactly "
     "the code units the bytes denote in that byte order, with a byte order mark removed and obeyed "
     "exactly when one is present and the setting asks for it. No byte is lost, duplicated or read "
     "out of bounds, for every length that is a whole number of code units.",
     ["inputs", "configurations"], "every byte sequence, encoding and byte order",
     "Tests check one sequence per encoding.",
     ["include/lexy/input/buffer.hpp", D + "bom.hpp", D + "byte.hpp"],
     [("make_buffer_from_raw", "include/lexy/input/buffer.hpp")], ["lexy::make_buffer_from_raw"])

prop("C22", "Reading files yields the whole content or an error",
     "For every file or standard-input content and size, and every sequence of partial reads or I/O "
     "failures, reading yields either exactly the complete content in the requested encoding or an "
     "error of the documented kind, never partial or altered data (content that is not a whole number "
     "of code units is an error). Descriptors and memory are "
     "released on every path.",
     ["fault_sequences", "inputs"], "every content size, every failing or partial system call",
     "Tests read one small file and one missing file; faults are never injected.",
     ["src/input/file.cpp", "include/lexy/input/file.hpp", "include/lexy/_detail/buffer_builder.hpp"],
     [("read_file / read_stdin", "src/input/file.cpp"), ("buffer_builder growth",
      "include/lexy/_detail/buffer_builder.hpp")], ["lexy::read_file", "lexy::read_stdin"])

prop("C23", "Visualisation is faithful and bounded",
     "For every object and display option, rendering a code point, a lexeme or a parse tree shows "
     "every code point exactly once and in order, escapes exactly the ones the options ask for, shows "
     "units that are not part of a well-formed code point byte by byte, shows every node of a tree "
     "with its name, depth and position among its siblings, and truncates only where the width or "
     "depth option asks for it, with the truncation marked. Rendering to a buffer, to a file and to "
     "any output iterator gives the same bytes, and the display width is the number of characters "
     "shown.",
     ["inputs", "configurations"], "every code point, option set and input",
     "Tests check a few characters and options.",
     ["include/lexy/visualize.hpp"], [("visualize_to overloads", "include/lexy/visualize.hpp")],
     ["lexy::visualize_to", "lexy::visualize"])

prop("C24", "Error reports point at the actual error",
     "For every error raised on every input, the formatted report names the right line and column, "
     "quotes exactly the right line, underlines exactly the error's range and context, and describes "
     "the error by its own kind and data; the number of reported errors equals the number of errors. "
     "Error objects carry exactly the range, literal, index, length or class name of what was "
     "expected.",
     ["inputs", "programs"], "every error kind, position, range and line shape",
     "Tests check one report per error kind.",
     ["include/lexy_ext/report_error.hpp", "include/lexy/error.hpp", "include/lexy/input_location.hpp"],
     [("diagnostic_writer, _write_error", "include/lexy_ext/report_error.hpp")],
     ["lexy_ext::report_error"])

prop("C25", "Manual scanning behaves like the rules it invokes",
     "For every sequence of scanner operations (parse, branch, peek, match, capture, discard, "
     "recovery, position) and every input, each operation has the effect the corresponding rule would "
     "have at that position: same result, value, errors and new position. After a failure the scanner "
     "stays failed and no operation has an effect until recovery is finished, and the final status "
     "reports exactly what happened.",
     ["histories", "inputs"], "every operation sequence, every input",
     "Histories of operations after errors are only sampled.",
     ["include/lexy/dsl/scan.hpp", "include/lexy/action/scan.hpp"],
     [("_detail::scanner", "include/lexy/dsl/scan.hpp")], ["lexy::scan", "dsl::scan"],
     [("scanner state", "normal / failed / recovery", "include/lexy/dsl/scan.hpp")])

prop("C26", "Callbacks and sinks deliver every value exactly once",
     "For every sequence of values, the standard callbacks and sinks (lists, collections, "
     "concatenation, strings, folds, aggregates, construction, binding, mapping, composition, "
     "counting, forwarding, constants) produce exactly the documented result: all values, in order, "
     "each moved or copied exactly once, with nothing lost or duplicated. Overload choice and "
     "placeholder binding select exactly the argument asked for.",
     ["histories", "inputs"], "every sequence of sink calls and arguments",
     "Tests use one or two calls per callback.",
     ["include/lexy/callback/" + x for x in ("container.hpp", "string.hpp", "fold.hpp",
      "aggregate.hpp", "object.hpp", "bind.hpp", "composition.hpp", "adapter.hpp", "integer.hpp",
      "bit_cast.hpp", "constant.hpp", "forward.hpp", "noop.hpp")],
     [("sink types", "include/lexy/callback/container.hpp")], ["lexy::as_list", "lexy::bind"])

prop("C27", "Binary rules read exactly the bytes and bits described",
     "For every byte sequence, fixed byte counts, byte-class constraints, padding, big and little "
     "endian integers, byte order marks and bit patterns accept exactly the inputs they describe, "
     "consume exactly that many bytes, and yield exactly the denoted value. On a mismatch the "
     "documented error is reported at the exact byte.",
     ["programs", "inputs"], "every byte sequence and bit pattern rule",
     "Tests check few byte values.",
     [D + "byte.hpp", D + "bits.hpp", D + "bom.hpp"],
     [("bint, padding_bytes", D + "byte.hpp"), ("bits", D + "bits.hpp")], ["lexy::parse"])

prop("C28", "Identifiers and reserved words are told apart exactly",
     "For every identifier definition and reservation (exact, prefix, containing, suffix, "
     "case-folded, keyword) and every input, an identifier is the longest run of identifier "
     "characters and is accepted iff it is not reserved; symbol lookup yields the mapped value iff "
     "the whole identifier is in the table. As a branch a reserved identifier is not taken; as a "
     "rule it is reported, with its exact range, and parsing continues.",
     ["programs", "inputs"], "every reservation set, every identifier",
     "Overlaps between reservations and identifiers are combinatorial.",
     [D + "identifier.hpp", D + "symbol.hpp", D + "case_folding.hpp"],
     [("_id, _kw", D + "identifier.hpp"), ("symbol_table", D + "symbol.hpp")], ["lexy::parse"])

prop("C29", "Tree queries and token-stream parsing see the real tree",
     "For every parse tree, finding, children-filtering and traversal algorithms return exactly the "
     "nodes they describe, in order. Parsing a tree (or a production node of it) as input sees exactly "
     "its child nodes, in order; entering a node with tnode/pnode sees exactly the text of that token or "
     "the children of that production, requires all of it to be consumed, and continues behind it; all "
     "positions, values, whitespace and errors are those of the underlying text.",
     ["inputs", "histories"], "every tree shape and query",
     "Tests use one or two trees.",
     ["include/lexy_ext/parse_tree_algorithm.hpp", "include/lexy/input/parse_tree_input.hpp",
      D + "parse_tree_node.hpp"],
     [("tree iteration", "include/lexy_ext/parse_tree_algorithm.hpp"), ("parse tree reader",
      "include/lexy/input/parse_tree_input.hpp")], ["lexy_ext::child", "lexy::parse_tree_input"])

prop("C30", "The interactive shell delivers exactly the typed text",
     "For every sequence of typed lines and every pattern of continuation requests, an input read "
     "from the shell contains exactly the typed characters, in order, with newlines included, across "
     "buffer growth and backtracking, and ends exactly at end of input. Lexemes taken earlier stay "
     "valid while the input is alive.",
     ["histories", "inputs"], "every line length, continuation pattern and read pattern",
     "Line lengths around the internal capacity and continuation are not covered by tests.",
     ["include/lexy_ext/shell.hpp"], [("shell input, reader", "include/lexy_ext/shell.hpp")],
     ["lexy_ext::shell"])

prop("C31", "Subgrammars, side effects, members and nested parsing compose",
     "For every grammar and every input, a subgrammar parses exactly as a top-level parse of its entry "
     "production at that position would (same consumption, errors, value and tree children), sees none of "
     "the surrounding whitespace rules and context variables and leaves them intact, under every action it "
     "is instantiated for. A side-effect rule invokes its function exactly once each time the parser reaches "
     "it, in input order, and under every action. A member rule and parse_as change nothing but the values: "
     "the former adds the tag of exactly its member, the latter always yields its type, constructed exactly "
     "once from exactly the values of its rule, under every action; a parse state is seen by all of them.",
     ["programs", "inputs"], "every composition of these rules with others, every input and action",
     "Tests run each of these rules alone, on one or two inputs, mostly under one test action.",
     [D + "subgrammar.hpp", D + "effect.hpp", D + "member.hpp", D + "parse_as.hpp", "include/lexy/action/base.hpp"],
     [("_subg", D + "subgrammar.hpp"), ("_eff", D + "effect.hpp"), ("_mem", D + "member.hpp"), ("_pas", D + "parse_as.hpp")],
     ["lexy::match", "lexy::validate", "lexy::parse", "lexy::parse_as_tree", "lexy::trace"])

prop("C32", "Parses do not influence each other",
     "What a parse does (its result, values, errors in order, parse tree, trace, rendered diagnostics) depends only "
     "on its grammar, its input, its parse state and the callbacks given to it. Any number of parses - of the same or of different grammars, "
     "one after another on the same memory, one inside a callback of another, or interleaved at arbitrary points "
     "as threads would, even reading the same input - each give exactly the result they give when run alone. The same "
     "holds for input locations, visualization, parse tree queries and converting raw input.",
     ["schedules", "operation sequences"], "every interleaving and every order of the operations",
     "Tests run one parse at a time, on a fresh input; no test interleaves two.",
     ["include/lexy/action/base.hpp", "include/lexy/action/parse.hpp", "include/lexy/parse_tree.hpp", "include/lexy/input_location.hpp",
      "include/lexy/visualize.hpp", "include/lexy/input/buffer.hpp", "include/lexy_ext/report_error.hpp"],
     [("do_action", "include/lexy/action/base.hpp"), ("parse_action", "include/lexy/action/parse.hpp"), ("pt_buffer", "include/lexy/parse_tree.hpp"),
      ("get_input_location", "include/lexy/input_location.hpp"), ("write_format", "include/lexy/visualize.hpp"),
      ("write_error", "include/lexy_ext/report_error.hpp")],
     ["lexy::match", "lexy::validate", "lexy::parse", "lexy::parse_as_tree", "lexy::trace", "lexy::scan", "lexy_ext::report_error"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
