#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=False):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
T="core/src/typed/template/mod.rs"; POS="core/src/position.rs"; SP="core/src/span.rs"; TR="core/src/typed/traits.rs"; TK="core/src/typed/tracker.rs"
REP="core/src/typed/template/repetition.rs"; SEQ="core/src/sequence.rs"; CH="core/src/choice.rs"; UNI="core/src/typed/unicode.rs"
p("C01","Terminals match exactly their language and consume exactly what they matched",
 "At every position of every input, a terminal (exact string, ASCII-case-insensitive string, single character, inclusive character range, any character, fixed-length skip, start of input, end of input, newline, Unicode-property class, nothing, empty) succeeds exactly when the remaining text starts with a member of its language. On success the cursor advances by exactly the text matched (newline prefers CRLF over a lone LF or CR), and the match stack is not touched.",
 ["inputs"],"all UTF-8 inputs, all character-boundary positions in them, all terminal parameters (strings, characters, bounds, counts)",
 "Tests try a handful of ASCII strings and a few Unicode ones per terminal; they cannot cover every string/position/parameter combination, in particular multi-byte characters, matches that end at the end of input, and near misses.",
 [POS,T,UNI,"core/src/lib.rs"],[("string, insensitive, range, skip and char matching on a cursor","core/src/position.rs match_*/skip/next_char"),("terminal nodes",T),("Unicode property nodes","core/src/lib.rs unicode!, core/src/typed/unicode.rs")],
 ["result and cursor of parsing/checking each terminal node"])
p("C02","Positions and spans always stay valid, and no operation on them panics",
 "Every position or span that is constructed or produced by parsing lies on character boundaries of its input, with start not after end; the checked constructors accept exactly the offsets for which this is true. A parse never moves the cursor backwards or to another input, and no cursor, span or matching operation panics or overflows for any input, offset or range, other than the documented panic when a span is requested between positions of different inputs or in reverse order.",
 ["inputs"],"all UTF-8 inputs, all byte offsets and ranges including the extreme values of the offset type, all positions",
 "A missed boundary case is a panic (or an invalid slice) on one unusual input; tests only sample positions in a few short strings and never the extreme offsets.",
 [POS,SP,T],[("checked and unchecked constructors","core/src/position.rs Position::new/new_unchecked, core/src/span.rs Span::new/new_unchecked/get"),("cursor movement","core/src/position.rs")],
 ["offsets returned by every position/span accessor","absence of panics"],[("position offset","byte offset on a character boundary","core/src/position.rs"),("span start/end","ordered byte offsets on character boundaries","core/src/span.rs")])
p("C03","Line and column numbers and line text are exact",
 "For every position, the line number is one plus the number of line feeds before it and the column is one plus the number of characters since the last line feed before it. The line text of a position is exactly the text from just after the previous line feed (or the start of input) up to and including the next line feed at or after it (or the end of input).",
 ["inputs"],"all UTF-8 inputs and all character-boundary positions, including CR, LF, CRLF and multi-byte mixtures, first/last line and end of input",
 "The tests check about a dozen positions in two fixed strings; line/column arithmetic goes wrong only for particular mixtures of CR/LF, multi-byte characters and boundary positions.",
 [POS],[("line/column loop","core/src/position.rs line_col"),("line boundaries","core/src/position.rs find_line_start/find_line_end/line_of")],["line_col() and line_of() of a position"])
p("C04","Span operations compute exactly the text ranges they name",
 "A span's text is exactly the slice of the input between its offsets; a sub-range of a span is accepted exactly when it names a valid slice of the span's text and then denotes that slice; splitting returns the two end positions. Merging two spans of one input succeeds exactly when they overlap or touch and yields their union hull, and iterating lines yields, in order and each exactly once, the whole lines that the span covers or touches.",
 ["inputs"],"all inputs, all valid spans, all range kinds (bounded, half-open, inclusive, unbounded, extreme bounds), all pairs of spans of one input",
 "Tests use fixed spans of short ASCII strings; off-by-one errors at range ends, empty spans, adjacent spans and lines ending at the span end are only reached by particular combinations.",
 [SP],[("sub-range","core/src/span.rs Span::get"),("merge","core/src/span.rs merge_spans"),("lines","core/src/span.rs LinesSpan::next, Lines::next")],["returned spans, positions, strings and line iterators"])
p("C05","Sequences and ordered choices follow PEG semantics",
 "A sequence succeeds exactly when its elements match one after another from left to right with its trivia matched between each two adjacent elements and nowhere else, and ends where the last element ends. An ordered choice behaves as its first alternative that matches at that position; earlier failed alternatives leave no effect on the cursor or the match stack, and it fails exactly when all alternatives fail.",
 ["inputs","programs"],"all inputs, positions and stacks; all element, trivia and alternative parsers (arbitrary expressions), every arity from 2 up",
 "Tests fix a few grammars with terminals; they cannot quantify over arbitrary sub-expressions, over each arity, or over sub-expressions that fail after changing the stack.",
 [SEQ,CH],[("sequence types","core/src/sequence.rs sequence_type!"),("choice types","core/src/choice.rs choice_type!")],["result, cursor and stack after parsing/checking a sequence or choice"],[("match stack","spans pushed so far","pest Stack passed through every node")])
p("C06","Repetition is greedy, bounded, and separated by trivia",
 "A repetition with bounds min and max matches its expression as often as possible up to max, with trivia matched before every repetition but the first, and succeeds exactly when at least min repetitions matched (given min not above max). It ends where the last complete repetition ended: a repetition (or trivia) that starts but does not complete consumes nothing and leaves the match stack as it was after the last complete one.",
 ["inputs","programs"],"all inputs, positions and stacks; all element and trivia expressions; all min and max",
 "Tests use a few bounds over one terminal; the quantifier over bounds, over partially matching last repetitions, over stack-changing elements and over trailing trivia is not reached.",
 [REP],[("repetition node","core/src/typed/template/repetition.rs RepMinMax"),("stack recovery",T+" restore_on_none")],["result, cursor, stack and number of matched items"])
p("C07","Predicates and optionals never consume input or disturb the stack",
 "A positive lookahead succeeds exactly when its expression matches and a negative lookahead exactly when it does not, and either way both cursor and match stack are afterwards exactly as before. An optional always succeeds: it behaves as its expression when that matches, and otherwise leaves cursor and match stack exactly as before.",
 ["inputs","programs"],"all inputs, positions, stacks, and all inner expressions including ones that push or pop before they succeed or fail, arbitrarily nested",
 "Tests only look at predicates over terminals at a few positions; a leak of stack changes needs an inner expression that modifies the stack and then succeeds (or fails), with older stack contents below it.",
 [T,TR],[("lookahead nodes",T+" Positive/Negative"),("optional node",TR+" impl TypedNode for Option")],["cursor and stack contents after the node"])
p("C08","Backtracking restores the match stack exactly and keeps snapshots balanced",
 "Whatever an expression does, every stack snapshot taken while it runs is released again when it returns, successfully or not, and snapshots that existed before are unaffected. When backtracking discards a partial match, the match stack holds exactly the spans it held when that match began, in the same order, even if spans below that point had been popped.",
 ["inputs","programs","histories"],"all sequences of push, pop, snapshot, clear and restore that any expression tree can perform on any input",
 "A wrong restore shows up only after a particular history (pop below a snapshot, nested snapshots, clear then restore) and then corrupts a later match; tests exercise three or four such histories.",
 [T,REP,CH,TR],[("recovery helper",T+" restore_on_none"),("alternatives",CH),("optional",TR),("snapshot stack","dependency pest::Stack")],["stack contents and outstanding snapshots after any node"],[("match stack and snapshots","current spans, saved contents","pest::Stack")])
p("C09","Stack expressions push, match and pop exactly the recorded spans",
 "A push records exactly the span its expression consumed; a peek or pop succeeds exactly when the stack is non-empty and the input continues with the text of the top span, pop removing that span; drop removes the top span or fails on an empty stack. Matching the whole stack consumes the texts of all spans from top to bottom (and pop-all then empties the stack), and a slice consumes the texts of the selected spans from bottom to top, negative indices counting from the top and out-of-range indices failing.",
 ["inputs","programs","histories"],"all inputs, positions and stack contents, all slice bounds including negative, reversed and extreme ones",
 "The tests use one- or two-element stacks and a few slice bounds; order, index arithmetic and the empty/reversed/out-of-range cases over every depth are not covered.",
 [T],[("push/peek/pop/drop nodes",T),("slice bounds",T+" constrain_idx/constrain_idxs/stack_slice/peek_spans")],["result, cursor and stack after each stack expression"])
p("C10","Checking and parsing always agree",
 "For every expression and input, checking succeeds exactly when parsing succeeds, ends at the same position, and leaves the match stack in the same state. When both fail they report the same error.",
 ["inputs","programs"],"all expressions built from the provided nodes and rules, all inputs, positions and initial stacks",
 "Each node implements the two modes in separate code; tests run both modes only on a few grammars and inputs, so a divergence in one node on one input class goes unnoticed.",
 [T,REP,SEQ,CH,TR],[("paired implementations","try_parse_with_partial / check_with_partial of every node"),("entry points",TR+" try_parse*/check*")],["result of both modes on the same input","rendered errors of both modes"])
p("C11","Whole-input entry points accept exactly complete matches",
 "Parsing or checking a whole input succeeds exactly when the expression matches from the start of the input and that match ends at its end. The prefix entry points succeed exactly when the expression matches some prefix starting at the start of the input and return where it ended, and all entry points start from an empty match stack.",
 ["inputs","programs"],"all expressions and all inputs, including empty input and inputs with trailing text",
 "Tests check acceptance for some inputs and rejection for fewer; they cannot show that trailing text is always rejected and a complete match never is.",
 [TR],[("entry points",TR+" TypedNode::try_parse/try_parse_partial/check/check_partial/try_parse_with/check_with"),("end of input node",T+" eoi")],["Ok/Err and end position of each entry point"])
p("C12","The typed tree faithfully records what was matched",
 "After a successful parse the tree describes that very match: a choice holds the alternative that was taken, a repetition holds its matched items in order, leaf nodes hold exactly the text or characters they consumed, and a rule node's span runs exactly from where the rule began to where it ended.",
 ["inputs","programs"],"all expressions, all inputs on which they succeed",
 "Tests compare trees for a few inputs; a wrong start offset, a swapped field or a stale span shows only for particular shapes and offsets.",
 [T,REP,SEQ,CH,TR],[("node construction","try_parse_with_partial of every node"),("rule nodes",TR+" full_rule_struct!")],["fields of the parsed tree"])
p("C13","The pair tree lists exactly the matched rules, in order and nested",
 "The children listed for a node are exactly the rule nodes found in its matched content, in match order and each exactly once, where rule nodes appear as one pair carrying their rule, their start and end offsets and their own children, and lookaheads and terminals contribute nothing. Converting a pair tree to another rule type maps every rule and changes nothing else.",
 ["inputs","programs"],"all trees of sequences, choices, repetitions, optionals, pushes and rules; all converters",
 "Tests print a few pair trees; dropping, duplicating or reordering children in one container or arity is not excluded by them.",
 [TR,"core/src/token/mod.rs",SEQ,CH,REP,T],[("pair containers","PairContainer/PairTree impls"),("conversion","core/src/token/mod.rs Pair::convert")],["pair tree of a parsed node"])
p("C14","Errors report the furthest failure with exactly the attempts made there",
 "The failure position kept while parsing only moves forward and is always a position of the input that some attempt was recorded at (initially the start). Attempts recorded before it are ignored, an attempt further on replaces all earlier ones, and a childless rule attempt is recorded, under the nearest enclosing rule that started elsewhere, exactly when its outcome contradicts the current lookahead polarity; polarity and enclosing-rule stack are always restored.",
 ["inputs","programs","histories"],"all sequences of nested rule attempts, lookaheads and special failures, at all positions",
 "Tests check four fixed histories of recordings; position comparisons, nesting, polarity and attribution interact in ways only particular histories reach.",
 [TK],[("position tracking",TK+" prepare"),("attempt recording",TK+" record/record_option_during_with/get_entry"),("polarity",TK+" during")],["tracker.finish() / rendered error"],[("furthest position, polarity, attempts, enclosing rules","failure bookkeeping",TK)])
M="meta/src/parser.rs"; G="generator/src/typed/generator.rs"
p("C15","Escapes in grammar literals denote exactly their characters",
 "Decoding the body of a string or character literal replaces each escape by exactly the character it names (simple escapes, two-digit hex up to 7F, braced Unicode with one to six digits) and keeps all other characters unchanged and in order; raw strings are taken verbatim. Malformed escapes and escapes naming no Unicode scalar value are rejected rather than altered or dropped.",
 ["inputs"],"all literal bodies, including non-ASCII text, adjacent escapes and malformed escapes",
 "Tests decode about ten literals; correctness for every code point, digit count and adjacency is outside their reach.",
 [M],[("unescape",M+" unescape")],["decoded literal in the parsed grammar"])
p("C16","Instantiating a parameterised rule replaces every use of the parameter",
 "Instantiating a rule parameter replaces every occurrence of that parameter in the rule body, wherever it appears (under repetitions, predicates, choices, sequences and in the arguments of every call), by the given expression, and changes nothing else. It reports a change exactly when at least one occurrence was replaced.",
 ["programs"],"all rule bodies, parameter names and argument expressions",
 "Tests use two or three small parameterised rules with one occurrence each.",
 [M],[("substitution",M+" ParseExpr::replace")],["grammar after instantiation / generated parser"])
p("C17","Flattening sequences and choices keeps order, operands and trivia",
 "When nested sequences or choices in a grammar are flattened to one n-ary node, the operands are the same in the same order, and the trivia kind recorded for each operand is the one written between it and its predecessor.",
 ["programs"],"all nested sequence/choice expressions over all operands and the three kinds of sequence operator",
 "Expected-output tests cover a few grammars; longer mixtures of operators and nesting are not covered.",
 [G,"generator/src/typed/module.rs"],[("collect_sequence/collect_choices",G)],["generated types for a rule"])
p("C18","Every recursive grammar yields a finite (boxed) type",
 "In the generated parser every cycle of rule references (references by name, those inside call arguments, and those through the trivia of an operator) passes through a rule whose content is boxed, so every grammar with recursive rules (other than rules the trivia themselves use, which are outside this property) gives types of finite size, and whether rules are boxed changes nothing else.",
 ["programs"],"all rule graphs",
 "Tests contain a few recursive grammars.",
 [G],[("reachability",G+" collect_reachability")],["generated code compiles"])
p("C19","Diagnostic display of positions and spans shows the right lines and markers",
 "Displaying a position prints its line, with its number, and a marker under the position; displaying a span prints the lines from that of its first to that of its last character (of more than three lines in between, the first and the last, with a row of dots between them), each with its number and with the part in the span handed to the span formatter, and markers at the columns where the span begins and ends. It never panics on a valid position or span and fails only if writing does.",
 ["inputs"],"all inputs, positions and spans",
 "Tests render a few fixed spans; line numbers, columns and omitted lines for every layout of line feeds, at the ends of the input and of lines, are not covered.",
 ["core/src/formatter.rs"],[("display_position/display_span","core/src/formatter.rs")],["Display output"])
p("C20","A derived parser recognises exactly the language its grammar describes",
 "For every valid grammar, the derived parser for each rule matches exactly what the PEG reading of the grammar text says (operator meaning, precedence, trivia operators, built-ins, imports), and produces pairs for exactly the non-silent rules.",
 ["programs","inputs"],"all grammars and all inputs",
 "Tests compile about ten grammars and run a few inputs through each.",
 [G,M,"derive/src/lib.rs"],[("code generation",G+" process_expr"),("grammar parsing",M+" parse_node")],["behaviour of derived parsers"])
p("C21","Rule paths to imported modules resolve to the files they name",
 "A module path in a grammar resolves to the file obtained by appending its components to the directory of the importing grammar, each parent component stepping one directory up; an import that gives a file name explicitly resolves to that file. The import makes available, under its alias or else the last component of its path, the grammar that file holds, whether or not another import has read the file before.",
 ["programs","configurations"],"all module paths and root directories",
 "Tests import a handful of modules in two directories.",
 [M],[("path mapping",M+" mod_path_to_fs_path"),("imports",M+" _parse, parse")],["files read while parsing a grammar"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
