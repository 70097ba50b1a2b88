"""Level notes per claimed property; reasons for the ones not claimed (texts of MANIFEST.json)."""
CORE = 'Trusts Verus/Z3, the extraction (vx), the assumed contracts on std (str, slice, Vec, BTreeMap). '
NOTE = {
 'C01': CORE + 'Proved for all inputs, positions and parameters for every terminal node except the Unicode property tables.',
 'C02': CORE + 'Proved: every public operation of Position and Span keeps offsets valid and cannot panic or overflow under its documented precondition.',
 'C03': CORE + 'Proved for all inputs and positions.',
 'C04': CORE + 'Proved for all inputs, spans and ranges.',
 'C07': CORE + 'Proved for every inner expression satisfying the node contract, i.e. all expressions by induction over the nodes.',
 'C09': CORE + 'Proved for all stacks and slice bounds.',
 'C11': CORE + 'Proved for every expression satisfying the node contract.',
 'C14': CORE + 'Proved: each tracker operation equals its specification on the abstract tracker state; each node under contract leaves polarity and enclosing rules alone.',
 'C05': CORE + 'Proved for every element and trivia type satisfying the node contract, arities 2 to 16 (sequences) and 2 to 16 (choices).',
 'C06': CORE + 'Proved for every element and trivia type satisfying the node contract and every bound, by a loop invariant.',
 'C08': CORE + 'Proved for every node by its own contract (snapshots taken are released, the stack after a failed alternative is the one before it).',
 'C10': CORE + 'Proved: both modes of every node satisfy one and the same postcondition on end, stack and tracker; the error is a function of the tracker (trusted: Tracker::collect).',
 'C12': CORE + 'Proved for every core node: the value built satisfies node_ok, which determines it from the match.',
 'C13': CORE + 'Proved for the pair containers of core (optional, repetition, push, leaf, sequences and choices of every arity), the provided methods of the traits, and Pair::convert.',

 'C15': CORE + 'Proved: unescape returns exactly the decoding of the body for every string, and None exactly on a malformed escape. The functions that read string, insensitive, raw and character literals from their pairs yield that decoding of the text between the delimiters, and fail only on a malformed escape. What text the parser of the pest crate of grammar.pest puts in a pair is assumed (predicate shaped) and covered by the bounded harness.',
 'C16': CORE + 'Proved for every expression tree: replace gives the substitution and reports a change exactly when the name occurs. Inlining of calls into the generated types is covered by the bounded harness only.',
 'C17': CORE + 'Proved for all nestings: the list has the operands (alternatives) of the nested expression in order, each with the trivia written before it, and leaves none of a right-nested chain unflattened. That the generated types name exactly this list (quoted code) is covered by the bounded harness only.',
 'C18': CORE + 'Proved for all sets of rules: every closed walk of references between rules leaves the set of rules recorded as needing no box, and a rule is left unboxed only if recorded. Sets and maps of names are modelled; that the quoted code boxes the content of such a rule is covered by the bounded harness only.',
 'C19': CORE + 'Proved for all inputs, positions, spans, formatters and writers: the sequence of texts written and formatted equals the picture the property describes. Formatting of text and numbers, columns of a text (unicode-width) and iterator adaptors are modelled; the default formatters (plain text) are covered by the bounded harness only.',
 'C20': CORE + 'Proved for all expressions and rules in scope: the node type written for an expression is the one that stands for it (operators with operands and trivia in order, bounds, literals, slices, rule and module paths, arguments), literals are registered under their own name, built-in names come before those of the grammar. What each node type matches is C01 and C05 to C09. From the pairs of a grammar rule on, parse_rule and all it calls yield the comments, name, parameters, silence and expression that the pairs say: prefixes, postfixes nearest first, bounds, arguments, and infix operators by their binding, over a trusted model of pest::Pair, Pairs and PrattParser and of the shape of the pairs grammar.pest gives. Token streams (quote), sets and maps are modelled; the pest parser of grammar.pest itself, the struct written for a rule, the rules module and make_global are covered by the bounded harnesses only.',
 'C21': CORE + 'Proved: the path of an imported file is the directory of the grammar file followed by the components, for every root and module path (file paths modelled as sequences of components, their operations assumed); the path components and the explicit file name are read from their pairs as written (parse_path_raw, string_content); and reading a grammar (_parse, parse) yields its rules, comments and imports in order, each import, found in the cache or not, holding the grammar of the file that its path or explicit name says, under its alias or last component, or being built-in. Assumed: the file system (a function from paths to texts), the pest parser of grammar.pest as a function of the text, the shape of the pairs of an import (call arguments in its path panic), the cache as a map. Only the result is proved: a cyclic import does not return, and a malformed imported grammar panics. Which module a path in the generated parser names is covered by the bounded harness only.',
}
NA = {}
TODO = 'contracts not written yet'
for i in range(1, 22):
    NA.setdefault('C%02d' % i, TODO)
