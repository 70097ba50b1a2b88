"""Verification units and, per property, the functions whose contracts state it.

A unit is one run of the verifier: the functions of the contract files in `verify` are checked, those
of the files in `assume` enter with their contracts only (each is checked by its own unit)."""
import re

BASE = ['00', '10', '20', '21', '30', '35', '40', '41']
UNITS = {
    'base': dict(assume=[], verify=BASE),
    'stack': dict(assume=[], verify=['00', '42'], src=['pest']),
    'node': dict(assume=BASE, verify=['50']),
    'terminals': dict(assume=BASE + ['50'], verify=['51']),
    'stackops': dict(assume=BASE + ['50'], verify=['52']),
    'rep': dict(assume=BASE + ['50'], verify=['53', '55']),
    'rules': dict(assume=BASE + ['50', '51', '53', '53a'], verify=['56', '57'], src=['core', 'rules']),
    'rule_pairs': dict(assume=BASE + ['60'], verify=['56', '62'], src=['core', 'rules']),
    'pairs': dict(assume=BASE, verify=['60', '60t']),
    'unescape': dict(assume=[], verify=['00', '70'], src=['meta']),
    'flatten': dict(assume=[], verify=['00', '71a', '74'], src=['meta', 'generator']),
    'modules': dict(assume=[], verify=['00', '71', '71a', '77', '78'], src=['meta', 'generator']),
    'types': dict(assume=['00', '71', '71a', '74', '77', '78'], verify=['79'], src=['meta', 'generator']),
    'reach': dict(assume=[], verify=['00', '71', '71a', '75'], src=['meta', 'generator']),
    'format': dict(assume=BASE, verify=['76']),
    'imports': dict(assume=['00', '70', '71', '71a', '81'], verify=['82'], src=['meta']),
    'reader': dict(assume=['00', '70', '71', '71a'], verify=['81'], src=['meta']),
    'paths': dict(assume=[], verify=['00', '71', '73'], src=['meta']),
    'replace': dict(assume=[], verify=['00', '71', '71a', '72'], src=['meta']),
    'pairs_n': dict(assume=BASE + ['60'], verify=['61']),
    **{'seq_' + x: dict(assume=BASE + ['50'], verify=['53', '53' + x]) for x in 'abcdef'},
    **{'choice_' + x: dict(assume=BASE + ['50'], verify=['54', '54' + x]) for x in 'abc'},
}

# crates that units are extracted from: name -> package
PACKAGES = {'core': 'pest3_core', 'pest': 'pest', 'rules': 'rules', 'meta': 'pest3_meta', 'generator': 'pest3_generator'}
def sources(units): return sorted({n for u in units for n in UNITS[u].get('src', ['core'])})

POS_FNS = ['Position::.*', '<Position as .*>::.*', 'VxPos.*']
MATCH_FNS = ['Position::(skip|match_.*|at_start|at_end|next_char)']
NODE = lambda *names: ['<(%s) as (TypedNode|NeverFailedTypedNode|From)>::.*' % '|'.join(names)]
TERMS = NODE('Str', 'Insens', 'SkipChar', 'CharRange', 'Char', 'any', 'NONE', 'Empty', 'newline', 'soi', 'eoi')
STACKOPS = NODE('peek_all', 'peek', 'drop', 'pop', 'pop_all', 'PeekSlice2', 'PeekSlice1', 'push') + ['constrain_idx', 'constrain_idxs', 'peek_spans', 'stack_slice']
SEQS = NODE('Sequence\\d+') + ['Sequence\\d+::.*']
CHOICES = NODE('Choice\\d+') + ['Choice\\d+::.*']
SEQ_UNITS, CHOICE_UNITS = ['seq_' + x for x in 'abcdef'], ['choice_' + x for x in 'abc']
PREDS = NODE('Positive', 'Negative', 'Option')
ENTRY = ['TypedNode::(try_parse_with|check_with|try_parse_partial|try_parse|check_partial|check)', 'TypedParser::.*']

ARITY_UNITS = SEQ_UNITS + CHOICE_UNITS
NODE_UNITS = ['node', 'terminals', 'stackops', 'rep', 'rules'] + ARITY_UNITS
REPS = NODE('RepMinMax', 'Phantom')
PARSE = [r'<.* as (TypedNode|NeverFailedTypedNode)>::(try_parse_with_partial|check_with_partial|parse_with_partial)']
STACKOP_TYPES = NODE('peek_all', 'peek', 'drop', 'pop', 'pop_all', 'PeekSlice2', 'PeekSlice1', 'push')
LANG = ('lang', 'stack', 'valid')

# property -> units, roots (a failed obligation there is a violation), deps (contracts relied on: a failed
# obligation there is a violation only with a failing input for this property).
# `clauses`: only obligations of these parts of the node contract count (and, unless `strict`, those that
# belong to no part in particular: preconditions, overflow, helper contracts).
PROPS = {
    'C01': dict(units=['base', 'node', 'terminals'], roots=MATCH_FNS + TERMS, clauses=LANG),
    'C02': dict(units=['base'] + NODE_UNITS, roots=POS_FNS + ['Span::.*', 'merge_spans', '<(Lines|LinesSpan|Span) as .*>::.*'], also=PARSE, clauses=('valid',), strict=True),
    'C03': dict(units=['base'], roots=['Position::(line_col|line_of|find_line_start|find_line_end)']),
    'C04': dict(units=['base'], roots=['Span::.*', 'Position::span', 'merge_spans', '<(Lines|LinesSpan|Span|Position) as .*>::.*']),
    'C05': dict(units=ARITY_UNITS, roots=SEQS + CHOICES, clauses=LANG),
    'C06': dict(units=['rep'], roots=REPS, clauses=LANG),
    'C07': dict(units=['node', 'stackops'], roots=PREDS, clauses=LANG),
    'C08': dict(units=['stack'] + NODE_UNITS, roots=['Stack::.*'], also=PARSE, clauses=('snaps', 'stack')),
    'C09': dict(units=['stack', 'stackops'], roots=STACKOPS + ['Stack::.*'], clauses=LANG),
    'C10': dict(units=NODE_UNITS, also=PARSE + ENTRY, clauses=('lang', 'stack', 'trk'), pairwise=True),
    'C11': dict(units=['node'], roots=ENTRY, clauses=LANG),
    'C12': dict(units=NODE_UNITS, roots=['Sequence\\d+::.*', 'Choice\\d+::.*'], also=PARSE, clauses=('node_ok',)),
    'C13': dict(units=['pairs', 'pairs_n', 'rule_pairs'], roots=['.*']),
    'C15': dict(units=['unescape', 'reader'], roots=['unescape.*', 'parse_string', 'string_content', 'parse_insensitive_string', 'parse_raw_string', 'parse_char_range']),
    'C19': dict(units=['base', 'format'], roots=['FormatOption::.*', 'Partition2?::.*', 'visualize_ws_and_cntrl', 'lines_of', '(Span|Position)::display', '(Span|Position)::(lines|lines_span)']),
    'C20': dict(units=['flatten', 'modules', 'types', 'reader', 'imports'], roots=['parse_.*', '_parse', 'parse', 'skip', 'pair_to', 'process_expr', 'get_trivia', 'embed_trivia', 'ProcessedPathArgs::process', 'RuleRef::new', 'Tracker::(record_seq|record_choice|insert_string_wrapper)', 'ModuleError::check_argc', 'RuleGenerics::call', 'Module(Node|System)::.*', 'pest|_str|option_type|generics|constant_wrappers']),
    'C21': dict(units=['paths', 'reader', 'imports'], roots=['mod_path_to_fs_path.*', '_parse', 'parse', 'parse_path_raw', 'string_content']),
    'C17': dict(units=['flatten'], roots=['collect_sequence.*', 'collect_choices.*']),
    'C18': dict(units=['reach'], roots=['collect_(used_rule|trivia|reachability).*', 'RuleInfo::new']),
    'C16': dict(units=['replace'], roots=['ParseExpr::replace.*']),
    'C14': dict(units=['base'] + NODE_UNITS, roots=['Tracker::.*', 'SpecialError::.*', 'constrain_idxs?', 'peek_spans', 'stack_slice'], also=PARSE + ENTRY, clauses=('trk', 'frame')),
}

def matches(pats, fid):
    return any(re.fullmatch(p, fid) for p in pats)

def role(P, x):
    """what a failed obligation means for the property: root (a violation) or dep"""
    fn, cl, want = x['fn'], x.get('clause'), P.get('clauses')
    if not fn: return 'dep'
    if cl == 'content' and not P.get('strict'): cl = None
    if matches(P.get('roots', []), fn) and (want is None or cl is None or cl in want): return 'root'
    if matches(P.get('also', []), fn) and cl is not None and cl in want: return 'root'
    return 'dep'

def roles(P, failed):
    for x in failed: x['role'] = role(P, x)
    if P.get('pairwise'):
        # parsing and checking have the same contract: both off it is no disagreement in itself
        def other(fn):
            a, b = fn.rsplit('::', 1)
            return a + '::' + (b.replace('try_parse', 'check') if 'parse' in b else b.replace('check', 'try_parse'))
        bad = {(x['fn'], x['clause']) for x in failed if x['role'] == 'root'}
        for x in failed:
            if x['role'] == 'root' and (other(x['fn']), x['clause']) in bad: x['role'] = 'dep'
    return failed
