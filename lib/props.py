"""Which contracts decide which property, and which bounded replay goes with it."""
import re

def streams(*names):
    return {'str_stream': set(names)}

HAND = ('choice', 'repeat', 'predicate', 'values', 'action', 'recursion', 'span', 'class', 'utf', 'typed', 'names', 'wide')
FEW = ('r003', 'r011', 'r019', 'r031', 'r052', 'r069', 'r084', 'r092', 'r109', 'r131', 's000', 's003', 's012', 's025', 's038', 's051')

def programs(pid):
    """the grammars whose generated parsers are proved, and the obligations that are about the property"""
    import gen, corpus
    def want(name):
        e = gengram_entry(name)
        def has(lab, clause=None):
            m = re.match(r'(recognize|parse)_(\w+)$', lab)
            if m is None:
                return lab.startswith('ParseState') and pid in ('C19', 'C20', 'C21')
            if not gen.relevant(pid, e, m.group(2), m.group(1) == 'parse'):
                return False
            tag = re.findall(r'\[(accepted|farthest|value)\]', clause or '')
            return not tag or any(t in TAGS.get(pid, tag) for t in tag)
        return has
    def units(tier):
        names = list(HAND) + (list(FEW) if tier == 'quick' else [n for n in entry_names() if n not in HAND])
        names = [n for n in names if any(gen.relevant(pid, gengram_entry(n), r, p) for r, _ in gengram_entry(n).g.rules for p in (False, True))]
        return dict({'gengram:' + n: want(n) for n in names}, **({'compilers': COMPILERS[pid]} if pid in COMPILERS else {}))
    return units

# the compilers of the expressions, for every grammar: what is particular to an operator of values goes with its property
ACTION, SPAN = {'SemanticActionCompiler::compile_expr', 'SemanticActionCompiler::parser'}, {'SpannedExprCompiler::compile_expr', 'SpannedExprCompiler::parser', 'Context::push_mark', 'Context::pop_mark', 'Context::next_free_var_skip'}
every = lambda lab, clause=None: lab not in ACTION | SPAN
COMPILERS = {'C19': every, 'C20': every, 'C21': every, 'C22': lambda lab, clause=None: lab in ACTION, 'C24': lambda lab, clause=None: lab in SPAN}

TAGS = {'C19': ('accepted',), 'C20': ('accepted', 'value'), 'C21': ('farthest',), 'C22': ('accepted', 'value'), 'C24': ('accepted', 'value'), 'C10': ('accepted', 'value', 'farthest')}
_entries = {}
def entry_names():
    gengram_entry(HAND[0])
    return list(_entries)

def gengram_entry(name):
    import corpus
    if not _entries:
        for f in corpus.FILES:
            for e in corpus.load(f):
                _entries[e.name] = e
    return _entries[name]

class P:
    def __init__(self, units=None, replay=None, level='proof', trusted=(), note=''):
        self.units = units or {}
        self.replay = replay
        self.level = level
        self.trusted = list(trusted)
        self.note = note
    def canaries(self, unit, tier):
        # random grammars have branches that can never be reached (after one that always fails): no canary there
        return not re.match(r'gengram:[rs]\d', unit)

S = 'StrStream::'
M = 'FileMapStream::'
PS = 'ParseState::'
PE = 'ParseExpectation::'

COMMON = ['Verus 0.2026.09.13 and its Z3', 'the extraction of lib/vx.py (what it drops is listed in assumptions)']
UTF8 = ['vstd: specifications of str::chars, str::len, str::as_bytes, str::is_char_boundary, char::len_utf8 and of UTF-8']

PROPS = {
    'C01': P({'str_stream': {S + n for n in ('new', 'current_char', 'next', 'consume_prefix', 'has_next', 'clone')} | {'str::stream', 'String::stream'},
              'file_map': {M + n for n in ('new', 'next', 'consume_prefix', 'has_next', 'clone')}}, ('runtime', 'C01'), trusted=COMMON + UTF8),
    'C02': P({'str_stream': {S + n for n in ('assert_same_raw_data', 'eq', 'partial_cmp', 'cmp', 'next', 'consume_prefix')},
              'file_map': {M + n for n in ('eq', 'partial_cmp', 'cmp')}}, ('runtime', 'C02'), trusted=COMMON + UTF8),
    'C03': P({'str_stream': {S + n for n in ('line_column', 'location', 'next', 'consume_prefix')},
              'file_map': {M + 'location'}}, ('runtime', 'C03'), trusted=COMMON + UTF8),
    'C04': P({'str_stream': {S + n for n in ('code_snippet',)},
              'file_map': {M + 'code_snippet'}}, ('runtime', 'C04'), trusted=COMMON + UTF8),
    'C05': P({'parse_state': {PS + n for n in ('new', 'error', 'success', 'failure', 'restore', 'restore_from_failure', 'extract_data', 'discard_data', 'next', 'consume_prefix')}},
             ('runtime', 'C05'), trusted=COMMON),
    'C06': P({'parse_state': {PS + n for n in ('new', 'is_failed', 'is_successful', 'error', 'success', 'failure', 'mark', 'restore', 'restore_from_failure', 'extract_data', 'unwrap_data', 'discard_data', 'next', 'consume_prefix')}},
             ('runtime', 'C06'), trusted=COMMON),
    'C07': P({'parse_state': {PS + 'into_result', PE + 'new'}}, ('runtime', 'C07'), trusted=COMMON),
    'C08': P({'parse_state': {PE + 'new', PE + 'expected_items', PE + 'fmt', 'ParseResult::fmt', PS + 'into_result'}}, ('runtime', 'C08'), trusted=COMMON + UTF8),
    'C09': P({'str_stream': {'make_span', 'Range::stream_span', S + 'bytes_offset'},
              'file_map': {M + 'new', M + 'register_lines', M + 'abs_pos', 'Range::stream_span'}}, ('runtime', 'C09'), trusted=COMMON + UTF8),
}

GEN = ['lib/peg.py: the typed syntax tree and the meaning of a grammar, written from the documentation', 'contracts/gengram.py: Stream<\'a> by its contract (C01, C02)']
for _pid in ('C19', 'C20', 'C21', 'C22', 'C24'):
    PROPS[_pid] = P(programs(_pid), ('gen', _pid), level='translation_validation', trusted=COMMON + GEN)

MID = ['lib/mid.py: what the analysis must answer, written from the documentation', 'contracts/astlib.py: proc_macro2/syn values by their text']
def passes(pid):
    """the obligations of the passes put together that are about the property"""
    def has(lab, clause=None):
        tags = re.findall(r'C\d\d', ' '.join(re.findall(r'\[(C\d\d(?: C\d\d)*)\]', clause or '')))
        return pid in tags if tags else (pid == 'C12' or clause is None)
    return has
PROPS['C12'] = P({'duplicate': None, 'pipeline': passes('C12')}, ('mid', 'C12'), trusted=COMMON + MID)
PROPS['C13'] = P({'resolve': None, 'pipeline': passes('C13')}, ('mid', 'C13'), trusted=COMMON + MID)
PROPS['C14'] = P({'wellformed': None, 'pipeline': passes('C14')}, ('mid', 'C14'), trusted=COMMON + MID + ['contracts/astlib.py (PEG): what an expression recognizes, with fuel'])
PROPS['C16'] = P({'chaining': None, 'pipeline': passes('C16')}, ('mid', 'C16'), trusted=COMMON + MID + ['contracts/astlib.py (PEG): what an expression recognizes, with fuel'])
TS = {'IType::syntactic_eq', 'Type::syntactic_eq', 'TypeRewriting::reduce_sum', 'IType::is_unit_kind', 'RecSet::is_polymorphic', 'RecSet::union', 'RecSet::empty'}
BRANCHES = {'Surface::visit_choice', 'Surface::type_mismatch_branches', 'Surface::walk_exprs'}
PROPS['C17'] = P({'ityping': lambda lab, clause=None: lab not in TS or lab.startswith('RecSet'), 'surface': None, 'pipeline': passes('C17')}, ('mid', 'C17'), trusted=COMMON + MID)
PROPS['C18'] = P({'ityping': lambda lab, clause=None: lab in TS, 'surface': BRANCHES}, ('mid', 'C18'), trusted=COMMON + MID)
PROPS['C23'] = P({'names': None}, ('hygiene', 'C23'), trusted=COMMON + ['contracts/names.py: format_ident! gives the identifier with the text of its format'])
CLS = {'FGrammar::parse_char_range', 'FGrammar::parse_set_of_char_range', 'FGrammar::parse_char_class', 'CharacterInterval::new', 'CharacterClassExpr::new'}
SYN = ['contracts/front.py: syn as a buffer of tokens with a cursor; what a Rust path, type, item or attribute is, is syn\'s']
def class_units(tier):
    return dict({'front': lambda lab, clause=None: lab in CLS, 'charclass': lambda lab, clause=None: True}, **programs('C10')(tier))
PROPS['C10'] = P(class_units, ('both', [('gen', 'C10'), ('mid', 'C10')]), trusted=COMMON + SYN + GEN)
PROPS['C11'] = P({'front': lambda lab, clause=None: lab not in CLS}, ('mid', 'C11'), trusted=COMMON + SYN)
