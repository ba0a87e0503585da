"""Oak's grammar notation, typing rules and PEG meaning, written from the documentation (doc/, README) and the
property texts, independently of /repo's code: the oracle side of the checks on the compiler.

  parse(text)      -> Grammar (rules in order, functions)
  Grammar.typing() -> type of every node (documented typing rules)
  Grammar.run(rule, s, i) -> Result (accepted, position, farthest failures, value)
"""
import re

class GrammarError(Exception):
    pass

class N:
    """expression node"""
    __slots__ = ('k', 'a', 'c', 'ty', 'id')
    def __init__(self, k, a=None, c=()):
        self.k, self.a, self.c, self.ty, self.id = k, a, list(c), None, -1
    def __repr__(self):
        return show(self)

def walk(n):
    yield n
    for c in n.c:
        yield from walk(c)

TOK = re.compile(r'''\s+|//[^\n]*|(?P<str>"(?:\\.|[^"\\])*")|(?P<char>'(?:\\.|[^'\\])')|(?P<id>[A-Za-z_]\w*)|(?P<num>\d\w*)|(?P<p>\.\.\.|\.\.|::|->|=>|==|[-+*/&!?.:=()\[\]{}<>^,;'#|@$%~\\])|(?P<bad>.)''', re.S)

def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        i = m.end()
        if m.lastgroup:
            if m.lastgroup == 'bad':
                raise GrammarError('unexpected %r' % m.group())
            out.append((m.lastgroup, m.group(), m.start(), m.end()))
    return out

def unescape(lit):
    body = lit[1:-1]
    def r(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == '\n':
            return ''
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}[x]
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|\n\s*|.)', r, body, flags=re.S)

CLOSE = {'(': ')', '[': ']', '{': '}'}
ITEM = ('fn', 'use', 'pub', 'type', 'struct', 'enum', 'const', 'static', 'impl', 'mod', 'trait')

class Parser:
    def __init__(self, text):
        self.s = text
        self.t = tokens(text)
        self.i = 0
    def at(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ''
    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else ''
    def eat(self, x):
        if self.at() != x:
            raise GrammarError('expected %s, got %s' % (x, self.at()))
        self.i += 1
    def group(self):
        o = self.at()
        d = 0
        while True:
            x = self.at()
            if self.i >= len(self.t):
                raise GrammarError('unbalanced')
            self.i += 1
            if x in CLOSE:
                d += 1
            elif x in CLOSE.values():
                d -= 1
                if d == 0:
                    return
    def type_text(self):
        """a Rust type: path with generics, or a parenthesized type"""
        st = self.t[self.i][2]
        if self.at() == '(':
            self.group()
        else:
            while True:
                if self.kind() != 'id':
                    raise GrammarError('type expected')
                self.i += 1
                if self.at() == '<':
                    d = 0
                    while True:
                        if self.at() == '<':
                            d += 1
                        if self.at() == '>':
                            d -= 1
                        self.i += 1
                        if d == 0:
                            break
                if self.at() == '::':
                    self.i += 1
                    continue
                break
        return self.s[st:self.t[self.i - 1][3]]
    def ascription(self):
        """`: T` -> None | ('unit',) | ('inv',) | ('rust', text)"""
        if self.at() != ':':
            return None
        self.i += 1
        if self.at() == '(' and self.at(1) == ')':
            self.i += 2
            return ('unit',)
        if self.at() == '(' and self.at(1) == '^' and self.at(2) == ')':
            self.i += 3
            return ('inv',)
        return ('rust', norm(self.type_text()))
    def is_lhs(self):
        if self.kind() != 'id' or self.at() in ITEM:
            return False
        if self.at(1) == '=':
            return True
        if self.at(1) != ':':
            return False
        save = self.i
        try:
            self.i += 1
            self.ascription()
            r = self.at() == '='
        except GrammarError:
            r = False
        self.i = save
        return r
    def grammar(self):
        g = Grammar()
        g.text = self.s
        while self.i < len(self.t):
            if self.at() == '#':
                self.i += 1
                if self.at() == '!':
                    self.i += 1
                self.group()
                continue
            if self.is_lhs():
                name = self.at()
                self.i += 1
                ty = self.ascription()
                self.eat('=')
                e = self.choice()
                if ty:
                    e = N('ty', ty, [e])
                g.rules.append((name, e))
            else:
                st = self.i
                self.item(g)
                if self.i == st:
                    raise GrammarError('unexpected %s' % self.at())
        g.finish()
        return g
    def item(self, g):
        st = self.t[self.i][2]
        toks = []
        while True:
            x = self.at()
            if x == '':
                raise GrammarError('item not terminated')
            if x in CLOSE:
                a = self.i
                self.group()
                toks.append(x)
                if x == '{' and not (toks and toks[0] == 'use'):
                    break
                continue
            toks.append(x)
            self.i += 1
            if x == ';':
                break
        src = self.s[st:self.t[self.i - 1][3]]
        m = re.match(r'(?:pub\s+)?fn\s+(\w+)', src)
        if m:
            hd = src[:src.index('{')]
            r = re.search(r'\)\s*->\s*([^{]*?)\s*(?:where\b.*)?$', hd, re.S)
            g.fns.append((m.group(1), norm(r.group(1)) if r else None))
        g.items.append(src)
    def choice(self):
        b = [self.branch()]
        while self.at() == '/':
            self.i += 1
            b.append(self.branch())
        return b[0] if len(b) == 1 else N('choice', None, b)
    def branch(self):
        pre = None
        if self.at() in ('..', '...'):
            pre = self.at()
            self.i += 1
        e = self.seq()
        if pre == '..':
            e = N('span', None, [e])
        elif pre == '...':
            e = N('range', None, [N('ty', ('unit',), [e])])
        if self.at() == '>':
            self.i += 1
            boxed = False
            if self.at() == 'box':
                boxed = True
                self.i += 1
            p = self.path()
            e = N('action', (boxed, p), [e])
        return e
    def path(self):
        if self.kind() != 'id':
            raise GrammarError('path expected')
        p = self.at()
        self.i += 1
        while self.at() == '::':
            self.i += 1
            p += '::' + self.at()
            self.i += 1
        return p
    def seq(self):
        es = []
        while True:
            e = self.typed()
            if e is None:
                break
            es.append(e)
        if not es:
            raise GrammarError('expect at least one expression')
        return es[0] if len(es) == 1 else N('seq', None, es)
    def typed(self):
        e = self.prefixed()
        if e is None:
            return None
        t = self.ascription()
        return e if t is None else N('ty', t, [e])
    def prefixed(self):
        x = self.at()
        if x in ('!', '&'):
            self.i += 1
            e = self.suffixed()
            if e is None:
                raise GrammarError('predicate without expression')
            return N('not' if x == '!' else 'and', None, [e])
        return self.suffixed()
    def suffixed(self):
        e = self.atom()
        if e is None:
            return None
        k = {'*': 'star', '+': 'plus', '?': 'opt'}.get(self.at())
        if k:
            self.i += 1
            return N(k, None, [e])
        return e
    def atom(self):
        k, x = self.kind(), self.at()
        if k == 'str':
            self.i += 1
            return N('str', unescape(x))
        if x == '.':
            self.i += 1
            return N('any')
        if x == '(':
            self.i += 1
            e = self.choice()
            self.eat(')')
            return e
        if x == '[':
            self.i += 1
            if self.kind() != 'str':
                raise GrammarError('class')
            c = char_class(unescape(self.at()))
            self.i += 1
            self.eat(']')
            return N('class', c)
        if k == 'id' and x not in ITEM:
            if self.is_lhs():
                return None
            return N('ext', self.path())
        return None

def norm(t):
    return re.sub(r'\s+', '', t)

def char_class(s):
    """documented notation: single characters, `a-b` ranges, `-` first or last stands for itself"""
    if not s:
        raise GrammarError('empty class')
    out = []
    i = 0
    if s[0] == '-':
        out.append(('-', '-'))
        i = 1
    while i < len(s):
        c = s[i]
        if c == '-':
            if i == len(s) - 1:
                out.append(('-', '-'))
                break
            raise GrammarError('separator')
        if i + 1 < len(s) and s[i + 1] == '-':
            if i + 2 == len(s):
                out += [(c, c), ('-', '-')]
                break
            if s[i + 2] == '-':
                raise GrammarError('separator')
            out.append((c, s[i + 2]))
            i += 3
        else:
            out.append((c, c))
            i += 1
    return out

def esc(c):
    """char::escape_default"""
    if c in '\t\r\n\'"\\':
        return {'\t': '\\t', '\r': '\\r', '\n': '\\n', "'": "\\'", '"': '\\"', '\\': '\\\\'}[c]
    return c if ' ' <= c <= '~' else '\\u{%x}' % ord(c)

def class_text(cl):
    return '["' + ''.join(esc(a) if a == b else esc(a) + '-' + esc(b) for a, b in cl) + '"]'

def lit(s):
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c) for c in s) + '"'

def class_src(cl):
    s = ''.join(a if a == b else a + '-' + b for a, b in cl if a != '-' or b != '-')
    if ('-', '-') in cl:
        s = '-' + s
    return '[' + lit(s) + ']'

def show(n, lvl=0):
    """levels: 0 choice, 1 branch (action, span), 2 sequence, 3 typed, 4 prefixed, 5 suffixed operand"""
    k = n.k
    if k == 'choice':
        r, l = ' / '.join(show(c, 1) for c in n.c), 0
    elif k == 'action':
        r, l = show(n.c[0], 2 if n.c[0].k not in ('span', 'range') else 1) + ' > ' + ('box ' if n.a[0] else '') + n.a[1], 1
    elif k == 'span':
        r, l = '.. ' + show(n.c[0], 2), 1
    elif k == 'range':
        r, l = '... ' + show(n.c[0].c[0], 2), 1
    elif k == 'seq':
        r, l = ' '.join(show(c, 3) for c in n.c), 2
    elif k == 'ty':
        t = {'unit': '()', 'inv': '(^)'}.get(n.a[0]) or '(' + n.a[1] + ')'
        r, l = show(n.c[0], 4) + ':' + t, 3
    elif k in ('not', 'and'):
        r, l = ('!' if k == 'not' else '&') + show(n.c[0], 5), 4
    elif k in ('star', 'plus', 'opt'):
        r, l = show(n.c[0], 6) + {'star': '*', 'plus': '+', 'opt': '?'}[k], 5
    elif k == 'str':
        r, l = lit(n.a), 6
    elif k == 'any':
        r, l = '.', 6
    elif k == 'class':
        r, l = class_src(n.a), 6
    else:
        r, l = n.a, 6
    return '(' + r + ')' if l < lvl else r

INV, UNIT, ATOM, EXT = ('inv',), ('unit',), ('atom',), ('ext',)

class Result:
    __slots__ = ('ok', 'at', 'far', 'what', 'val')
    def __init__(self, ok, at, far, what, val=None):
        self.ok, self.at, self.far, self.what, self.val = ok, at, far, what, val

NOFAR = (-1, frozenset())

def join(a, b):
    if a[0] > b[0]:
        return a
    if b[0] > a[0]:
        return b
    return (a[0], a[1] | b[1])

class Grammar:
    def __init__(self):
        self.rules, self.fns, self.items = [], [], []
        self.exts = {}      # path -> (spec function of (s, i) -> Result)
    def finish(self):
        self.rule = {}
        for n, e in self.rules:
            self.rule.setdefault(n, e)
        for n, e in self.rules:
            for x in walk(e):
                if x.k == 'ext' and x.a in self.rule:
                    x.k = 'nt'
        self.fn_ret = dict(self.fns)
        return self
    # ---- typing
    def typing(self):
        """surface types (documented rules), then what lies under a unit is unit. Raises GrammarError on a mismatch.
        Recursive rules must be of a type that does not depend on the recursion (ascription, action, nothing)."""
        self.surf = {}
        self.busy = []
        for n, e in self.rules:
            self.rule_type(n)
        for n, e in self.rules:
            self.final(e, False)
    def rule_type(self, name):
        e = self.rule[name]
        if id(e) in self.surf:
            return self.surf[id(e)]
        if name in self.busy:
            if e.k == 'ty':
                return {'unit': UNIT, 'inv': INV}.get(e.a[0]) or ('rust', e.a[1])
            return ('rec', name)
        self.busy.append(name)
        t = self.st(e)
        self.busy.pop()
        return t
    def st(self, e):
        if id(e) in self.surf:
            return self.surf[id(e)]
        t = self.st_(e)
        if 'rec' not in repr(t):
            self.surf[id(e)] = t
        return t
    def st_(self, e):
        k = e.k
        if k == 'str':
            return INV
        if k in ('not', 'and'):
            self.st(e.c[0])
            return INV
        if k in ('any', 'class'):
            return ATOM
        if k == 'ty':
            self.st(e.c[0])
            return {'unit': UNIT, 'inv': INV}.get(e.a[0]) or ('rust', e.a[1])
        if k == 'action':
            self.st(e.c[0])
            r = self.fn_ret.get(e.a[1], '?')
            if r == '?':
                return EXT
            if r is None or r == '()':
                raise GrammarError('action of type unit')
            return ('rust', 'Box<%s>' % r if e.a[0] else r)
        if k == 'nt':
            return self.rule_type(e.a)
        if k == 'ext':
            return EXT
        if k in ('star', 'plus', 'opt'):
            t = self.st(e.c[0])
            if t == INV:
                return INV
            if t[0] == 'rec':
                raise GrammarError('polymorphic recursion')
            return ('opt' if k == 'opt' else 'list', t)
        if k == 'span':
            return self.tuple([('rust', '<span>'), self.st(e.c[0])])
        if k == 'range':
            self.st(e.c[0])
            return ('rust', '<range>')
        if k == 'seq':
            return self.tuple([self.st(c) for c in e.c])
        if k == 'choice':
            return self.unify([self.st(c) for c in e.c])
        raise AssertionError(k)
    def tuple(self, ts):
        ts = [x for t in ts for x in (t[1] if t[0] == 'tuple' else [t])]
        if any(t[0] == 'rec' for t in ts):
            if all(t[0] == 'rec' or t in (INV, UNIT) for t in ts):
                return [t for t in ts if t[0] == 'rec'][0]
            raise GrammarError('polymorphic recursion')
        ts = [t for t in ts if t != INV]
        if not ts:
            return INV
        ts = [t for t in ts if t != UNIT]
        if not ts:
            return UNIT
        return ts[0] if len(ts) == 1 else ('tuple', ts)
    def unify(self, ts):
        d = []
        rec = [t for t in ts if t[0] == 'rec']
        for t in ts:
            if t[0] != 'rec' and not any(same_type(t, x) for x in d):
                d.append(t)
        if not d:
            return rec[0]
        if len(d) == 1:
            return d[0]
        if len(d) == 2 and EXT in d:
            return d[0] if d[1] == EXT else d[1]
        if all(t in (INV, UNIT) for t in d):
            return INV
        raise GrammarError('type mismatch between branches')
    def final(self, e, under_unit):
        """e.ty: the type the value of e has in generated code"""
        t = self.surf.get(id(e)) or self.st(e)
        unit = under_unit or t in (INV, UNIT) or t[0] == 'rec'
        e.ty = UNIT if unit else t
        for c in e.c:
            self.final(c, unit)
    # ---- meaning
    def run(self, rule, s, i=0, limit=200000):
        self.steps = limit
        self.s = s
        self.memo = {}
        return self.call(rule, i)
    def call(self, rule, i):
        k = (rule, i)
        if k not in self.memo:
            self.memo[k] = self.ev(self.rule[rule], i)
        return self.memo[k]
    def ev(self, e, i):
        self.steps -= 1
        if self.steps < 0:
            raise RecursionError('too long')
        k, s = e.k, self.s
        if k == 'str':
            if s.startswith(e.a, i):
                return (True, i + len(e.a), NOFAR, ())
            return (False, i, (i, frozenset([e.a])), None)
        if k == 'any':
            if i < len(s):
                return (True, i + 1, NOFAR, s[i])
            return (False, i, (i, frozenset(['<character>'])), None)
        if k == 'class':
            if i < len(s) and any(a <= s[i] <= b for a, b in e.a):
                return (True, i + 1, NOFAR, s[i])
            return (False, i, (i, frozenset([class_text(e.a)])), None)
        if k == 'nt':
            r = self.call(e.a, i)
            return r if e.ty != UNIT else (r[0], r[1], r[2], ())
        if k == 'ext':
            return self.exts[e.a](s, i)
        if k == 'seq':
            far, vals, j = NOFAR, [], i
            for c in e.c:
                r = self.ev(c, j)
                far = join(far, r[2])
                if not r[0]:
                    return (False, r[1], far, None)
                j = r[1]
                vals += self.parts(c, r[3])
            return (True, j, far, self.pack(e, vals))
        if k == 'choice':
            far = NOFAR
            for c in e.c:
                r = self.ev(c, i)
                far = join(far, r[2])
                if r[0]:
                    return (True, r[1], far, r[3] if e.ty != UNIT else ())
            return (False, i, far, None)
        if k in ('star', 'plus'):
            far, vals, j = NOFAR, [], i
            while True:
                r = self.ev(e.c[0], j)
                far = join(far, r[2])
                if not r[0]:
                    break
                if r[1] == j:
                    raise RecursionError('empty repetition')
                j = r[1]
                vals.append(r[3])
            if k == 'plus' and not vals:
                return (False, i, far, None)
            return (True, j, far, vals if e.ty != UNIT else ())
        if k == 'opt':
            r = self.ev(e.c[0], i)
            v = ('None',) if not r[0] else ('Some', r[3])
            return (True, r[1] if r[0] else i, r[2], v if e.ty != UNIT else ())
        if k in ('not', 'and'):
            r = self.ev(e.c[0], i)
            return (r[0] == (k == 'and'), i, r[2], ())
        if k == 'action':
            r = self.ev(e.c[0], i)
            if not r[0]:
                return r
            if e.ty == UNIT:
                return (True, r[1], r[2], ())
            return (True, r[1], r[2], ('call', e.a[1], self.parts(e.c[0], r[3])))
        if k == 'ty':
            r = self.ev(e.c[0], i)
            return r if e.ty != UNIT else (r[0], r[1], r[2], ())
        if k == 'span':
            r = self.ev(e.c[0], i)
            if not r[0] or e.ty == UNIT:
                return (r[0], r[1], r[2], ())
            return (True, r[1], r[2], self.pack(e, [('span', i, r[1])] + self.parts(e.c[0], r[3])))
        if k == 'range':
            r = self.ev(e.c[0], i)
            return (r[0], r[1], r[2], ('range', i, r[1]) if e.ty != UNIT else ())
        raise AssertionError(k)
    def parts(self, c, v):
        """the values an expression contributes to the tuple around it"""
        if c.ty == UNIT:
            return []
        if c.ty[0] == 'tuple':
            return list(v[1])
        return [v]
    def pack(self, e, vals):
        if e.ty == UNIT:
            return ()
        return ('tuple', vals) if e.ty[0] == 'tuple' else vals[0]

def same_type(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('opt', 'list'):
        return same_type(a[1], b[1])
    if a[0] == 'tuple':
        return len(a[1]) == len(b[1]) and all(same_type(x, y) for x, y in zip(a[1], b[1]))
    return True      # unit, inv, atom, ext; Rust types are left to rustc

def debug(v):
    """Rust's {:?} of a value"""
    if v == ():
        return '()'
    if isinstance(v, str):
        return "'" + v.replace('\\', '\\\\').replace("'", "\\'").replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + "'"
    if isinstance(v, list):
        return '[' + ', '.join(debug(x) for x in v) + ']'
    k = v[0]
    if k == 'None':
        return 'None'
    if k == 'Some':
        return 'Some(' + debug(v[1]) + ')'
    if k == 'tuple':
        return '(' + ', '.join(debug(x) for x in v[1]) + ')'
    if k == 'call':
        inner = re.sub(r'^crate::|^node::(?=Kind)|^crate::node::(?=Kind)', '', v[1]).replace('node::Kind', 'Kind') + '(' + ','.join(debug(x) for x in v[2]) + ')'
        return inner_string(inner)
    if k in ('span', 'range'):
        return '%s(%d..%d)' % (k, v[1], v[2])
    raise AssertionError(v)

def inner_string(t):
    return '<' + t + '>'

def parse(text):
    return Parser(text).grammar()
