"""A small Rust reader: tokens, items, types, patterns and expressions with source spans.

It exists so that the checks can take functions out of /repo's current source mechanically.  Every node
remembers the slice of the source text it covers; `emit` reproduces that slice verbatim except where a
transformation asks for a node to be printed differently.  Anything the reader does not understand raises
`Unsupported`, which the checks treat as a limit of the tool (never as a verdict).
"""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
 |(?P<rawstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<char>b?'(?:[^'\\]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<p>.)
""", re.X | re.S)

class Tok:
    __slots__ = ('k', 't', 's', 'e', 'joint')
    def __init__(self, k, t, s, e):
        self.k = k; self.t = t; self.s = s; self.e = e; self.joint = False
    def __repr__(self):
        return self.t

def lex(src):
    out = []
    pos = 0
    n = len(src)
    while pos < n:
        m = TOK.match(src, pos)
        k = m.lastgroup
        if k == 'h':
            k = 'rawstr'
        if m.group('rawstr') is not None:
            k = 'rawstr'
        t = m.group()
        if k != 'ws':
            if out and k == 'p' and out[-1].k == 'p' and out[-1].e == pos:
                out[-1].joint = True
            if k == 'num' and '.' in t:
                # `1..2` never gets here, but `x.0.1` does: split a float after a dot
                if out and out[-1].t == '.':
                    a, b = t.split('.', 1)
                    out.append(Tok('num', a, pos, pos + len(a)))
                    out.append(Tok('p', '.', pos + len(a), pos + len(a) + 1))
                    out.append(Tok('num', b, pos + len(a) + 1, m.end()))
                    pos = m.end()
                    continue
            out.append(Tok('str' if k == 'rawstr' else k, t, pos, m.end()))
        pos = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}

class Node:
    """kind, source span [s, e), attributes; children are found among the attribute values."""
    def __init__(self, kind, s, e, **a):
        self.kind = kind; self.s = s; self.e = e
        self.a = a
    def __getattr__(self, n):
        if n in ('a', 'kind', 's', 'e') or n.startswith('__'):
            raise AttributeError(n)
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)
    def children(self):
        out = []
        for v in self.a.values():
            if isinstance(v, Node):
                out.append(v)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    if isinstance(x, Node):
                        out.append(x)
                    elif isinstance(x, (list, tuple)):
                        out.extend(y for y in x if isinstance(y, Node))
        out.sort(key=lambda n: (n.s, n.e))
        return out
    def walk(self):
        yield self
        for c in self.children():
            yield from c.walk()
    def __repr__(self):
        return '<%s %d-%d>' % (self.kind, self.s, self.e)

BINPREC = [
    ('||', 3), ('&&', 4),
    ('==', 5), ('!=', 5), ('<=', 5), ('>=', 5), ('<', 5), ('>', 5),
    ('|', 6), ('^', 7), ('&', 8), ('<<', 9), ('>>', 9), ('+', 10), ('-', 10), ('*', 11), ('/', 11), ('%', 11),
]
ASSIGN = ['=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>=']
PUNCT3 = ['<<=', '>>=', '...', '..=']
PUNCT2 = ['::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']

class Parser:
    def __init__(self, src):
        self.src = src
        self.toks = lex(src)
        self.i = 0

    # -- token helpers
    def at(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else Tok('eof', '', len(self.src), len(self.src))
    def peek(self, t, k=0):
        return self.at(k).t == t and self.at(k).k in ('p', 'id')
    def op(self, k=0):
        """longest punctuation operator starting here"""
        t = self.at(k)
        if t.k != 'p':
            return t.t if t.k == 'id' else ''
        s = t.t
        j = k
        while self.at(j).joint and len(s) < 3:
            j += 1
            s += self.at(j).t
        for n, table in ((3, PUNCT3), (2, PUNCT2)):
            if len(s) >= n and s[:n] in table:
                return s[:n]
        return t.t
    def err(self, what):
        t = self.at()
        line = self.src.count('\n', 0, t.s) + 1
        raise Unsupported('line %d: %s near `%s`' % (line, what, self.src[t.s:t.s + 40].replace('\n', ' ')))
    def eat(self, t):
        if len(t) > 1 and not (t[0].isalpha() or t[0] == '_'):
            if self.op()[:len(t)] == t or ''.join(self.at(j).t for j in range(len(t))) == t:
                r = self.at()
                self.i += len(t)
                return r
            self.err('expected `%s`' % t)
        if not self.peek(t):
            self.err('expected `%s`' % t)
        self.i += 1
        return self.toks[self.i - 1]
    def opt(self, t):
        if self.peek(t):
            self.i += 1
            return True
        return False
    def ident(self):
        t = self.at()
        if t.k != 'id':
            self.err('expected identifier')
        self.i += 1
        return t
    def end(self):
        return self.toks[self.i - 1].e
    def skip_group(self):
        o = self.at().t
        if o not in OPEN:
            self.err('expected a group')
        depth = 0
        while True:
            t = self.at()
            if t.k == 'eof':
                self.err('unbalanced group')
            if t.k == 'p':
                if t.t in OPEN:
                    depth += 1
                elif t.t in ')]}':
                    depth -= 1
            self.i += 1
            if depth == 0:
                return
    def attrs(self):
        out = []
        while self.peek('#'):
            s = self.at().s
            self.i += 1
            self.opt('!')
            self.skip_group()
            out.append(self.src[s:self.end()])
        return out

    # -- types (kept as text)
    def generic_args(self):
        """at `<`: skip to the matching `>`"""
        self.eat('<')
        while not self.peek('>'):
            if self.at().k in ('life', 'num', 'str', 'char'):
                self.i += 1
            elif self.peek('{'):
                self.skip_group()
            elif self.at().k == 'id' and self.op(1) == '=' :
                self.i += 2
                self.type_()
            else:
                self.type_()
            if not self.opt(','):
                break
        self.eat('>')
    def type_path(self):
        if self.peek('<'):
            self.eat('<'); self.type_()
            if self.opt('as'):
                self.type_()
            self.eat('>')
            self.eat('::')
        elif self.op() == '::':
            self.eat('::')
        while True:
            self.ident()
            if self.op() == '::' and self.at(2).t == '<':
                self.eat('::')
                self.generic_args()
            elif self.peek('<'):
                self.generic_args()
            elif self.peek('('):
                self.skip_group()
                if self.op() == '->':
                    self.eat('->'); self.type_()
            if self.op() == '::' and self.at(2).k == 'id':
                self.eat('::')
                continue
            if self.peek('!') and self.at(1).t in OPEN:
                self.i += 1
                self.skip_group()
            break
    def type_(self, plus=True):
        s = self.at().s
        t = self.at()
        if self.op() in ('&', '&&'):
            self.i += len(self.op())
            if self.at().k == 'life':
                self.i += 1
            self.opt('mut')
            self.type_(False)
        elif t.t == '*':
            self.i += 1
            self.ident()
            self.type_(False)
        elif t.t in ('(', '['):
            self.skip_group()
        elif t.t == '!':
            self.i += 1
        elif t.t in ('impl', 'dyn'):
            self.i += 1
            self.bounds()
        elif t.t in ('fn', 'extern', 'unsafe'):
            while not self.peek('('):
                self.i += 1
            self.skip_group()
            if self.op() == '->':
                self.eat('->'); self.type_()
        elif t.t == 'for':
            self.i += 1
            self.generic_args()
            self.type_()
        elif t.k == 'id' or t.t == '<' or self.op() == '::':
            self.type_path()
        else:
            self.err('type')
        return Node('type', s, self.end())
    def bounds(self):
        while True:
            if self.at().k == 'life':
                self.i += 1
            elif self.peek('?'):
                self.i += 1
                self.type_()
            elif self.peek('('):
                self.skip_group()
            else:
                self.type_(False)
            if self.peek('+'):
                self.i += 1
                continue
            return

    # -- patterns
    def pattern(self):
        s = self.at().s
        if self.peek('|'):
            self.i += 1
        alts = [self.pattern1()]
        while self.op() == '|':
            self.i += 1
            alts.append(self.pattern1())
        if len(alts) == 1:
            return alts[0]
        return Node('pat_or', s, self.end(), alts=alts)
    def pattern1(self):
        s = self.at().s
        t = self.at()
        if t.t == '_' :
            self.i += 1
            return Node('pat_wild', s, self.end())
        if self.op() in ('..',):
            self.i += 2
            return Node('pat_rest', s, self.end())
        if self.op() in ('&', '&&'):
            self.i += len(self.op())
            self.opt('mut')
            return self._mk('pat_ref', s, pat=self.pattern1())
        if t.t == '(' or t.t == '[':
            self.i += 1
            items = []
            trailing = False
            while not self.peek(OPEN[t.t]):
                items.append(self.pattern())
                trailing = self.opt(',')
                if not trailing:
                    break
            self.eat(OPEN[t.t])
            if t.t == '(' and len(items) == 1 and not trailing:
                return Node('pat_paren', s, self.end(), pat=items[0])
            return Node('pat_tuple' if t.t == '(' else 'pat_slice', s, self.end(), items=items)
        if t.k in ('num', 'str', 'char') or t.t == '-' or t.t in ('true', 'false'):
            self.opt('-')
            self.i += 1
            if self.op() in ('..=', '...', '..'):
                self.i += len(self.op())
                if self.at().k in ('num', 'char', 'str', 'id') or self.peek('-'):
                    self.opt('-')
                    self.i += 1
            return Node('pat_lit', s, self.end())
        if t.t in ('ref', 'mut') or (t.k == 'id' and self.op(1) == '@'):
            by = ''
            if self.opt('ref'):
                by = 'ref'
            m = self.opt('mut')
            nm = self.ident().t
            sub = None
            if self.op() == '@':
                self.i += 1
                sub = self.pattern1()
            return Node('pat_ident', s, self.end(), name=nm, mut=m, ref=by, sub=sub)
        if t.k == 'id' or self.op() == '::' or t.t == '<':
            self.expr_path()
            text = self.src[s:self.end()]
            if self.peek('('):
                self.i += 1
                items = []
                while not self.peek(')'):
                    items.append(self.pattern())
                    if not self.opt(','):
                        break
                self.eat(')')
                return Node('pat_tstruct', s, self.end(), path=text, items=items)
            if self.peek('{'):
                self.i += 1
                fields = []
                while not self.peek('}'):
                    self.attrs()
                    if self.op() == '..':
                        self.i += 2
                        break
                    if self.op(1) == ':' :
                        nm = self.at().t
                        self.i += 2
                        fields.append((nm, self.pattern()))
                    else:
                        p = self.pattern1()
                        fields.append((None, p))
                    if not self.opt(','):
                        break
                self.eat('}')
                return Node('pat_struct', s, self.end(), path=text, fields=fields)
            if self.op() in ('..=', '...'):
                self.i += 3
                self.i += 1
                return Node('pat_lit', s, self.end())
            if '::' in text or text[0].isupper():
                return Node('pat_path', s, self.end(), path=text)
            return Node('pat_ident', s, self.end(), name=text, mut=False, ref='', sub=None)
        self.err('pattern')
    def _mk(self, kind, s, **a):
        return Node(kind, s, self.end(), **a)

    # -- expressions
    def expr_path(self):
        if self.peek('<'):
            self.eat('<'); self.type_()
            if self.opt('as'):
                self.type_()
            self.eat('>')
            self.eat('::')
        elif self.op() == '::':
            self.eat('::')
        while True:
            self.ident()
            if self.op() == '::':
                if self.at(2).t == '<':
                    self.eat('::')
                    self.generic_args()
                    if self.op() == '::' and self.at(2).k == 'id':
                        self.eat('::')
                        continue
                    return
                if self.at(2).k == 'id':
                    self.eat('::')
                    continue
            return
    def expr(self, struct=True):
        return self.assign(struct)
    def assign(self, struct):
        s = self.at().s
        l = self.range_(struct)
        o = self.op()
        if o in ASSIGN and not (o == '=' and self.op() == '=='):
            self.i += len(o)
            r = self.assign(struct)
            return Node('assign', s, self.end(), op=o, l=l, r=r)
        return l
    def starts_expr(self, struct):
        t = self.at()
        if t.k == 'eof':
            return False
        if t.k in ('num', 'str', 'char', 'life'):
            return True
        if t.k == 'id':
            return t.t not in ('else', 'as', 'in')
        if t.t == '{':
            return struct
        return t.t in ('(', '[', '-', '!', '*', '&', '|', '<') or self.op() == '::'
    def range_(self, struct):
        s = self.at().s
        if self.op() in ('..', '..='):
            o = self.op()
            self.i += len(o)
            hi = self.binary(3, struct) if self.starts_expr(struct) else None
            return Node('range', s, self.end(), lo=None, hi=hi, op=o)
        l = self.binary(3, struct)
        if self.op() in ('..', '..='):
            o = self.op()
            self.i += len(o)
            hi = self.binary(3, struct) if self.starts_expr(struct) else None
            return Node('range', s, self.end(), lo=l, hi=hi, op=o)
        return l
    def binary(self, minp, struct):
        s = self.at().s
        l = self.unary(struct)
        while True:
            if self.at().k == 'id' and self.at().t == 'as':
                self.i += 1
                ty = self.type_()
                l = Node('cast', s, self.end(), x=l, ty=ty)
                continue
            o = self.op()
            if self.at().k != 'p':
                return l
            p = dict(BINPREC).get(o)
            if p is None or p < minp or o in ASSIGN:
                return l
            self.i += len(o)
            r = self.binary(p + 1, struct)
            l = Node('binary', s, self.end(), op=o, l=l, r=r)
    def unary(self, struct):
        s = self.at().s
        t = self.at()
        if t.k == 'p':
            if t.t in '-!*':
                self.i += 1
                x = self.unary(struct)
                return Node('unary', s, self.end(), op=t.t, x=x)
            if t.t == '&':
                double = self.op() == '&&'
                self.i += 2 if double else 1
                m = self.opt('mut')
                x = self.unary(struct)
                n = Node('ref', s if not double else s + 1, self.end(), mut=m, x=x)
                if double:
                    n = Node('ref', s, self.end(), mut=False, x=n)
                return n
        return self.postfix(struct)
    def args(self, close):
        out = []
        while not self.peek(close):
            self.attrs()
            out.append(self.expr())
            if not self.opt(','):
                break
        self.eat(close)
        return out
    def postfix(self, struct):
        s = self.at().s
        x = self.primary(struct)
        while True:
            if self.peek('?'):
                self.i += 1
                x = Node('try', s, self.end(), x=x)
            elif self.peek('(') :
                self.i += 1
                x = Node('call', s, None, f=x, args=self.args(')'))
                x.e = self.end()
            elif self.peek('['):
                self.i += 1
                ix = self.expr()
                self.eat(']')
                x = Node('index', s, self.end(), x=x, ix=ix)
            elif self.peek('.') and self.op() == '.':
                self.i += 1
                t = self.at()
                if t.k not in ('id', 'num'):
                    self.err('field')
                self.i += 1
                turbo = None
                if self.op() == '::':
                    ts = self.at().s
                    self.eat('::')
                    self.generic_args()
                    turbo = self.src[ts:self.end()]
                if self.peek('(') :
                    self.i += 1
                    a = self.args(')')
                    x = Node('mcall', s, self.end(), x=x, name=t.t, turbo=turbo, args=a, name_s=t.s)
                else:
                    x = Node('field', s, self.end(), x=x, name=t.t)
            else:
                return x
    def block(self):
        s = self.at().s
        self.eat('{')
        stmts = []
        tail = None
        while not self.peek('}'):
            st = self.stmt()
            if st is None:
                continue
            stmts.append(st)
        self.eat('}')
        if stmts and stmts[-1].kind == 'expr_stmt' and not stmts[-1].semi:
            tail = stmts.pop()
        return Node('block', s, self.end(), stmts=stmts, tail=tail.x if tail else None)
    BLOCKLIKE = ('if', 'match', 'while', 'for', 'loop', 'blockexpr', 'unsafe')
    def stmt(self):
        s = self.at().s
        at = self.attrs()
        if self.peek(';'):
            self.i += 1
            return None
        t = self.at()
        if t.t == 'let' and t.k == 'id':
            self.i += 1
            p = self.pattern()
            ty = None
            if self.peek(':'):
                self.i += 1
                ty = self.type_()
            init = None
            els = None
            if self.op() == '=':
                self.i += 1
                init = self.expr()
                if self.peek('else'):
                    self.i += 1
                    els = self.block()
            self.eat(';')
            return Node('let', s, self.end(), pat=p, ty=ty, init=init, els=els)
        if t.k == 'id' and (t.t in ('use', 'fn', 'struct', 'enum', 'impl', 'mod', 'trait', 'static', 'type', 'extern', 'pub') or (t.t == 'const' and self.at(1).k == 'id')):
            it = self.item(at)
            return Node('item_stmt', s, self.end(), item=it)
        x = self.expr_stmt_head()
        if self.peek(';'):
            self.i += 1
            return Node('expr_stmt', s, self.end(), x=x, semi=True)
        if self.peek('}'):
            return Node('expr_stmt', s, self.end(), x=x, semi=False)
        if x.kind in self.BLOCKLIKE or (x.kind == 'macro' and x.delim == '{'):
            return Node('expr_stmt', s, self.end(), x=x, semi=True, blocklike=True)
        self.err('statement')
    def expr_stmt_head(self):
        """block-like expressions end a statement without consuming a following operator"""
        t = self.at()
        k = self.i
        if t.t in ('if', 'match', 'while', 'for', 'loop', '{', 'unsafe') or (t.k == 'life' and self.op(1) == ':'):
            x = self.primary(True)
            if self.peek('.') and self.op() == '.' or self.peek('?'):
                self.i = k
                return self.expr()
            return x
        return self.expr()
    def primary(self, struct):
        s = self.at().s
        t = self.at()
        if t.k in ('num', 'str', 'char'):
            self.i += 1
            return Node('lit', s, self.end(), text=t.t, lk=t.k)
        if t.k == 'life':
            label = t.t
            self.i += 1
            self.eat(':')
            x = self.primary(struct)
            x.a['label'] = label
            x.s = s
            return x
        if t.t == '(' :
            self.i += 1
            items = []
            trailing = False
            while not self.peek(')'):
                items.append(self.expr())
                trailing = self.opt(',')
                if not trailing:
                    break
            self.eat(')')
            if len(items) == 1 and not trailing:
                return Node('paren', s, self.end(), x=items[0])
            return Node('tuple', s, self.end(), items=items)
        if t.t == '[':
            self.i += 1
            if self.peek(']'):
                self.i += 1
                return Node('array', s, self.end(), items=[])
            a = self.expr()
            if self.peek(';'):
                self.i += 1
                n = self.expr()
                self.eat(']')
                return Node('repeat', s, self.end(), x=a, n=n)
            items = [a]
            if self.opt(','):
                items += self.args(']')
            else:
                self.eat(']')
            return Node('array', s, self.end(), items=items)
        if t.t == '{':
            b = self.block()
            return Node('blockexpr', s, self.end(), b=b)
        if t.t in ('|', ) or self.op() == '||' or (t.t == 'move' and t.k == 'id'):
            mv = self.opt('move')
            params = []
            if self.op() == '||':
                self.i += 2
            else:
                self.eat('|')
                while not self.peek('|'):
                    ps = self.at().s
                    p = self.pattern1()
                    ty = None
                    if self.peek(':'):
                        self.i += 1
                        ty = self.type_()
                    params.append(Node('param', ps, self.end(), pat=p, ty=ty))
                    if not self.opt(','):
                        break
                self.eat('|')
            ret = None
            if self.op() == '->':
                self.eat('->')
                ret = self.type_()
            body = self.expr(struct)
            return Node('closure', s, self.end(), params=params, ret=ret, body=body, move=mv)
        if t.k == 'id':
            w = t.t
            if w in ('if', 'while'):
                self.i += 1
                cond = self.cond()
                b = self.block()
                if w == 'while':
                    return Node('while', s, self.end(), cond=cond, body=b, label=None)
                els = None
                if self.peek('else'):
                    self.i += 1
                    els = self.primary(True) if self.peek('if') else self.block()
                return Node('if', s, self.end(), cond=cond, then=b, els=els)
            if w == 'loop':
                self.i += 1
                b = self.block()
                return Node('loop', s, self.end(), body=b, label=None)
            if w == 'for':
                self.i += 1
                p = self.pattern()
                self.eat('in')
                it = self.expr(False)
                b = self.block()
                return Node('for', s, self.end(), pat=p, it=it, body=b, label=None)
            if w == 'match':
                self.i += 1
                x = self.expr(False)
                self.eat('{')
                arms = []
                while not self.peek('}'):
                    as_ = self.at().s
                    self.attrs()
                    p = self.pattern()
                    g = None
                    if self.peek('if'):
                        self.i += 1
                        g = self.expr()
                    self.eat('=>')
                    body = self.expr_stmt_head()
                    ae = self.end()
                    arms.append(Node('arm', as_, ae, pat=p, guard=g, body=body))
                    if not self.opt(','):
                        if body.kind not in self.BLOCKLIKE:
                            break
                self.eat('}')
                return Node('match', s, self.end(), x=x, arms=arms)
            if w in ('return', 'break'):
                self.i += 1
                label = None
                if w == 'break' and self.at().k == 'life':
                    label = self.at().t
                    self.i += 1
                x = self.expr(struct) if self.starts_expr(struct) else None
                return Node(w, s, self.end(), x=x, label=label)
            if w == 'continue':
                self.i += 1
                if self.at().k == 'life':
                    self.i += 1
                return Node('continue', s, self.end())
            if w == 'unsafe':
                self.i += 1
                b = self.block()
                return Node('unsafe', s, self.end(), b=b)
        if t.k == 'id' or self.op() == '::' or t.t == '<':
            self.expr_path()
            text = self.src[s:self.end()]
            if self.peek('!') and self.op() != '!=' and self.at(1).t in OPEN:
                self.i += 1
                d = self.at().t
                gs = self.at().s
                self.skip_group()
                return Node('macro', s, self.end(), name=text, delim=d, body_s=gs + 1, body_e=self.end() - 1)
            if struct and self.peek('{') and self.struct_lit_ahead(text):
                self.i += 1
                fields = []
                base = None
                while not self.peek('}'):
                    self.attrs()
                    if self.op() == '..':
                        self.i += 2
                        base = self.expr()
                        break
                    nm = self.at().t
                    self.i += 1
                    if self.peek(':'):
                        self.i += 1
                        fields.append((nm, self.expr()))
                    else:
                        fields.append((nm, None))
                    if not self.opt(','):
                        break
                self.eat('}')
                return Node('struct', s, self.end(), path=text, fields=fields, base=base)
            return Node('path', s, self.end(), text=text)
        self.err('expression')
    def struct_lit_ahead(self, text):
        last = text.split('::')[-1]
        if not (last[:1].isupper()):
            return False
        a, b = self.at(1), self.at(2)
        return a.t == '}' or self.op(1) == '..' or (a.k in ('id', 'num') and b.t in (':', ',', '}'))
    def cond(self):
        s = self.at().s
        def one():
            ss = self.at().s
            if self.peek('let'):
                self.i += 1
                p = self.pattern()
                self.eat('=')
                x = self.binary(5, False)
                return Node('letcond', ss, self.end(), pat=p, x=x)
            return None
        if self.peek('let'):
            l = one()
            if self.op() == '&&':
                self.err('let chain')
            return l
        return self.expr(False)

    # -- items
    def where_clause(self):
        s = self.at().s
        if self.peek('where'):
            while not (self.peek('{') or self.peek(';')):
                if self.peek('('):
                    self.skip_group()
                else:
                    self.i += 1
            return self.src[s:self.end()]
        return ''
    def generics(self):
        if self.peek('<'):
            s = self.at().s
            depth = 0
            while True:
                if self.op() == '->':
                    self.i += 2
                    continue
                t = self.at()
                if t.t == '<':
                    depth += 1
                elif t.t == '>':
                    depth -= 1
                elif t.k == 'eof':
                    self.err('generics')
                self.i += 1
                if depth == 0:
                    return self.src[s:self.end()]
        return ''
    def vis(self):
        s = self.at().s
        if self.opt('pub'):
            if self.peek('(') and self.at(1).t in ('crate', 'super', 'self', 'in'):
                self.skip_group()
            return self.src[s:self.end()]
        return ''
    def item(self, at=None):
        s = self.at().s
        at = (at or []) + self.attrs()
        v = self.vis()
        t = self.at()
        w = t.t
        if w in ('const', 'static') and self.at(1).t not in ('fn', 'unsafe'):
            while not self.peek(';'):
                if self.at().t in OPEN:
                    self.skip_group()
                else:
                    self.i += 1
            self.i += 1
            return Node('const', s, self.end(), attrs=at)
        while self.at().t in ('const', 'unsafe', 'async', 'default') or (self.at().t == 'extern' and self.at(1).k == 'str'):
            if self.at().t == 'unsafe' and self.at(1).t == 'impl':
                break
            self.i += 1
        w = self.at().t
        if w == 'fn':
            return self.fn(s, at, v)
        if w in ('use', 'type') or (w == 'extern' and self.at(1).t == 'crate'):
            nm = self.at(1).t
            self.i += 1
            while not self.peek(';'):
                if self.at().t in OPEN:
                    self.skip_group()
                else:
                    self.i += 1
            self.i += 1
            return Node(w, s, self.end(), attrs=at, name=nm)
        if w == 'mod':
            self.i += 1
            nm = self.ident().t
            if self.opt(';'):
                return Node('mod', s, self.end(), attrs=at, name=nm, items=None)
            self.eat('{')
            items = []
            while not self.peek('}'):
                items.append(self.item())
            self.eat('}')
            return Node('mod', s, self.end(), attrs=at, name=nm, items=items)
        if w in ('struct', 'enum', 'union'):
            self.i += 1
            nm = self.ident().t
            g = self.generics()
            wh = self.where_clause()
            bs = self.at().s
            if self.peek('('):
                self.skip_group()
                be = self.end()
                self.where_clause()
                self.eat(';')
            elif self.peek('{'):
                self.skip_group()
                be = self.end()
            else:
                be = bs
                self.eat(';')
            return Node(w, s, self.end(), attrs=at, name=nm, generics=g, where=wh, vis=v, body_s=bs, body_e=be)
        if w == 'trait':
            self.i += 1
            nm = self.ident().t
            while not self.peek('{'):
                self.i += 1
            hs = self.src[s:self.at().s]
            self.eat('{')
            items = []
            while not self.peek('}'):
                items.append(self.item())
            self.eat('}')
            return Node('trait', s, self.end(), attrs=at, name=nm, header=hs, items=items)
        if w in ('impl', 'unsafe'):
            self.opt('unsafe')
            self.i += 1
            g = self.generics()
            self.opt('!')
            a = self.type_()
            tr = None
            if self.peek('for'):
                self.i += 1
                tr = a
                a = self.type_()
            wh = self.where_clause()
            self.eat('{')
            items = []
            while not self.peek('}'):
                items.append(self.item())
            self.eat('}')
            return Node('impl', s, self.end(), attrs=at, generics=g, trait=self.src[tr.s:tr.e] if tr else None,
                        ty=self.src[a.s:a.e], where=wh, items=items)
        if t.k == 'id' and (self.op(1) == '!'):
            nm = t.t
            self.i += 2
            if self.at().k == 'id':
                nm += ' ' + self.at().t
                self.i += 1
            d = self.at().t
            self.skip_group()
            if d != '{':
                self.opt(';')
            return Node('macro_item', s, self.end(), attrs=at, name=nm)
        self.err('item')
    def fn(self, s, at, v):
        self.eat('fn')
        nm = self.ident().t
        g = self.generics()
        self.eat('(')
        params = []
        while not self.peek(')'):
            self.attrs()
            ps = self.at().s
            k = 0
            selfish = None
            j = self.i
            txt = ''
            while self.toks[j].t in ('&', 'mut') or self.toks[j].k == 'life':
                j += 1
            if self.toks[j].t == 'self':
                self.i = j + 1
                if self.peek(':'):
                    self.i += 1
                    self.type_()
                params.append(Node('param', ps, self.end(), pat=None, ty=None, selfp=self.src[ps:self.end()]))
            else:
                p = self.pattern1()
                self.eat(':')
                ty = self.type_()
                params.append(Node('param', ps, self.end(), pat=p, ty=ty, selfp=None))
            if not self.opt(','):
                break
        self.eat(')')
        ret = None
        if self.op() == '->':
            self.eat('->')
            ret = self.type_()
        wh = self.where_clause()
        body = None
        if self.peek('{'):
            body = self.block()
        else:
            self.eat(';')
        return Node('fn', s, self.end(), attrs=at, vis=v, name=nm, generics=g, params=params, ret=ret, where=wh, body=body)
    def file(self):
        items = []
        while self.at().k != 'eof':
            if self.peek('#') and self.at(1).t == '!':
                self.i += 2
                self.skip_group()
                continue
            items.append(self.item())
        return items

class File:
    def __init__(self, path):
        self.path = path
        self.src = open(path, encoding='utf-8').read()
        self.items = Parser(self.src).file()
    def text(self, n):
        return self.src[n.s:n.e]

def parse_expr(src):
    p = Parser(src)
    x = p.expr()
    if p.at().k != 'eof':
        p.err('trailing input')
    return x

def is_test(n):
    return any(re.search(r'cfg\s*\(\s*test', a) for a in n.a.get('attrs', []) or [])

def emit(src, node, hook=None):
    """source text of `node`; `hook(node, recurse)` may return replacement text"""
    if hook is not None:
        r = hook(node, lambda n: emit(src, n, hook))
        if r is not None:
            return r
    return emit_children(src, node, hook)

def emit_children(src, node, hook):
    out = []
    pos = node.s
    for c in node.children():
        if c.s < pos:
            continue
        out.append(src[pos:c.s])
        out.append(emit(src, c, hook))
        pos = c.e
    out.append(src[pos:node.e])
    return ''.join(out)
