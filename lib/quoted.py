"""Quoted templates (`parse_quote!`) as what they are: pieces of Rust code over their holes.

`denote` parses the text of a template found in the source and restates it as a specification expression over what the
holes do: the semantics of blocks, `let`, assignment, `if`, `match state.next()`, `loop`/`break` and of the operations
of a parse state (their contracts: C01, C05, C06). A template that uses anything else is unsupported."""
import re
import rs
from vx import Unsupported

class Ctx:
    def __init__(self, s, e, locs=None, loop=False):
        self.s, self.e, self.locs, self.loop = s, e, dict(locs or {}), loop
    def on(self, s=None, e=None):
        return Ctx(s or self.s, e or self.e, self.locs, self.loop)

def prepare(text):
    """holes as identifiers; the holes in order"""
    holes = []
    def one(m):
        if m.group(1) not in holes:
            holes.append(m.group(1))
        return 'vxh_' + m.group(1)
    t = re.sub(r'#\(\s*#(\w+)\s*\)\s*,\s*\*', lambda m: (holes.append(m.group(1)) or '') + 'vxrep_' + m.group(1) if m.group(1) not in holes else 'vxrep_' + m.group(1), text)
    t = re.sub(r'#(\w+)', one, t)
    t = re.sub(r'\b(vxh_\w+)(\s+)(?=vxh_)', r'\1;\2', t)
    return t, holes

class Denote:
    """text of a template -> specification text"""
    n = 0
    def __init__(self, text):
        self.src, self.holes = prepare(text)
    def fresh(self, p):
        Denote.n += 1
        return '%s%d' % (p, Denote.n)
    def t(self, x):
        return self.src[x.s:x.e].strip()
    def bad(self, n, why=''):
        raise Unsupported('template: %s%s' % (self.t(n)[:60], ' (%s)' % why if why else ''))
    def hole(self, n):
        if n.kind == 'paren':
            return self.hole(n.x)
        if n.kind == 'path' and n.text.startswith('vxh_'):
            return n.text[4:]
        if n.kind == 'blockexpr' and not n.b.stmts and n.b.tail is not None:
            return self.hole(n.b.tail)
        return None
    # ---- variables that hold a parse state
    def state(self, n, c):
        if n.kind == 'path':
            if n.text == 'state':
                return c.s
            if c.locs.get(n.text, ('',))[0] == 'state':
                return c.locs[n.text][1]
        return None
    def text(self, n):
        h = self.hole(n)
        if h:
            return '%s.vx_text()' % h
        if n.kind == 'lit' and n.text.startswith('"'):
            return '%s@' % n.text
        self.bad(n)
    # ---- conditions and values (no effect)
    def cond(self, n, c):
        if n.kind == 'paren':
            return '(%s)' % self.cond(n.x, c)
        h = self.hole(n)
        if h:
            return 'truth(%s.vx_val(%s, %s))' % (h, c.s, c.e)
        if n.kind == 'unary' and n.op == '!':
            return '!(%s)' % self.cond(n.x, c)
        if n.kind == 'binary' and n.op in ('&&', '||'):
            return '(%s %s %s)' % (self.cond(n.l, c), n.op, self.cond(n.r, c))
        if n.kind == 'binary' and n.op in ('<', '<=', '>', '>=', '==', '!='):
            f = lambda x: 'number(%s)' % self.val(x, c)
            return '(%s %s %s)' % (f(n.l), n.op, f(n.r))
        if n.kind == 'path' and c.locs.get(n.text, ('',))[0] == 'bool':
            return c.locs[n.text][1]
        if n.kind == 'mcall' and not n.args and n.name in ('is_successful', 'is_failed'):
            s = self.state(n.x, c)
            if s:
                return '%s%s.ok' % ('' if n.name == 'is_successful' else '!', s)
        self.bad(n, 'condition')
    def val(self, n, c):
        """(text of a value); `self.guard` collects what must hold for it to be computed without a panic"""
        if n.kind == 'paren' and n.x.kind == 'path' and n.x.text.startswith('vxrep_'):
            return 'tup(%s)' % self.args([n.x], c)
        if n.kind == 'paren':
            return self.val(n.x, c)
        h = self.hole(n)
        if h:
            return '%s.vx_val(%s, %s)' % (h, c.s, c.e)
        if n.kind == 'lit':
            if n.text in ('true', 'false'):
                return 'Val::Flag(%s)' % n.text
            if re.match(r'\d+$', n.text):
                return 'Val::Count(%s)' % n.text
        if n.kind in ('path', 'bool') and self.t(n) in ('true', 'false'):
            return 'Val::Flag(%s)' % self.t(n)
        if n.kind == 'path' and n.text == 'None':
            return 'Val::No'
        if n.kind == 'macro' and n.name == 'vec' and not self.src[n.body_s:n.body_e].strip():
            return 'Val::List(Seq::empty())'
        if n.kind == 'tuple' and not n.items:
            return 'Val::Unit'
        if n.kind == 'mcall':
            if n.name == 'clone' and not n.args:
                return self.val(n.x, c)
            if n.name == 'mark' and not n.args:
                s = self.state(n.x, c)
                if s:
                    self.guard.append('%s.ok' % s)
                    return 'Val::Mark(%s.at)' % s
            if n.name == 'stream_span' and not n.args:
                return 'span_of(%s)' % self.val(n.x, c)
        if n.kind == 'struct' and n.path == 'Range':
            f = dict((x[0], x[1]) for x in n.fields) if n.fields and isinstance(n.fields[0], tuple) else {x.name: x.x for x in n.fields}
            if set(f) == {'start', 'end'} and n.base is None:
                return 'range_of(%s, %s)' % (self.val(f['start'], c), self.val(f['end'], c))
        if n.kind == 'call' and n.f.kind == 'path' and len(n.args) == 1:
            if n.f.text == 'Some':
                return 'some_of(%s)' % self.val(n.args[0], c)
            if n.f.text == 'Box::new':
                return 'boxed(%s)' % self.val(n.args[0], c)
        if n.kind == 'call' and self.hole(n.f):
            a = self.args(n.args, c)
            return 'applied(%s, %s)' % (self.hole(n.f), a)
        if n.kind in ('paren', 'tuple') or n.kind == 'path' and n.text.startswith('vxrep_'):
            pass
        self.bad(n, 'value')
    def args(self, args, c):
        if len(args) == 1 and args[0].kind == 'path' and args[0].text.startswith('vxrep_'):
            return '%s.vx_vals(%s, %s)' % (args[0].text[6:], c.s, c.e)
        return 'seq![%s]' % ', '.join(self.val(a, c) for a in args) if args else 'Seq::empty()'
    def guarded(self, f):
        saved, self.guard = getattr(self, 'guard', []), []
        r = f()
        g, self.guard = self.guard, saved
        return r, g
    @staticmethod
    def under(g, body):
        return 'if %s { %s } else { None }' % (' && '.join(g), body) if g else body
    # ---- code: k(state text, context) says what comes next
    def done(self, s, c):
        return 'Some(Fl { go: true, s: %s, e: %s })' % (s, c.e) if c.loop else 'Some(Rs { s: %s, e: %s })' % (s, c.e)
    def code(self, n, c, k):
        """an expression whose value is a parse state"""
        if n.kind == 'paren':
            return self.code(n.x, c, k)
        h = self.hole(n)
        if h:
            r = self.fresh('r')
            return 'match %s.vx_run(vx_n, %s, %s) { None => None, Some(%s) => %s }' % (h, c.s, c.e, r, k('%s.s' % r, c.on(e='%s.e' % r)))
        s = self.state(n, c)
        if s:
            return k(s, c)
        if n.kind == 'mcall':
            s = self.state(n.x, c)
            if s and n.name == 'failure' and not n.args:
                return k('failed(%s.far)' % s, c)
            if s and n.name == 'success' and len(n.args) == 1:
                v, g = self.guarded(lambda: self.val(n.args[0], c))
                return self.under(g, k('successful(%s, %s)' % (s, v), c))
            if s and n.name in ('restore', 'restore_from_failure') and len(n.args) == 1:
                v, g = self.guarded(lambda: self.val(n.args[0], c))
                g = g + ['%s.data is None' % s] + (['!%s.ok' % s] if n.name == 'restore_from_failure' else [])
                return self.under(g, k('restored(%s, %s)' % (s, v), c))
        if n.kind == 'call' and self.hole(n.f) and len(n.args) == 1:
            s = self.state(n.args[0], c)
            if s:
                r = self.fresh('r')
                return 'match %s.vx_call(vx_n, %s) { None => None, Some(%s) => %s }' % (self.hole(n.f), s, r, k(r, c))
        if n.kind in ('blockexpr', 'if', 'match'):
            r = self.fresh('r')
            if c.loop:
                c1 = Ctx(c.s, c.e, c.locs, False)
                return 'match (%s) { None => None, Some(%s) => %s }' % (self.value(n, c1), r, k('%s.s' % r, Ctx(c.s, '%s.e' % r, c.locs, True)))
            return 'match (%s) { None => None, Some(%s) => %s }' % (self.value(n, c), r, k('%s.s' % r, c.on(e='%s.e' % r)))
        self.bad(n, 'code')
    def value(self, n, c):
        """n as a whole, its value being the parse state of the result"""
        if n.kind == 'blockexpr':
            return self.block(n.b, c, True)
        if n.kind == 'if':
            return self.if_(n, c, lambda b, c1: self.value(b, c1) if b.kind != 'block' else self.block(b, c1, True))
        if n.kind == 'match':
            return self.match_(n, c, lambda b, c1: self.value(b, c1))
        return self.code(n, c, self.done)
    def if_(self, n, c, f):
        x = n.cond
        neg = False
        while x.kind == 'paren' or x.kind == 'unary' and x.op == '!':
            neg ^= x.kind == 'unary'
            x = x.x
        els = lambda c1: f(n.els, c1) if n.els is not None else self.done(c1.s, c1)
        if x.kind == 'mcall' and x.name == 'consume_prefix' and len(x.args) == 1 and self.state(x.x, c) == c.s:
            t = self.text(x.args[0])
            s1 = self.fresh('s')
            a, b = f(n.then, c.on(s=s1)), els(c)
            if neg:
                a, b = f(n.then, c), els(c.on(s=s1))
                a, b = b, a
            return 'if !%s.ok { None } else if starts(%s.at, %s) { let %s = moved(%s, %s.len()); %s } else { %s }' % (c.s, c.s, t, s1, c.s, t, a, b)
        cnd, g = self.guarded(lambda: self.cond(n.cond, c))
        return self.under(g, 'if %s { %s } else { %s }' % (cnd, f(n.then, c), els(c)))
    def match_(self, n, c, f):
        x = n.x
        if not (x.kind == 'mcall' and x.name == 'next' and not x.args and self.state(x.x, c) == c.s):
            self.bad(n, 'match')
        s1, ch = self.fresh('s'), self.fresh('ch')
        def arms(has, i, c1):
            if i == len(n.arms):
                return 'None'
            a = n.arms[i]
            p = a.pat
            while p.kind == 'pat_paren':
                p = p.pat
            go = lambda c2, close=lambda t: t: close(f(a.body, c2))
            if p.kind == 'pat_wild' or p.kind == 'pat_ident' and p.name == 'None' or p.kind == 'pat_path' and p.path == 'None':
                if p.kind != 'pat_wild' and has:
                    return arms(has, i + 1, c1)
                if a.guard is not None:
                    self.bad(n, 'guard')
                return f(a.body, c1)
            if p.kind == 'pat_tstruct' and p.path == 'Some' and len(p.items) == 1:
                if not has:
                    return arms(has, i + 1, c1)
                q = p.items[0]
                t = self.t(q)
                if t == '_':
                    if a.guard is not None:
                        self.bad(n, 'guard')
                    return f(a.body, c1)
                if not t.startswith('vxh_'):
                    self.bad(n, 'pattern')
                h = t[4:]
                e2 = self.fresh('e')
                r = self.fresh('r')
                inner = f(a.body, c1.on(e=e2))
                mk = 'Fl { go: %s.go, s: %s.s, e: unbound(%s.e, %s, %s.vx_names()) }' % (r, r, r, c1.e, h) if c1.loop else 'Rs { s: %s.s, e: unbound(%s.e, %s, %s.vx_names()) }' % (r, r, c1.e, h)
                body = '{ let %s = bound(%s, %s.vx_names(), %s.vx_parts(Val::Char(%s))); match (%s) { None => None, Some(%s) => Some(%s) } }' % (e2, c1.e, h, h, ch, inner, r, mk)
                if a.guard is not None:
                    g = self.hole(a.guard)
                    if not g:
                        self.bad(a.guard, 'guard')
                    return 'if holds(%s, %s.vx_name(), %s) %s else { %s }' % (g, h, ch, body, arms(has, i + 1, c1))
                return body
            self.bad(n, 'pattern')
        return 'if !%s.ok { None } else if %s.at < text().len() { let %s = text()[%s.at as int]; let %s = moved(%s, 1); %s } else { %s }' % (
            c.s, c.s, ch, c.s, s1, c.s, arms(True, 0, c.on(s=s1)), arms(False, 0, c))
    def breaks(self, n):
        if n.kind == 'break':
            return True
        return n.kind not in ('loop', 'while', 'for', 'closure') and any(self.breaks(x) for x in n.children())
    def block(self, b, c, valued):
        e0 = c.e
        names = []
        stmts = list(b.stmts)
        tail = b.tail
        if not valued and tail is not None:
            stmts.append(rs.Node('expr_stmt', tail.s, tail.e, x=tail, semi=False))
            tail = None
        def end(s, c1):
            if not names:
                return self.done(s, c1)
            return self.done(s, c1.on(e='unbound(%s, %s, seq![%s])' % (c1.e, e0, ', '.join(names))))
        def go(i, c1):
            if i == len(stmts):
                if not valued:
                    return end(c1.s, c1)
                if tail is None:
                    self.bad(b, 'a block without value')
                return self.code(tail, c1, end)
            st = stmts[i]
            nxt = lambda c2: go(i + 1, c2)
            if st.kind == 'let':
                if st.els is not None or st.init is None:
                    self.bad(st)
                p, x = st.pat, st.init
                while p.kind == 'pat_paren':
                    p = p.pat
                if p.kind == 'pat_ident' and p.name.startswith('vxh_'):
                    h = p.name[4:]
                    v, g = self.guarded(lambda: self.val(x, c1))
                    if '%s.vx_name()' % h not in names:
                        names.append('%s.vx_name()' % h)
                    e1 = self.fresh('e')
                    return self.under(g, '{ let %s = set(%s, %s.vx_name(), %s); %s }' % (e1, c1.e, h, v, nxt(c1.on(e=e1))))
                if p.kind == 'pat_ident' and p.name == 'state':
                    if not valued:
                        self.bad(st, 'a state of its own in a block without value')
                    def k(s, c2):
                        s1 = self.fresh('s')
                        return '{ let %s = %s; %s }' % (s1, s, nxt(c2.on(s=s1)))
                    return self.code(x, c1, k)
                if p.kind == 'pat_ident':
                    if x.kind == 'mcall' and x.name in ('is_successful', 'is_failed') or x.kind == 'unary':
                        l = self.fresh('b')
                        c2 = c1.on()
                        cnd, g = self.guarded(lambda: self.cond(x, c1))
                        c2.locs[p.name] = ('bool', l)
                        return self.under(g, '{ let %s = %s; %s }' % (l, cnd, nxt(c2)))
                    def k(s, c2):
                        l = self.fresh('s')
                        c3 = c2.on()
                        c3.locs[p.name] = ('state', l)
                        return '{ let %s = %s; %s }' % (l, s, nxt(c3))
                    return self.code(x, c1, k)
                if p.kind == 'pat_tuple' and len(p.items) == 2 and x.kind == 'mcall' and x.name == 'extract_data' and not x.args:
                    s = self.state(x.x, c1)
                    a, q = p.items
                    t = self.t(q)
                    if s and a.kind == 'pat_ident' and t.startswith('vxh_'):
                        h = t[4:]
                        l, e1 = self.fresh('s'), self.fresh('e')
                        c2 = c1.on(e=e1)
                        c2.locs[a.name] = ('state', l)
                        names_of = '%s.vx_names()' % h
                        self.bulk = getattr(self, 'bulk', []) + [names_of]
                        rest = self.with_bulk(go, i + 1, c2, names_of, e0, c1)
                        return 'if %s.ok && %s.data is Some { let %s = extracted(%s); let %s = bound(%s, %s, %s.vx_parts(%s.data.unwrap())); %s } else { None }' % (s, s, l, s, e1, c1.e, names_of, h, s, rest)
                self.bad(st, 'let')
            if st.kind != 'expr_stmt':
                self.bad(st)
            x = st.x
            if x.kind == 'break':
                if not c1.loop:
                    self.bad(x)
                return 'Some(Fl { go: false, s: %s, e: %s })' % (c1.s, c1.e) if not names else self.bad(x, 'break out of a scope')
            if x.kind == 'assign':
                if x.op == '=' and x.l.kind == 'path' and x.l.text == 'state':
                    def k(s, c2):
                        s1 = self.fresh('s')
                        return '{ let %s = %s; %s }' % (s1, s, nxt(c2.on(s=s1)))
                    return self.code(x.r, c1, k)
                l = x.l
                if l.kind == 'unary' and l.op == '*':
                    l = l.x
                h = self.hole(l)
                if h and x.op in ('=', '+='):
                    v, g = self.guarded(lambda: self.val(x.r, c1))
                    if x.op == '+=':
                        v = 'Val::Count(number(%s.vx_val(%s, %s)) + number(%s))' % (h, c1.s, c1.e, v)
                    e1 = self.fresh('e')
                    return self.under(g, '{ let %s = set(%s, %s.vx_name(), %s); %s }' % (e1, c1.e, h, v, nxt(c1.on(e=e1))))
                self.bad(x)
            h = self.hole(x)
            if h:     # a statement
                r = self.fresh('r')
                return 'match %s.vx_step(vx_n, %s, %s) { None => None, Some(%s) => %s }' % (h, c1.s, c1.e, r, nxt(c1.on(s='%s.s' % r, e='%s.e' % r)))
            if x.kind == 'mcall':
                if self.state(x.x, c1) == c1.s and x.name == 'error' and len(x.args) == 1:
                    s1 = self.fresh('s')
                    return 'if %s.ok { let %s = erred(%s, %s); %s } else { None }' % (c1.s, s1, c1.s, self.text(x.args[0]), nxt(c1.on(s=s1)))
                if self.state(x.x, c1) == c1.s and x.name == 'discard_data' and not x.args:
                    s1 = self.fresh('s')
                    return '{ let %s = St { data: None, ..%s }; %s }' % (s1, c1.s, nxt(c1.on(s=s1)))
                hh = self.hole(x.x)
                if hh and x.name == 'push' and len(x.args) == 1:
                    v, g = self.guarded(lambda: self.val(x.args[0], c1))
                    e1 = self.fresh('e')
                    return self.under(g, '{ let %s = set(%s, %s.vx_name(), pushed(%s.vx_val(%s, %s), %s)); %s }' % (e1, c1.e, hh, hh, c1.s, c1.e, v, nxt(c1.on(e=e1))))
            if x.kind == 'loop':
                s1, e1, r = self.fresh('s'), self.fresh('e'), self.fresh('r')
                body = self.block(x.body, Ctx(s1, e1, c1.locs, True), False)
                return 'match iterate(vx_n, |%s: St, %s: Env| -> Option<Fl> { %s }, %s, %s) { None => None, Some(%s) => %s }' % (s1, e1, body, c1.s, c1.e, r, nxt(c1.on(s='%s.s' % r, e='%s.e' % r)))
            if x.kind == 'if':
                last = i + 1 == len(stmts) and tail is None and not names and not valued
                t = self.if_(x, c1, lambda b2, c2: self.block(b2, c2, False) if b2.kind == 'block' else self.block(b2.b, c2, False) if b2.kind == 'blockexpr' else self.bad(b2))
                if last:
                    return t
                r = self.fresh('r')
                rest = nxt(c1.on(s='%s.s' % r, e='%s.e' % r))
                if c1.loop and self.breaks(x):
                    rest = 'if !%s.go { Some(%s) } else { %s }' % (r, r, rest)
                return 'match (%s) { None => None, Some(%s) => %s }' % (t, r, rest)
            if x.kind == 'blockexpr':
                r = self.fresh('r')
                t = self.block(x.b, c1, False)
                rest = nxt(c1.on(s='%s.s' % r, e='%s.e' % r))
                if c1.loop and self.breaks(x):
                    rest = 'if !%s.go { Some(%s) } else { %s }' % (r, r, rest)
                return 'match (%s) { None => None, Some(%s) => %s }' % (t, r, rest)
            self.bad(x, 'statement')
        return go(0, c)
    def with_bulk(self, go, i, c, names_of, e0, c1):
        """the rest of a block after a pattern bound several names: they end with the block"""
        r = self.fresh('r')
        t = go(i, c)
        mk = 'Fl { go: %s.go, s: %s.s, e: unbound(%s.e, %s, %s) }' % (r, r, r, c1.e, names_of) if c.loop else 'Rs { s: %s.s, e: unbound(%s.e, %s, %s) }' % (r, r, c1.e, names_of)
        return 'match (%s) { None => None, Some(%s) => Some(%s) }' % (t, r, mk)
    # ---- entry points
    def as_code(self):
        return self.value(rs.parse_expr(self.src), Ctx('vx_s', 'vx_e'))
    def as_value(self):
        v, g = self.guarded(lambda: self.val(rs.parse_expr(self.src), Ctx('vx_s', 'vx_e')))
        if g and False:
            raise Unsupported('a value that may not exist')
        return v
    def as_stmt(self):
        self.src = '{' + self.src + '}'
        b = rs.parse_expr(self.src).b
        return self.block(b, Ctx('vx_s', 'vx_e'), False)
