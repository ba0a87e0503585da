"""Bounded replay of the front and the middle end: random grammars are fed to /repo's liboak (lib/oakx.py), and what it
makes of them (structure, resolved names, types, warnings, refusals) is compared with what their text means, computed
here from the tree the text was printed from."""
import itertools, os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import peg, oakx, replay as rp
from peg import N, INV, UNIT, ATOM, EXT

# ---- printing a tree as grammar text

def text(n, lvl, r, noisy):
    """`lvl`: what the context admits (see peg.show); extra parentheses and blanks are put in at random"""
    sp = (lambda: r.choice([' ', ' ', ' ', '  ', '\n   ', ' /* c */ ', ' // c\n '])) if noisy else (lambda: ' ')
    no = (lambda: r.choice(['', '', '', ' '])) if noisy else (lambda: '')
    k = n.k
    sub = lambda c, l: text(c, l, r, noisy)
    if k == 'choice':
        o, l = (sp() + '/' + sp()).join(sub(c, 1) for c in n.c), 0
    elif k == 'action':
        o, l = sub(n.c[0], 1 if n.c[0].k in ('span', 'range') else 2) + sp() + '>' + sp() + ('box ' if n.a[0] else '') + n.a[1], 1
    elif k == 'span':
        o, l = '..' + sp() + sub(n.c[0], 2), 1
    elif k == 'range':
        o, l = '...' + sp() + sub(n.c[0].c[0], 2), 1
    elif k == 'seq':
        o, l = sp().join(sub(c, 3) for c in n.c), 2
    elif k == 'ty':
        t = {'unit': '()', 'inv': '(^)'}.get(n.a[0]) or ('(' + n.a[1] + ')' if n.a[1][0] != '(' else n.a[1])
        o, l = sub(n.c[0], 4) + no() + ':' + no() + t, 3
    elif k in ('not', 'and'):
        o, l = ('!' if k == 'not' else '&') + no() + sub(n.c[0], 5), 4
    elif k in ('star', 'plus', 'opt'):
        o, l = sub(n.c[0], 6) + no() + {'star': '*', 'plus': '+', 'opt': '?'}[k], 5
    elif k == 'str':
        o, l = peg.lit(n.a), 6
    elif k == 'any':
        o, l = '.', 6
    elif k == 'class':
        o, l = '[' + peg.lit(n.src) + ']', 6
    else:
        o, l = n.a, 6
    if l < lvl or noisy and r.random() < .12:
        return '(' + no() + o + (no() if not o.endswith('\n ') else '') + ')'
    return o

class Cls(N):
    __slots__ = ('src',)
    def __init__(self, src):
        N.__init__(self, 'class', peg.char_class(src))
        self.src = src

class G:
    """a grammar: rules, functions, and the text they are printed as"""
    def __init__(self, rules, fns=(), r=None, noisy=False, items=()):
        self.rules, self.fns = list(rules), list(fns)
        r = r or random.Random(0)
        parts = []
        for n, e, ty in ((x + (None,))[:3] for x in self.rules):
            if e.k == 'ty' and r.random() < .5:      # `n: T = e` is `n = e:T`
                t = {'unit': '()', 'inv': '(^)'}.get(e.a[0]) or '(' + e.a[1] + ')'
                parts.append('%s:%s = %s' % (n, t, text(e.c[0], 0, r, noisy)))
            else:
                parts.append('%s = %s' % (n, text(e, 0, r, noisy)))
        for f, ret in self.fns:
            parts.insert(r.randint(0, len(parts)) if noisy else len(parts), 'fn %s()%s { }' % (f, ' -> ' + ret if ret else ''))
        self.parts = parts
        self.text = '\n'.join(parts) + '\n'
        self.rule = {}
        for n, e in self.rules:
            self.rule.setdefault(n, e)
    def nodes(self):
        for _, e in self.rules:
            yield from peg.walk(e)

def blank(t):
    return re.sub(r'\s+', '', t)

def tup(n):
    """a tree as nested tuples"""
    k = n.k
    c = [tup(x) for x in n.c]
    if k == 'class':
        return ('class', tuple((ord(a), ord(b)) for a, b in n.a))
    if k == 'action':
        return ('action', c[0], n.a[0], n.a[1])
    if k == 'ty':
        return ('ty', c[0], tuple(n.a))
    if k in ('seq', 'choice'):
        return (k, tuple(c))
    if k in ('str', 'ext'):
        return (k, n.a)
    return (k,) + tuple(c)

ITY = {'unit': ('unit',), 'invisible': ('inv',)}
def arena(es, i, names=None):
    """the tree at index i of an arena of oak, in the same form; `names` collects node indexes in preorder"""
    if names is not None:
        names.append(i)
    e = es[i]
    k = e[0]
    sub = lambda j: arena(es, j, names)
    if k == 'class':
        return ('class', tuple((a, b) for a, b in e[1]))
    if k == 'action':
        return ('action', sub(e[1]), e[2], blank(e[3]))
    if k == 'ty':
        return ('ty', sub(e[1]), ITY.get(e[2][0]) or ('rust', unparen(blank(e[2][1]))))
    if k in ('seq', 'choice'):
        return (k, tuple(sub(j) for j in e[1]))
    if k == 'str':
        return (k, e[1])
    if k in ('ext', 'nt'):
        return (k, blank(e[1]))
    return (k,) + tuple(sub(j) for j in e[1:])

def unparen(t):
    return t[1:-1] if t.startswith('(') and t.endswith(')') else t

# ---- random trees

CLSRC = ['a', 'ab', 'a-c', '-a', 'a-', '0-9', 'a-cx-z', '-a-z', 'a-z-', 'é', 'à-ï', 'z-a', 'a-a', 'b0-9_', '--']
LITS = ['a', 'b', 'ab', '', 'é', '"', '\\', '\n', 'let', '(', '/', ' ']
TYS = ['u32', 'String', 'a::B', 'Vec<u8>', 'Box<T>']
PATHS = ['f', 'g', 'm::f', 'a::b::c']

def tree(r, d, names, cfg):
    k = r.random()
    if d <= 0 or k < cfg.get('leaf', .22):
        x = r.random()
        if x < .45:
            return N('str', r.choice(cfg.get('lits', LITS)))
        if x < .55:
            return N('any')
        if x < .75 or not names:
            return Cls(r.choice(cfg.get('cls', CLSRC)))
        return N('ext', r.choice(names))
    w = cfg.get('w') or dict(seq=20, choice=16, star=5, plus=6, opt=8, **{'not': 5, 'and': 5}, action=8, span=4, range=3, ty=8)
    k = r.choices(list(w), list(w.values()))[0]
    sub = lambda: tree(r, d - 1, names, cfg)
    if k in ('seq', 'choice'):
        n = r.choice([2, 2, 3, 4])
        if r.random() < cfg.get('wide', .012):      # many at once
            n, sub = r.randint(6, 40), lambda: tree(r, r.choice([0, 0, 0, 1]), names, dict(cfg, wide=0))
        cs = [sub() for _ in range(n)]
        return N(k, None, cs)
    if k == 'action':
        return N('action', (r.random() < .2, r.choice(cfg.get('acts', PATHS))), [sub()])
    if k == 'range':
        return N('range', None, [N('ty', ('unit',), [sub()])])
    if k == 'ty':
        x = r.random()
        rust = cfg.get('tys', TYS)
        return N('ty', ('unit',) if x < .3 else ('inv',) if x < .5 or not rust else ('rust', r.choice(rust)), [sub()])
    return N(k, None, [sub()])

def many(r, cfg, n, calls, names=None):
    """n rules with names that differ late, most of them small; rule i calls rule calls(i), if there is one"""
    names = names or [r.choice(['rule_number_%03d', 'a_name_that_is_not_short_at_all_%d', 'u%d']) % i for i in range(n)]
    rules = []
    for i in range(n):
        e = tree(r, r.choice([0, 0, 1]), [], dict(cfg, wide=0))
        j = calls(i)
        if j is not None:
            c = N('ext', names[j])
            e = r.choice([c, N('seq', None, [c, e]), N('choice', None, [N('seq', None, [N('str', 'k'), e]), c]), N('seq', None, [N('str', 'k'), c])])
        rules.append((names[i], e))
    return rules

# ---- results

class Out:
    """what oak does with one grammar"""
    def __init__(self, g, o):
        self.g, self.o = g, o
        self.syntax = o.get('syntax_error')
        self.front = o.get('front')
        self.an = o.get('analysis')
        self.typed = o.get('typed')
        self.diags = o.get('diags', [])
        self.panic = o.get('panic')
        self.crash = o.get('crash')
        self.errors = [d for d in self.diags if d['level'] == 'error']

def feed(gs):
    out = []
    for i in range(0, len(gs), 4000):
        out += [Out(g, o) for g, o in zip(gs[i:i + 4000], oakx.run([g.text for g in gs[i:i + 4000]]))]
    CRASHED.extend(o for o in out if o.crash and not o.typed)
    return out
CRASHED = []

def fail(R, g, why):
    if len(R.failures) < 8:
        R.failures.append('grammar %s -- %s' % (' ; '.join(g.parts) if hasattr(g, 'parts') else repr(g.text), why))

# ---- C10: classes

def c10(R, tier, seed):
    al = 'ab-é' if tier == 'quick' else 'abz-é'
    srcs = [''.join(t) for n in range(0, 7 if tier == 'quick' else 8) for t in itertools.product(al, repeat=n)]
    r = random.Random(seed)
    for _ in range(2000 if tier == 'quick' else 20000):
        srcs.append(''.join(r.choice('az09---é€😀\\"_ \n') for _ in range(r.randint(1, 9))))
    class T: pass
    gs = []
    for s in srcs:
        g = T()
        g.text = 'r = [' + peg.lit(s) + ']\n'
        gs.append(g)
    R.rule = 'the text of a class: every string over %r of up to %d characters, and random ones; non-trivial: a class with a range or a hyphen' % (al, 6 if tier == 'quick' else 7)
    for s, o in zip(srcs, feed(gs)):
        R.evaluations += 1
        R.nontrivial += '-' in s
        try:
            want = tuple((ord(a), ord(b)) for a, b in peg.char_class(s))
        except peg.GrammarError:
            want = None
        got = None
        if o.front and o.front['exprs']:
            got = arena(o.front['exprs'], o.front['rules'][0][1])[1]
        if want is None and not o.syntax:
            fail(R, o.g, 'the class %r is malformed and was not refused' % s)
        elif want is not None and o.syntax:
            fail(R, o.g, 'the class %r was refused: %s' % (s, o.syntax[:80]))
        elif want is not None and cset(want) != cset(got):
            fail(R, o.g, 'the class %r was read as %s' % (s, got))
        elif want and len(R.samples) < 3 and len(want) > 2 and any(a < b for a, b in want):
            R.samples.append('%r -> %s' % (s, want))

def cset(iv):
    """the characters of a list of intervals, normalised"""
    out = []
    for a, b in sorted(x for x in iv if x[0] <= x[1]):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out

# ---- C11: structure

def c11(R, tier, seed):
    r = random.Random(seed * 77 + 11)
    names = ['x', 'y', 'r0', 'r1', 'm::p', 'type_', 'boxed']
    gs = []
    n = 2500 if tier == 'quick' else 40000
    for i in range(n):
        k = r.randint(1, 3)
        rules = [('r%d' % j, tree(r, r.choice([1, 2, 3, 4, 5]), names, {})) for j in range(k)]
        fns = [('f%d' % j, None) for j in range(r.randint(0, 2))] if r.random() < .3 else []
        gs.append(G(rules, fns, r, noisy=i % 3 != 0))
    # every nesting of two or three operators
    ops = ['seq', 'choice', 'star', 'plus', 'opt', 'not', 'and', 'action', 'span', 'range', 'ty']
    def mk(k, c):
        if k in ('seq', 'choice'):
            return [N(k, None, [c, N('str', 'a')]), N(k, None, [N('str', 'a'), c])]
        if k == 'action':
            return [N(k, (False, 'f'), [c]), N(k, (True, 'm::g'), [c])]
        if k == 'range':
            return [N(k, None, [N('ty', ('unit',), [c])])]
        if k == 'ty':
            return [N(k, ('unit',), [c]), N(k, ('inv',), [c]), N(k, ('rust', 'a::B'), [c])]
        return [N(k, None, [c])]
    for a, b, c in itertools.product(ops, ops, ops):
        for x in mk(c, N('ext', 'y')):
            for y in mk(b, x)[:2]:
                for z in mk(a, y)[:2]:
                    gs.append(G([('r', z)]))
    R.rule = 'random trees printed as grammar text (blanks, comments, redundant parentheses), every nesting of three operators printed with the fewest parentheses, and those texts with tokens dropped, doubled or swapped; non-trivial: three operators or more'
    for o in feed(gs):
        R.evaluations += 1
        nt = sum(1 for x in o.g.nodes() if x.c) >= 3
        R.nontrivial += nt
        if not o.front:
            fail(R, o.g, 'refused: %s' % (o.syntax or o.panic))
            continue
        es = o.front['exprs']
        got = [(a, arena(es, i)) for a, i in o.front['rules']]
        want = [(a, tup(e)) for a, e in o.g.rules]
        if got != want:
            fail(R, o.g, 'read as %s' % [g for g, w in zip(got, want) if g != w][:1])
        elif nt and len(R.samples) < 3 and R.evaluations % 701 == 5:
            R.samples.append(o.g.text.strip())
    # broken texts: refused, or read as the notation says
    class T: pass
    bad = []
    frag = ['"a"', '.', '..', '...', '/', '*', '+', '?', '!', '&', '(', ')', 'x', ':', '()', '(^)', '> f', '["b"]', '[]', '[""]', '["a--"]', ':()', 'r =', '[x]', '[ "a" ]', "'c'"]
    for i in range(n):
        if r.random() < .5:
            t = 'r = ' + ' '.join(r.choice(frag) for _ in range(r.randint(0, 6)))
        else:
            g = r.choice(gs)
            toks = [x[1] for x in peg.tokens(g.text)]
            j = r.randrange(len(toks))
            x = r.random()
            if x < .4:
                del toks[j]
            elif x < .7:
                toks.insert(j, r.choice(frag))
            else:
                toks.insert(j, toks[j])
            t = ' '.join(toks)
        T_ = T()
        T_.text = t
        bad.append(T_)
    for o in feed(bad):
        t = o.g.text
        if any(x in t for x in ('fn ', '->', '{', '}', '#', "'", '=')) and not re.match(r'r = [^={}#\']*$', t):
            continue
        if re.search(r'(?<!:):(?!:)(?!\s*\(\s*\^?\s*\))', re.sub(r'"(\\.|[^"\\])*"', '""', t)):
            continue       # a Rust type follows: left to syn
        if re.search(r'(?<!\w)\s*::|::\s*(?!\s*[A-Za-z_])|\bbox\s*::|::\s*box|(?<!>)\s*\bbox\b(?!ed)', re.sub(r'>\s+', '>', re.sub(r'\s*::\s*', '::', t))):
            continue       # likewise odd paths
        try:
            want = [(a, tup(e)) for a, e in raw_rules(t)]
        except peg.GrammarError:
            want = None
        R.evaluations += 1
        if o.front:
            got = [(a, arena(o.front['exprs'], i)) for a, i in o.front['rules']]
            if want is None:
                fail(R, o.g, 'not a grammar, and read as %s' % got[:1])
            elif got != want:
                fail(R, o.g, 'read as %s' % got[:1])
        elif want is not None and not o.panic:
            fail(R, o.g, 'refused: %s' % o.syntax)
        elif o.panic and not o.front:
            fail(R, o.g, 'the compiler panics: %s' % o.panic)

def raw_rules(t):
    """the rules of a text, names left unresolved"""
    p = peg.Parser(t)
    orig = peg.Grammar.finish
    peg.Grammar.finish = lambda s: s
    try:
        return p.grammar().rules
    finally:
        peg.Grammar.finish = orig

# ---- C12: duplicates

def c12(R, tier, seed):
    r = random.Random(seed * 131 + 12)
    gs = []
    for i in range(1500 if tier == 'quick' else 12000):
        pool = ['a', 'b', 'c', 'd', 'e', 'ab', 'A', 'a1', 'é'][:r.randint(1, 9)]
        n = r.randint(1, 6)
        if r.random() < .5:
            ns = [r.choice(pool) for _ in range(n)]
        else:
            ns = r.sample(pool, min(n, len(pool)))
        fpool = ['f', 'g', 'h', 'f1', 'a', 'b'][:r.randint(1, 6)]
        m = r.randint(0, 4)
        fs = [r.choice(fpool) for _ in range(m)] if r.random() < .5 else r.sample(fpool, min(m, len(fpool)))
        if i % 50 == 49:      # long lists, at most one name of them twice
            ns = ['name_%02d' % j for j in range(r.randint(10, 70))]
            fs = ['fun_%02d' % j for j in range(r.randint(10, 40))]
            for l in (ns, fs):
                if r.random() < .4:
                    a, b = r.sample(range(len(l)), 2)
                    l[a] = l[b]
        rules = [(x, N('str', 'k%d' % j)) for j, x in enumerate(ns)]
        gs.append(G(rules, [(f, None) for f in fs], r, noisy=True))
    R.rule = 'lists of up to 6 rules and 4 functions over small sets of names, and lists of up to 70 rules and 40 functions; non-trivial: a name occurs twice'
    for o in feed(gs):
        g = o.g
        names = [x for x, _ in g.rules]
        # (functions are put between the rules at random places: their order in the text is what counts)
        fns = re.findall(r'(?m)^fn (\w+)', g.text)
        dup = [x for i, x in enumerate(names) if x in names[:i]]
        fdup = [x for i, x in enumerate(fns) if x in fns[:i]]
        R.evaluations += 1
        nt = bool(dup or fdup)
        R.nontrivial += nt
        if o.panic and not nt or o.syntax:
            fail(R, g, 'refused: %s' % (o.panic or o.syntax))
            continue
        msgs = [d['msg'] for d in o.an['diags'] if d['level'] == 'error']
        if nt:
            if o.typed:
                fail(R, g, '%s defined twice, and accepted' % (dup + fdup)[0])
            missing = [x for x in dup if not any('rule' in m and '`%s`' % x in m for m in msgs)] + [x for x in fdup if not any('function' in m and '`%s`' % x in m for m in msgs)]
            if missing:
                fail(R, g, '%s is defined twice, and no error names it (%s)' % (missing[0], msgs))
            alien = [m for m in msgs if 'duplicate' in m and not any('`%s`' % x in m for x in dup + fdup)]
            if alien:
                fail(R, g, 'error about something defined once: %s' % alien[0])
        else:
            if msgs:
                fail(R, g, 'no name is defined twice: %s' % msgs[0])
            elif not o.typed:
                fail(R, g, 'refused: %s' % o.panic)
            elif [x for x, _ in o.typed['rules']] != names or [arena(o.typed['exprs'], i) for _, i in o.typed['rules']] != [tup(e) for _, e in g.rules]:
                fail(R, g, 'rules kept: %s' % o.typed['rules'])
            elif o.typed['functions'] != sorted(fns):
                fail(R, g, 'functions kept: %s' % o.typed['functions'])
        if nt and len(R.samples) < 3 and R.evaluations % 97 == 3:
            R.samples.append('%s: %s' % (' ; '.join(g.parts), msgs[:1]))

# ---- C13: names

def resolve(n, names):
    """what the tree is after resolution"""
    m = tup(n)
    def go(t):
        if t[0] == 'ext':
            return ('nt', t[1]) if t[1] in names else t
        return tuple(go(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS else tuple(go(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) and t[0] in ('seq', 'choice') else x for x in t)
    return go(m)
KINDS = {'str', 'any', 'class', 'ext', 'seq', 'choice', 'star', 'plus', 'opt', 'not', 'and', 'action', 'ty', 'span', 'range'}

def c13(R, tier, seed):
    r = random.Random(seed * 17 + 13)
    names = ['r0', 'r1', 'r2', 'r3', 'x', 'f', 'm::r0', 'r1::x', 'r', 'R0']
    gs = []
    for i in range(2500 if tier == 'quick' else 30000):
        k = r.randint(1, 4)
        rules = [('r%d' % j, tree(r, r.choice([1, 2, 3, 4]), names, dict(lits=['a', 'b'], cls=['a-c'], leaf=.15))) for j in range(k)]
        fns = [('f', 'u8'), ('r2', 'u8')][:r.randint(0, 2)]
        if i % 60 == 59:
            n = r.randint(10, 70)
            rules += many(r, dict(lits=['a'], cls=['a-c']), n, lambda j: r.randrange(n) if r.random() < .9 else None)
        gs.append(G(rules, fns, r))
    R.rule = 'random grammars that refer to rules, functions, external parsers and paths at every depth; non-trivial: at least one name denotes a rule'
    for o in feed(gs):
        g = o.g
        R.evaluations += 1
        have = set(g.rule)
        want = [resolve(e, have) for _, e in g.rules]
        nt = 'nt' in repr(want)
        R.nontrivial += nt
        src = o.an if o.an and 'exprs' in (o.an or {}) else None
        if src is None:
            continue       # refused: no resolved grammar comes out
        got = [arena(src['exprs'], i) for _, i in src['rules']]
        if got != want:
            d = [(x, y) for x, y in zip(got, want) if x != y][:1]
            if front_ok(o):
                fail(R, g, 'resolved to %s' % (d[0][0],) if d else 'rules are missing')
        elif nt and len(R.samples) < 3 and R.evaluations % 211 == 3:
            R.samples.append(' ; '.join(g.parts))

def front_ok(o):
    return [(a, arena(o.front['exprs'], i)) for a, i in o.front['rules']] == [(a, tup(e)) for a, e in o.g.rules]

# ---- C14: well-formedness

class Ford:
    """Ford's conservative relations: e can succeed without consuming (z), can succeed consuming (c), can fail (f)"""
    def __init__(self, g):
        self.g = g
        self.R = {n: frozenset() for n, _ in g.rules}
        while True:
            new = {n: self.R[n] | self.rel(e) for n, e in g.rule.items()}
            if new == self.R:
                break
            self.R = new
    def rel(self, e):
        k = e.k
        if k == 'str':
            return frozenset('cf') if e.a else frozenset('z')
        if k in ('any', 'class'):
            return frozenset('cf')
        if k in ('ext', 'nt'):
            return self.R[e.a] if e.a in self.R else frozenset('cf')
        c = [self.rel(x) for x in e.c]
        if k == 'seq':
            o = set()
            z, con = True, False
            alive = True
            for x in c:
                if alive and 'f' in x:
                    o.add('f')
                alive = alive and bool(x & {'z', 'c'})
                if not alive:
                    break
            if alive:
                if all('z' in x for x in c):
                    o.add('z')
                if any('c' in x for x in c):
                    o.add('c')
            return frozenset(o)
        if k == 'choice':
            o = set()
            reach = True
            for x in c:
                if not reach:
                    break
                o |= x & {'z', 'c'}
                reach = 'f' in x
            if reach:
                o.add('f')
            return frozenset(o)
        x = c[0]
        if k == 'star':
            return frozenset((['c'] if 'c' in x else []) + (['z'] if 'f' in x else []))
        if k == 'plus':
            return frozenset((['c'] if 'c' in x else []) + (['f'] if 'f' in x else []) + (['z'] if 'z' in x else []))
        if k == 'opt':
            return (x | {'z'} if 'f' in x else x) - {'f'}
        if k == 'and':
            return frozenset((['z'] if x & {'z', 'c'} else []) + (['f'] if 'f' in x else []))
        if k == 'not':
            return frozenset((['f'] if x & {'z', 'c'} else []) + (['z'] if 'f' in x else []))
        return x
    def head(self, e):
        """the rules that can be called at the position e starts at"""
        k = e.k
        if k in ('ext', 'nt'):
            return {e.a} if e.a in self.R else set()
        if k == 'seq':
            o = set()
            for x in e.c:
                o |= self.head(x)
                if 'z' not in self.rel(x):
                    break
            return o
        if k == 'choice':
            o = set()
            for x in e.c:
                o |= self.head(x)
                if 'f' not in self.rel(x):
                    break
            return o
        return set().union(*[self.head(x) for x in e.c]) if e.c else set()
    def danger(self):
        """None, or why some input may make a parser of the grammar run for ever"""
        for n, e in self.g.rules:
            for x in peg.walk(e):
                if x.k in ('star', 'plus') and 'z' in self.rel(x.c[0]):
                    return '`%s` in rule %s repeats what can match nothing' % (peg.show(x), n)
        heads = {n: self.head(e) for n, e in self.g.rule.items()}
        for n in heads:
            seen, todo = set(), list(heads[n])
            while todo:
                m = todo.pop()
                if m == n:
                    return 'rule %s can call itself at the same position' % n
                if m not in seen:
                    seen.add(m)
                    todo += heads[m]
        return None

def loops(g, inputs):
    """an input on which the meaning of the grammar runs for ever, found by running it"""
    for name in g.rule:
        for s in inputs:
            try:
                m = Runner(g, s)
                m.call(name, 0)
            except Loop as ex:
                return name, s, str(ex)
            except RecursionError:
                return name, s, 'too deep'
    return None

class Loop(Exception):
    pass

class Runner:
    """recognition with detection of re-entrance and of empty iterations"""
    def __init__(self, g, s):
        self.g, self.s, self.busy, self.memo, self.steps = g, s, set(), {}, 60000
    def call(self, name, i):
        if (name, i) in self.memo:
            return self.memo[name, i]
        if (name, i) in self.busy:
            raise Loop('rule %s is called again at position %d' % (name, i))
        self.busy.add((name, i))
        r = self.ev(self.g.rule[name], i)
        self.busy.discard((name, i))
        self.memo[name, i] = r
        return r
    def ev(self, e, i):
        self.steps -= 1
        if self.steps < 0:
            raise Loop('too many steps')
        k, s = e.k, self.s
        if k == 'str':
            return i + len(e.a) if s.startswith(e.a, i) else None
        if k == 'any':
            return i + 1 if i < len(s) else None
        if k == 'class':
            return i + 1 if i < len(s) and any(a <= s[i] <= b for a, b in e.a) else None
        if k in ('ext', 'nt'):
            if e.a in self.g.rule:
                return self.call(e.a, i)
            return i + 1 if i < len(s) and s[i] == 'a' else None
        if k == 'seq':
            for c in e.c:
                i = self.ev(c, i)
                if i is None:
                    return None
            return i
        if k == 'choice':
            for c in e.c:
                j = self.ev(c, i)
                if j is not None:
                    return j
            return None
        if k in ('star', 'plus'):
            n = 0
            while True:
                j = self.ev(e.c[0], i)
                if j is None:
                    break
                if j == i:
                    raise Loop('`%s` repeats an empty match at position %d' % (peg.show(e), i))
                i = j
                n += 1
            return i if n or k == 'star' else None
        if k == 'opt':
            j = self.ev(e.c[0], i)
            return i if j is None else j
        if k == 'not':
            return i if self.ev(e.c[0], i) is None else None
        if k == 'and':
            return i if self.ev(e.c[0], i) is not None else None
        return self.ev(e.c[0], i)

def c14(R, tier, seed):
    r = random.Random(seed * 53 + 14)
    inputs = [''.join(t) for n in range(0, 5) for t in itertools.product('ab', repeat=n)]
    gs = []
    cfg = dict(lits=['a', 'b', 'ab', ''], cls=['a', 'ab'], leaf=.28, acts=['f'], tys=['u8'],
               w=dict(seq=24, choice=16, star=7, plus=7, opt=9, **{'not': 7, 'and': 7}, action=2, span=2, range=2, ty=3))
    for i in range(6000 if tier == 'quick' else 100000):
        k = r.randint(1, 4)
        names = ['r%d' % j for j in range(k)] + ['x']
        gs.append(G([('r%d' % j, tree(r, r.choice([1, 2, 2, 3]), names, cfg)) for j in range(k)], [], r))
    # systematic: a rule under every pair of operators, called again at once or after a prefix
    a = lambda: N('str', 'a')
    pre = [lambda: N('opt', None, [a()]), lambda: N('star', None, [a()]), lambda: N('not', None, [a()]), lambda: N('and', None, [a()]), lambda: N('str', ''), a,
           lambda: N('plus', None, [a()]), lambda: N('choice', None, [a(), N('str', '')]), lambda: N('choice', None, [a(), N('str', 'b')]), lambda: N('ext', 'x'),
           lambda: N('ext', 's'), lambda: N('seq', None, [N('opt', None, [a()]), N('star', None, [N('str', 'b')])]),
           lambda: N('choice', None, [N('not', None, [a()]), a()]), lambda: N('opt', None, [N('ext', 's')]), lambda: N('choice', None, [N('ext', 's'), a()])]
    post = [lambda c: c, lambda c: N('opt', None, [c]), lambda c: N('plus', None, [c]), lambda c: N('and', None, [c]), lambda c: N('not', None, [c]), lambda c: N('star', None, [c]),
            lambda c: N('choice', None, [a(), c]), lambda c: N('choice', None, [c, a()]), lambda c: N('seq', None, [c, a()]), lambda c: N('seq', None, [a(), c]),
            lambda c: N('action', (False, 'f'), [c]), lambda c: N('ty', ('unit',), [c]), lambda c: N('span', None, [c]), lambda c: N('range', None, [N('ty', ('unit',), [c])])]
    for p in pre:
        for q in post:
            for t in ('r', 's'):
                for s in (lambda: N('choice', None, [N('seq', None, [N('str', 'b'), N('ext', 'r')]), a()]), lambda: N('choice', None, [a(), N('seq', None, [N('opt', None, [N('str', 'b')]), N('ext', 'r')])]),
                          lambda: N('choice', None, [a(), N('str', '')]), lambda: N('choice', None, [N('str', 'b'), N('ext', 't')])):
                    gs.append(G([('r', N('choice', None, [N('seq', None, [p(), q(N('ext', t))]), N('str', 'b')])), ('s', s()), ('t', N('choice', None, [N('seq', None, [N('opt', None, [a()]), N('ext', 's')]), N('str', 'b')]))]))
    # a rule that calls itself under an operator, and an alternative deciding what it can do
    for q in post:
        for last in pre:
            for order in (0, 1):
                for top in ('r', 's'):
                    alts = [N('seq', None, [N('str', 'b'), q(N('ext', top))]), last()]
                    gs.append(G([('r', N('choice', None, alts[::-1] if order else alts)), ('s', N('seq', None, [N('opt', None, [a()]), N('ext', 'r')]))] + [('x', N('str', 'a'))]))
    for n in (5, 9, 17, 33, 70):      # long rings: what one of the rules reads (or does not read) decides
        for lead in pre:
            for at in (0, n // 2, n - 1):
                gs.append(G([('ring_%02d' % i, N('choice', None, [N('seq', None, ([lead()] if i == at else [N('opt', None, [a()])] if i % 3 else []) + [N('ext', 'ring_%02d' % ((i + 1) % n)), a()]), N('str', 'b')])) for i in range(n)] + [('s', a())]))
    R.rule = 'random grammars over few letters with the empty literal, and every prefix operator in front of a recursive call under every operator; each accepted one is checked for empty repetitions and calls at the same position, by an abstract analysis and by running its meaning on every text over ab of up to 4 characters; non-trivial: the grammar is dangerous, or accepted and recursive'
    for o in feed(gs):
        g = o.g
        R.evaluations += 1
        if not o.front:
            continue
        why = Ford(g).danger()
        accepted = bool(o.an) and o.an['kind'] == 'value'
        R.nontrivial += bool(why) or accepted and any(x.k == 'ext' and x.a in g.rule for x in g.nodes())
        if o.an is None and o.panic:
            fail(R, g, 'the analysis panics: %s' % o.panic)
        if accepted and why:
            l = loops(g, inputs)
            fail(R, g, 'accepted, although %s%s' % (why, '' if l is None else ' (on %r: %s)' % (l[1], l[2])))
        elif accepted:
            l = loops(g, inputs) if R.evaluations % 7 == 0 else None
            if l:
                fail(R, g, 'accepted, and rule %s runs for ever on %r: %s' % l)
        if why and len(R.samples) < 3 and R.evaluations % 401 == 3:
            R.samples.append('%s: %s' % (' ; '.join(g.parts), why))

# ---- C16: chains

def inner(e, g, depth=0):
    """the predicate or repetition an expression amounts to, and whether a rule was entered to see it"""
    k = e.k
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return k, False
    if k in ('ext', 'nt') and e.a in g.rule:
        return (inner(g.rule[e.a], g, depth + 1)[0], True) if depth < 50 else (None, True)
    if k == 'choice':
        cr = False
        for c in e.c:
            o, x = inner(c, g, depth)
            if o != 'and':
                return None, False
            cr = cr or x
        return 'and', cr
    if k in ('action', 'ty', 'span', 'range'):
        return inner(e.c[0], g, depth)
    return None, False

CHAIN = {('not', 'not'): ('!(!e)', '&e', True), ('and', 'and'): ('&(&e)', '&e', False), ('not', 'and'): ('!(&e)', '!e', True), ('and', 'not'): ('&(!e)', '!e', False),
         ('opt', 'opt'): ('(e?)?', 'e?', False), ('opt', 'plus'): ('(e+)?', 'e*', True), ('opt', 'star'): ('(e*)?', 'e*', False),
         ('plus', 'plus'): ('(e+)+', 'e+', False), ('star', 'plus'): ('(e+)*', 'e*', True), ('star', 'star'): ('(e*)*', 'e*', False)}

def chains(e, g):
    """the expressions warned about, with form and replacement (what lies inside one is not looked at)"""
    if e.k in ('star', 'plus', 'opt', 'not', 'and'):
        o, crossed = inner(e.c[0], g)
        w = CHAIN.get((e.k, o))
        if w and not (w[2] and crossed):
            return [(e, w[0], w[1])]
    return [x for c in e.c for x in chains(c, g)]

def c16(R, tier, seed):
    r = random.Random(seed * 29 + 16)
    gs = []
    cfg = dict(lits=['a', 'b'], cls=['a', 'ab'], leaf=.2, acts=['f'], tys=[],
               w=dict(seq=14, choice=12, star=12, plus=16, opt=14, **{'not': 12, 'and': 12}, action=3, span=2, range=2, ty=3))
    for i in range(4000 if tier == 'quick' else 60000):
        k = r.randint(1, 3)
        gs.append(G([('r%d' % j, tree(r, r.choice([2, 3, 4]), ['r%d' % x for x in range(j)] + ['x'], cfg)) for j in range(k)], [], r))
    ops = ['star', 'plus', 'opt', 'not', 'and']
    mid = [lambda c: c, lambda c: N('seq', None, [c, N('str', 'b')]), lambda c: N('seq', None, [N('str', 'b'), c]), lambda c: N('choice', None, [c, N('str', 'b')]), lambda c: N('choice', None, [N('str', 'b'), c]),
           lambda c: N('choice', None, [N(c.k, None, [N('str', 'b')]), c]), lambda c: N('action', (False, 'f'), [c]), lambda c: N('ty', ('unit',), [c]), lambda c: N('span', None, [c])]
    for a, b, m in itertools.product(ops, ops, mid):
        for leaf in (N('str', 'a'), N('seq', None, [N('str', 'a'), N('any')]), N('choice', None, [N('str', 'a'), N('any')])):
            e = N(a, None, [m(N(b, None, [leaf]))])
            gs.append(G([('r', e)]))
            gs.append(G([('r', N(a, None, [N('ext', 's')])), ('s', m(N(b, None, [leaf])))]))
            gs.append(G([('r', N('seq', None, [N('str', 'k'), e])), ('s', N('choice', None, [N('str', 'k'), e]))]))
    for a, b in itertools.product(ops, ops):      # and through many rules, or many branches
        for n in (6, 20):
            gs.append(G([('r', N(a, None, [N('ext', 's0')]))] + [('s%d' % i, N('ext', 's%d' % (i + 1))) for i in range(n)] + [('s%d' % n, N(b, None, [N('str', 'a')]))]))
            gs.append(G([('r', N(a, None, [N('choice', None, [N(b, None, [N('str', 'a' + 'b' * i)]) for i in range(n)])]))]))
            gs.append(G([('r', N('seq', None, [N('str', 'b')] * n + [N(a, None, [N(b, None, [N('str', 'a')])])]))]))
    for a, b, m in itertools.product(ops, ops, mid):    # a chain without an end: refused, whatever the order of the analyses
        gs.append(G([('r', N(a, None, [m(N(b, None, [N('ext', 'r')]))]))]))
        gs.append(G([('r', N(a, None, [N('ext', 's')])), ('s', N('choice', None, [N('ext', 's'), N(b, None, [N('str', 'a')])]))]))
    R.rule = 'random grammars rich in predicates and repetitions, and every pair of operators with a sequence, a choice, an action, a type, a span or a rule between them; the warnings are compared with the chains the grammar has, and each suggested replacement with the expression it replaces on every text over ab of up to 4 characters; non-trivial: a chain is there'
    texts = [''.join(t) for n in range(0, 5) for t in itertools.product('ab', repeat=n)]
    for o in feed(gs):
        g = o.g
        R.evaluations += 1
        if not o.an or o.an['kind'] != 'value':
            continue
        sp = o.front['spans']
        want = []
        idx = {}
        for (n, e), (_, i) in zip(g.rules, o.front['rules']):
            ns = []
            arena(o.front['exprs'], i, ns)
            for x, j in zip(peg.walk(e), ns):
                idx[id(x)] = j
        ch = [x for _, e in g.rules for x in chains(e, g)]
        if len(idx) != len(set(idx.values())) or len(idx) != len(sp):
            continue
        want = sorted((sp[idx[id(e)]], form, repl) for e, form, repl in ch)
        got = sorted(warn(d) for d in o.an['diags'] if d['level'] == 'warning')
        R.nontrivial += bool(ch)
        if any(d['level'] == 'error' for d in o.an['diags']):
            fail(R, g, 'warnings come with errors')
        # soundness first: what is said must be true
        for s, form, repl in got:
            cand = [e for e in g.nodes() if sp[idx[id(e)]] == s and e.k in OPCH and form_ok(e, form, g)]
            if not cand:
                fail(R, g, 'a warning of the form %s points at %s, which is not of that form' % (form, s))
                continue
            if not any(equivalent(g, e, form, repl, texts) for e in cand):
                fail(R, g, '`%s` is said to be equivalent to `%s`, and is not' % (peg.show(cand[0]), repl))
        if [tuple(x) for x in want] != [tuple(x) for x in got] and want != got and len(R.failures) < 5:
            fail(R, g, 'warnings %s, chains in the grammar %s' % (got, want))
        if ch and len(R.samples) < 3 and R.evaluations % 301 == 3:
            R.samples.append('%s: %s' % (' ; '.join(g.parts), want))

OPCH = {'star': '*', 'plus': '+', 'opt': '?', 'not': '!', 'and': '&'}
def warn(d):
    f = re.search(r'of the form `(.*?)`', d['msg'])
    e = re.search(r'equivalent one `(.*?)`', d['msg'])
    return (d['span'], f.group(1) if f else '?', e.group(1) if e else '?')

def form_ok(e, form, g):
    outer = {'!': 'not', '&': 'and'}.get(form[0]) or {'*': 'star', '+': 'plus', '?': 'opt'}[form[-1]]
    return e.k == outer

def strip(e, g, depth=0):
    """the expression under the operator e amounts to"""
    if e.k in OPCH:
        return e.c[0]
    if e.k in ('ext', 'nt'):
        return strip(g.rule[e.a], g)
    if e.k == 'choice':
        return N('choice', None, [strip(c, g) for c in e.c])
    return strip(e.c[0], g)

def equivalent(g, e, form, repl, texts):
    try:
        x = strip(e.c[0], g)
    except (IndexError, KeyError):
        return False
    k = {'!': 'not', '&': 'and'}.get(repl[0]) or {'*': 'star', '+': 'plus', '?': 'opt'}.get(repl[-1])
    y = N(k, None, [x])
    for s in texts:
        for i in range(len(s) + 1):
            m = Runner(g, s)
            try:
                if m.ev(e, i) != m.ev(y, i):
                    return False
            except (Loop, RecursionError):
                return True
    return True

# ---- C17, C18: types

class Types:
    """the documented typing of a grammar. Recursive rules must carry an ascription or be direct recursion in a
    position that neither adds nor wraps a value."""
    def __init__(self, g):
        self.g = g
        self.fns = dict(g.fns)
        self.ty = {}          # id(node) -> surface type
        self.final = {}       # id(node) -> type
        self.mismatch = []    # choices whose branches do not unify
        self.wrong = []       # ascriptions that do not fit, and the like
        self.busy = []
        self.bad = False      # outside what this oracle decides
        for n, e in g.rules:
            self.rule(n)
        for n, e in g.rules:
            self.depth(e, False, None)
        for n, e in g.rules:
            if has_ext(self.cur(e)):
                self.wrong.append((e, 'could not infer'))
    def rule(self, n):
        e = self.g.rule[n]
        if id(e) in self.ty:
            return self.ty[id(e)]
        if n in self.busy:
            if self.busy[-1] != n:
                self.bad = True
            return ('rec', n)
        self.busy.append(n)
        t = self.surf(e)
        self.busy.pop()
        if t[0] == 'rec':
            t = INV
            self.ty[id(e)] = t
        return t
    def asc(self, a):
        return {'unit': UNIT, 'inv': INV}.get(a[0]) or ('rust', a[1])
    def surf(self, e):
        if id(e) in self.ty:
            return self.ty[id(e)]
        t = self.surf_(e)
        self.ty[id(e)] = t
        return t
    def surf_(self, e):
        k = e.k
        if k in ('str', 'not', 'and'):
            return INV
        if k in ('any', 'class'):
            return ATOM
        if k == 'ty':
            return self.asc(e.a)
        if k == 'action':
            if '::' in e.a[1] or e.a[1] not in self.fns:
                return EXT
            ret = self.fns[e.a[1]]
            if ret is None:
                self.wrong.append((e, 'unit action'))
                return UNIT
            if ret == '()':
                self.wrong.append((e, 'unit action'))
            return ('rust', 'Box<%s>' % ret if e.a[0] else ret)
        if k in ('ext', 'nt'):
            return self.rule(e.a) if e.a in self.g.rule else EXT
        if k in ('star', 'plus', 'opt'):
            t = self.surf(e.c[0])
            if t == INV:
                return INV
            if t[0] == 'rec':
                self.bad = True
            return ('opt' if k == 'opt' else 'list', t)
        if k == 'span':
            t = self.surf(e.c[0])
            if 'rec' in repr(t):
                self.bad = True
            return self.tuple([('rust', 'SPAN'), t])
        if k == 'range':
            self.surf(e.c[0])
            return ('rust', 'RANGE')
        if k == 'seq':
            return self.tuple([self.surf(c) for c in e.c])
        if k == 'choice':
            ts = [self.surf(c) for c in e.c]
            return self.unify(e, ts)
        raise AssertionError(k)
    def tuple(self, ts):
        ts = [x for t in ts for x in (t[1] if t[0] == 'tuple' else [t])]
        rec = [t for t in ts if t[0] == 'rec']
        if rec:
            if len(rec) > 1 or any(t[0] != 'rec' and t not in (INV, UNIT) for t in ts):
                self.bad = True
            return rec[0]
        ts = [t for t in ts if t != INV]
        if not ts:
            return INV
        ts = [t for t in ts if t != UNIT]
        return UNIT if not ts else ts[0] if len(ts) == 1 else ('tuple', tuple(ts))
    def unify(self, e, ts):
        d = []
        rec = [t for t in ts if t[0] == 'rec']
        for t in ts:
            if t[0] != 'rec' and not any(eqty(t, x) for x in d):
                d.append(t)
        if rec and d and not all(x in (INV, UNIT) for x in d) and len(self.busy) > 1:
            self.bad = True
        if not d:
            return rec[0]
        if len(d) == 1:
            return d[0]
        if len(d) == 2 and EXT in d:
            return d[0] if d[1] == EXT else d[1]
        if all(t in (INV, UNIT) for t in d):
            return INV
        self.mismatch.append(e)
        return INV
    def cur(self, e):
        return self.final.get(id(e)) or self.ty.get(id(e))
    def depth(self, e, unit, asc):
        """walk down: what an ascription says holds for the part that carries the value; within something without value
        nothing has one, but ascriptions nested in one another must still agree"""
        t = self.ty.get(id(e))
        if unit:
            self.final[id(e)] = self.ty[id(e)] = UNIT
            return self.below(e, True, asc)
        if t is None:
            self.bad = True
            return
        if t[0] == 'rec':
            n = t[1]
            t = self.ty.get(id(self.g.rule[n]), INV)
            self.ty[id(e)] = t
        if t in (INV, UNIT) and asc is None:
            self.final[id(e)] = t
            return self.below(e, True, None)
        if asc is not None:
            if t == EXT:
                t = asc
                self.ty[id(e)] = t
            elif not eqty(t, asc):
                self.wrong.append((e, 'found type'))
        self.final[id(e)] = t
        self.below(e, False, asc)
    def below(self, e, unit, asc):
        k = e.k
        if k == 'ty':
            if asc is not None and not eqty(self.asc(e.a), asc):
                self.wrong.append((e, 'found type'))
            if not unit:
                self.surf(e.c[0])
            self.depth(e.c[0], unit, self.asc(e.a))
        elif k == 'action':            # what an action is applied to is typed even where its value is dropped
            self.surf(e.c[0])
            self.depth(e.c[0], unit, None)
        elif k == 'seq' and asc is not None:
            for c in e.c:
                self.depth(c, unit, None if self.ty.get(id(c)) in (INV, UNIT) else asc)
        else:
            for c in e.c:
                self.depth(c, unit, asc)

def has_ext(t):
    return t is not None and (t == EXT or t[0] in ('opt', 'list') and has_ext(t[1]) or t[0] == 'tuple' and any(has_ext(x) for x in t[1]))

def eqty(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('opt', 'list'):
        return eqty(a[1], b[1])
    if a[0] == 'tuple':
        return len(a[1]) == len(b[1]) and all(eqty(x, y) for x, y in zip(a[1], b[1]))
    return a[0] != 'rust' or True

def arena_type(tys, i, depth=0):
    t = tys[i]
    k = t[0]
    if depth > 60:
        return ('deep',)
    if k in ('opt', 'list'):
        return (k, arena_type(tys, t[1], depth + 1))
    if k == 'tuple':
        return (k, tuple(arena_type(tys, j, depth + 1) for j in t[1]))
    if k == 'rust':
        s = blank(t[1])
        return EXT if s == '_' else ('rust', 'SPAN' if 'StreamSpan' in s else 'RANGE' if s.startswith('Range<') else unparen(s))
    return (k,)

def value_type(t):
    """for comparison: (^) and () are both no value"""
    if t in (INV, UNIT):
        return UNIT
    if t[0] in ('opt', 'list'):
        return (t[0], value_type(t[1]))
    if t[0] == 'tuple':
        return ('tuple', tuple(value_type(x) for x in t[1]))
    return t

def typed_grammars(tier, seed, what):
    r = random.Random(seed * 41 + 17)
    gs = []
    cfg = dict(lits=['a', 'b'], cls=['a', 'ab'], leaf=.28, acts=['f', 'g', 'h', 'm::k'], tys=['u8', 'S'],
               w=dict(seq=26, choice=10 if what == 'C17' else 24, star=7, plus=7, opt=9, **{'not': 4, 'and': 4}, action=10, span=5, range=3, ty=6))
    for i in range(5000 if tier == 'quick' else 60000):
        k = r.randint(1, 4)
        rules = []
        for j in range(k):
            e = tree(r, r.choice([1, 2, 3, 4]), ['r%d' % x for x in range(k) if x < j or r.random() < .2] + (['x'] if r.random() < .2 else []), cfg)
            if r.random() < .25:
                e = N('ty', r.choice([('unit',), ('inv',), ('rust', 'u8')]), [e])
            elif r.random() < .2:      # direct recursion that adds nothing
                e = N('choice', None, [N('seq', None, [N('str', '('), N('ext', 'r%d' % j), N('str', ')')]), e])
            rules.append(('r%d' % j, e))
        if i % 60 == 59:
            n = r.randint(6, 50)
            ring = r.random() < .5
            rules += many(r, cfg, n, (lambda j: j + 1 if j + 1 < n else 0 if ring else None), ['u%02d' % j for j in range(n)])
        r.shuffle(rules)
        gs.append(G(rules, [('f', 'u8'), ('g', 'String'), ('h', r.choice([None, '()', 'Vec<char>']))][:r.choice([2, 2, 3])], r))
    # branches of every pair and triple of types, in every order
    A = lambda: N('any')
    def variants():
        f = lambda *c: N('action', (False, 'f'), [N('str', 'z')])
        return [lambda: N('str', 'p'), lambda: N('ty', ('unit',), [A()]), A, lambda: N('star', None, [Cls('ab')]), lambda: N('opt', None, [Cls('a')]),
                lambda: N('seq', None, [Cls('a'), A()]), lambda: N('seq', None, [Cls('a'), N('str', '-'), A()]), lambda: N('seq', None, [Cls('a'), A(), A()]), f,
                lambda: N('action', (False, 'm::k'), [N('str', 'z')]), lambda: N('plus', None, [N('plus', None, [Cls('a')])]), lambda: N('and', None, [A()]),
                lambda: N('span', None, [Cls('c')]), lambda: N('range', None, [N('ty', ('unit',), [N('str', 'q')])]), lambda: N('seq', None, [N('star', None, [Cls('a')]), N('str', '|'), N('opt', None, [Cls('b')])]),
                lambda: N('seq', None, [N('opt', None, [Cls('a')]), N('str', '|'), N('star', None, [Cls('b')])]), lambda: N('opt', None, [N('seq', None, [Cls('a'), A()])])]
    V = variants()
    for n in (2, 3):
        for vs in itertools.product(range(len(V)), repeat=n):
            if n == 3 and tier == 'quick' and (sum(vs) + 7 * vs[0]) % 5:
                continue
            e = N('choice', None, [N('seq', None, [N('str', 'k%d' % i), V[v]()]) for i, v in enumerate(vs)])
            gs.append(G([('r', e)], [('f', 'u8')]))
            if n == 2:
                gs.append(G([('r', N('ty', ('rust', 'u8'), [N('choice', None, [N('seq', None, [N('str', 'k'), V[vs[0]]()]), V[vs[1]]()])]))], [('f', 'u8')]))
    # sequences of every pair (and many triples) of parts under an ascription: it is about the part that carries the value
    P = [lambda: N('str', 'p'), lambda: N('ty', ('unit',), [A()]), lambda: N('seq', None, [N('str', 'p'), N('ty', ('unit',), [A()])]), lambda: N('star', None, [N('str', 'q')]),
         lambda: N('and', None, [A()]), lambda: N('action', (False, 'f'), [N('str', 'z')]), lambda: N('action', (False, 'm::k'), [N('str', 'z')]), A,
         lambda: N('choice', None, [N('ty', ('unit',), [Cls('a')]), N('str', 'b')]), lambda: N('ext', 'w'), lambda: N('seq', None, [N('str', 'p'), N('action', (False, 'm::k'), [A()])])]
    for n in (2, 3):
        for vs in itertools.product(range(len(P)), repeat=n):
            if n == 3 and tier == 'quick' and (sum(vs) + 7 * vs[0] + 3 * vs[1]) % 4:
                continue
            e = N('ty', r.choice([('rust', 'u8'), ('rust', 'u8'), ('rust', 'S'), ('unit',)]) if n == 3 else ('rust', 'u8'), [N('seq', None, [P[v]() for v in vs])])
            if r.random() < .3:
                e = N('choice', None, [e, N('seq', None, [N('str', 'k'), N('action', (False, 'f'), [A()])])])
            gs.append(G([('r', e), ('w', N('seq', None, [N('str', 'w'), N('ty', ('unit',), [A()])]))], [('f', 'u8')]))
    return gs

# recursion that wraps or repeats the value of the rule itself: its type would be infinite
INFINITE = ['e = "(" e "," e ")" / ["0-9"]', 'expr = term ("+" term)*\nterm = factor ("*" factor)*\nfactor = "(" expr ")" / ["0-9"]']
# rule cycles whose types are found in the order given: no panic, and what is in them is nothing
CYCLES = ['q = r\nr = "a" r / "b" q', 'q = r\nr = "a" (r q)', 'q = r "z" / "y"\nr = "a" r / "b" q', 'p = q\nq = "q" r\nr = "a" r / "b" q / "c" p']
def c17_fixed(R):
    class T: pass
    gs = []
    for t in INFINITE + CYCLES:
        g = T()
        g.text, g.parts = t + '\n', t.split('\n')
        gs.append(g)
    for o in feed(gs):
        R.evaluations += 1
        if o.g.text.strip() in INFINITE:
            if o.typed and not o.errors:
                fail(R, o.g, 'accepted, although the branches of the recursion have different types')
        elif not o.errors and not o.typed:
            fail(R, o.g, 'no type was found, and no error says so: %s' % o.panic)

def c17_rings(R, tier, seed):
    """rules that refer to each other, each with a branch that is a literal, and nothing in them but literals and a rule of type `()`: none
    of them produces anything, so a repetition of one produces nothing either"""
    r = random.Random(seed * 71 + 5)
    L = lambda: N('str', r.choice('abcdefgh'))
    gs = []
    for i in range(600 if tier == 'quick' else 6000):
        k = r.randint(2, 4)
        ring = ['r%d' % j for j in range(k)]
        rules = []
        for j in range(k):
            bs = [L()]
            for b in range(r.randint(1, 3)):
                items = [N('ext', ring[(j + 1) % k] if b == 0 else r.choice(ring))] + [N('ext', 'x') if r.random() < .5 else L() for _ in range(r.randint(0, 2))]
                r.shuffle(items)
                bs.insert(0, N('seq', None, [L()] + items))
            rules.append((ring[j], N('choice', None, bs)))
        rules.append(('x', N('ty', ('unit',), [N('any')])))
        n = r.choice(ring)
        rules.append(('u', N('seq', None, [N(r.choice(['star', 'plus', 'opt']), None, [N('ext', n)]), N('any')])))
        r.shuffle(rules)
        gs.append(G(rules, []))
    for o in feed(gs):
        R.evaluations += 1
        g = o.g
        if not o.an or o.an['kind'] != 'value':
            continue
        if o.errors or not o.typed:
            fail(R, g, 'refused, although no rule produces a value: %s' % ([d['msg'] for d in o.errors] or o.panic))
            continue
        R.nontrivial += 1
        for n, i in o.typed['rules']:
            t = value_type(arena_type(o.typed['types'], i))
            want = ('atom',) if n == 'u' else UNIT
            if t != want:
                fail(R, g, '`%s` gets type %s, the rules say %s' % (n, t, want))
                break

def c17_18(R, tier, seed, what):
    if what == 'C17':
        c17_fixed(R)
        c17_rings(R, tier, seed)
    gs = typed_grammars(tier, seed, what)
    R.rule = 'random grammars with actions, ascriptions, spans and external parsers, and choices between every pair (and triples) of 17 shapes of type; the type of every expression and the refusals are compared with the documented rules; non-trivial: an expression with a list, an option or a tuple, or a mismatch'
    for o in feed(gs):
        g = o.g
        R.evaluations += 1
        if not o.an or o.an['kind'] != 'value':
            continue
        if what == 'C17' and not o.typed and not o.errors:
            fail(R, g, 'no type was found, and no error says so: %s' % o.panic)
            continue
        try:
            T = Types(g)
        except RecursionError:
            continue
        if T.bad:
            continue
        mis = [d for d in o.errors if 'Type mismatch between branches' in d['msg']]
        if what == 'C18':
            R.nontrivial += bool(T.mismatch)
            if T.mismatch and not mis:
                fail(R, g, 'the branches of `%s` have different types, and no error says so' % peg.show(T.mismatch[0]))
                continue
            if mis and not T.mismatch:
                fail(R, g, 'a mismatch between branches is reported, and there is none: %s' % [n[1] for n in mis[0]['notes']])
                continue
            if T.mismatch:
                if o.typed and not o.errors:
                    fail(R, g, 'accepted, although the branches of `%s` have different types' % peg.show(T.mismatch[0]))
                if len(R.samples) < 3 and R.evaluations % 301 == 3:
                    R.samples.append('%s: %s' % (' ; '.join(g.parts), [n[1] for n in mis[0]['notes']]))
                continue
        if T.mismatch or T.wrong:
            if o.typed and not o.errors and not T.mismatch and what == 'C17':
                fail(R, g, 'accepted, although: %s at `%s`' % (T.wrong[0][1], peg.show(T.wrong[0][0])))
            continue
        if o.errors or not o.typed:
            if what == 'C17' and any('found type' in d['msg'] or 'could not infer' in d['msg'] for d in o.errors):
                fail(R, g, 'refused, although the rules give it a type: %s' % [d['msg'] for d in o.errors][0])
            continue
        if len(o.typed['exprs']) - 1 != len(o.front['exprs']):
            continue
        bad = None
        for (n, e), (_, i) in zip(g.rules, o.typed['rules']):
            ns = []
            arena(o.typed['exprs'], i, ns)
            for x, j in zip(peg.walk(e), ns):
                want, got = value_type(T.cur(x)), value_type(arena_type(o.typed['types'], j))
                rich = want[0] in ('opt', 'list', 'tuple')
                if what == 'C17':
                    R.nontrivial += rich
                if want != got and (what == 'C17' or x.k == 'choice'):
                    bad = bad or (x, want, got)
                elif want != got:
                    R.elsewhere += 1
                elif rich and x.c and len(R.samples) < 3 and R.evaluations % 401 == 7:
                    R.samples.append('%s : %s' % (peg.show(x), got))
        if bad:
            fail(R, g, '`%s` gets type %s, the rules say %s' % (peg.show(bad[0]), bad[2], bad[1]))

FUN = {'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C16': c16,
       'C17': lambda R, t, s: c17_18(R, t, s, 'C17'), 'C18': lambda R, t, s: c17_18(R, t, s, 'C18')}

def replay(arg, tier, seed):
    R = rp.Replay()
    R.cmd = 'replay/oakx (lib/oakx.py) against lib/mid.py, ' + arg
    try:
        del CRASHED[:]
        FUN[arg](R, tier, seed)
        # neither accepted nor refused, whatever the grammar is
        cs = [o for o in CRASHED if bool(o.an) == (arg in ('C17', 'C18'))]
        if cs:
            o, known = min(cs, key=lambda o: len(o.g.text)), R.failures
            R.failures = []
            fail(R, o.g, o.panic)
            R.failures += [f for f in known if f not in R.failures]
        elif CRASHED:
            R.elsewhere += len(CRASHED)
    except oakx.Unavailable as ex:
        R.error = str(ex)
    return R

if __name__ == '__main__':
    import time
    for a in sys.argv[1].split(','):
        t = time.time()
        R = replay(a, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
        print(a, R.evaluations, R.nontrivial, R.elsewhere, R.error, len(R.failures), '%.1fs' % (time.time() - t))
        print('\n'.join(x[:600] for x in R.failures))
        print('   samples:', '\n   '.join(x[:200] for x in R.samples))
