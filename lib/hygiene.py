"""Bounded replay of C23: in the code generated for many grammars, no name that the compiler introduces hides another one."""
import os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import rs, replay as rp
sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))

# names the generated code hides on purpose: the state that is threaded through, and what lives for one test
THREADED = {'state', 'stateful', 'stateless', 'is_success', 'x'}

def binds(p, out):
    if p is None:
        return out
    if p.kind == 'pat_ident':
        if re.match(r'[a-z_]', p.name):
            out.append(p.name)
    for c in p.children():
        if c.kind.startswith('pat_'):
            binds(c, out)
    return out

class Scopes:
    def __init__(self, threaded=THREADED):
        self.bad, self.n, self.deep = [], 0, 0
        self.threaded = threaded
    def add(self, env, names):
        here = set()
        for n in names:
            if n in self.threaded:
                continue
            self.n += 1
            if n in env:
                self.bad.append('%s is bound again where it is already in scope' % n)
            elif n in here:
                self.bad.append('%s is bound twice by one pattern' % n)
            here.add(n)
        env = env | here
        self.deep = max(self.deep, len(env))
        return env
    def block(self, b, env):
        for s in b.stmts:
            if s.kind == 'let':
                if s.init is not None:
                    self.go(s.init, env)
                if s.a.get('els') is not None:
                    self.go(s.els, env)
                env = self.add(env, binds(s.pat, []))
            else:
                self.go(s, env)
        if b.tail is not None:
            self.go(b.tail, env)
    def go(self, n, env):
        k = n.kind
        if k == 'block':
            return self.block(n, env)
        if k == 'fn':
            e = env
            for p in n.params:
                e = self.add(e, binds(p.pat, []))
            return self.go(n.body, e)
        if k == 'closure':
            e = self.add(env, [x for p in n.params for x in binds(p.pat, [])])
            return self.go(n.body, e)
        if k == 'arm':
            e = self.add(env, binds(n.pat, []))
            if n.guard is not None:
                self.go(n.guard, e)
            return self.go(n.body, e)
        if k == 'for':
            self.go(n.it, env)
            return self.go(n.body, self.add(env, binds(n.pat, [])))
        if k in ('if', 'while') and n.cond.kind == 'letcond':
            self.go(n.cond.x, env)
            e = self.add(env, binds(n.cond.pat, []))
            self.go(n.then if k == 'if' else n.body, e)
            if k == 'if' and n.els is not None:
                self.go(n.els, env)
            return
        for c in n.children():
            if not c.kind.startswith('pat_') and c.kind != 'type':
                self.go(c, env)

def functions(code):
    out = []
    for it in rs.Parser(code).file():
        for x in it.walk():
            if x.kind == 'fn' and x.body is not None and re.match(r'(recognize|parse)_', x.name):
                out.append(x)
    return out

def check(code):
    """-> [(function, what is wrong)], number of names, the most names in scope at one point"""
    bad, n, deep = [], 0, 0
    for f in functions(code):
        s = Scopes()
        s.go(f, frozenset())
        bad += [(f.name, b) for b in s.bad]
        n += s.n
        deep = max(deep, s.deep)
    return bad, n, deep

def grammars(tier, seed):
    import mid
    from mid import N, G, tree
    gs = [g for what in ('C18',) for g in mid.typed_grammars(tier, seed, what)]
    r = random.Random(seed * 77 + 5)
    cfg = dict(lits=['a', 'b'], cls=['a', 'ab'], leaf=.15, acts=['f', 'g', 'h'], tys=['u8'],
               w=dict(seq=34, choice=12, star=14, plus=14, opt=9, **{'not': 5, 'and': 5}, action=10, span=3, range=8, ty=0))
    for i in range(1500 if tier == 'quick' else 20000):
        rules = [('r0', tree(r, r.choice([3, 4, 5]), [], cfg)), ('r1', tree(r, r.choice([2, 4]), ['r0'], cfg))]
        gs.append(G(rules, [('f', 'u8'), ('g', 'String'), ('h', 'u8')], r))
    # sequences of many values: more variables than letters
    for n in (3, 27, 60):
        gs.append(G([('r', N('seq', None, [N('action', (False, 'f'), [N('any')]) for i in range(n)]))], [('f', 'u8')], r))
    # groups of variables past the letters, one inside the other
    e = N('any')
    for i in range(60):
        e = N('action', (False, 'f'), [N('seq', None, [N('any'), e])])
    gs.append(G([('r', e)], [('f', 'u8')], r))
    # many marks, counters, flags and continuations in one function
    for n in (30, 110):
        for k in ('not', 'opt', 'star', 'plus', 'choice', 'span', 'any'):
            if (n, k) == (110, 'span'):      # slow
                continue
            a = lambda i: N('str', 'ab'[i % 2])
            one = lambda i: N('choice', None, [a(i), a(i + 1)]) if k == 'choice' else N('any') if k == 'any' else N(k, None, [a(i) if k != 'plus' else N('seq', None, [a(i), a(i + 1)])])
            gs.append(G([('r', N('seq', None, [one(i) for i in range(n)]))]))
    return gs

def replay(arg, tier, seed):
    import mid, oakx
    R = rp.Replay()
    R.cmd = 'replay/oakx (lib/oakx.py), lib/hygiene.py on the code that comes out'
    R.rule = 'random grammars (operators nested up to five deep, sequences of up to 110 operands of each kind, 60 actions one in another); in every generated function no name but the threaded ones is bound where it is in scope; non-trivial: at least three names in scope at one point'
    try:
        outs = mid.feed(grammars(tier, seed))
    except oakx.Unavailable as ex:
        R.error = str(ex)
        return R
    for o in outs:
        code = o.o.get('code')
        if not code:
            continue
        R.evaluations += 1
        bad, n, deep = check(code)
        R.nontrivial += deep >= 3
        if deep >= 3 and R.nontrivial % 401 == 7 and len(R.samples) < 3:
            R.samples.append('%s: %d names, up to %d in scope at one point' % (' ; '.join(o.g.parts), n, deep))
        if bad:
            mid.fail(R, o.g, '; '.join('%s: %s' % b for b in bad[:3]))
    if not R.evaluations:
        R.error = 'no grammar gave any code'
    return R

if __name__ == '__main__':
    import time
    t = time.time()
    R = replay(None, os.environ.get('VERIF_TIER', 'quick'), 1)
    print(R.evaluations, R.nontrivial, R.error, '%.1fs' % (time.time() - t))
    print('\n'.join(x[:800] for x in R.failures))
    print('\n'.join(x[:800] for x in R.samples))
