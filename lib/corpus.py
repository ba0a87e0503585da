"""The grammars the generated parsers are checked on, and the inputs of the bounded replay."""
import itertools, os, random, re
import peg
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FILES = ('hand.txt', 'random.txt', 'rich.txt')

def unit_of(g, n):
    return n.ty == peg.UNIT

def postorder(n):
    for c in n.c:
        yield from postorder(c)
    yield n

class _M:
    def __init__(self, m): self.m = m
    def group(self, i): return self.m.group(i) or ''

class Entry:
    def __init__(self, name, body):
        self.name, self.body = name, body
        g = peg.parse(body)
        # every action is a function of the grammar that returns a String and shows its arguments
        acts = []
        for _, e in g.rules:
            acts += [x for x in postorder(e) if x.k == 'action']
        g.fn_ret = {x.a[1]: 'String' for x in acts}
        try:
            g.typing()
        except peg.GrammarError as ex:
            raise peg.GrammarError('%s: %s' % (name, ex))
        fns = {}
        it = iter(acts)
        def rename(m):
            x = next(it)
            assert x.a[1] == m.group(2), (x.a, m.group(2))
            n = len(x.c[0].ty[1]) if x.c[0].ty[0] == 'tuple' else 0 if x.c[0].ty == peg.UNIT else 1
            f = re.sub(r'\d+$', '', m.group(2)) + str(n)
            fns[f] = n
            return '> ' + m.group(1) + f
        body = re.sub(r'> (box )?(\w+)', lambda m: rename(m) if m.group(1) else rename(_M(m)), body)
        fns = ['fn %s%s(%s) -> String { act("%s", vec![%s]) }' % (f, '<' + ', '.join('%s: Show' % p for p in 'ABCDEFGHIJKLMNOPQRST'[:n]) + '>' if n else '',
               ', '.join('%s: %s' % (p.lower(), p) for p in 'ABCDEFGHIJKLMNOPQRST'[:n]), f, ', '.join('%s.show()' % p.lower() for p in 'ABCDEFGHIJKLMNOPQRST'[:n])) for f, n in sorted(fns.items())]
        self.text = body.strip() + '\n' + '\n'.join(fns) + '\n'
        self.g = peg.parse(self.text)
        self.g.typing()

def load(file):
    out = []
    t = open(os.path.join(HERE, 'corpus', file), encoding='utf-8').read()
    for part in re.split(r'(?m)^### ', t)[1:]:
        name, _, body = part.partition('\n')
        out.append(Entry(name.strip(), body))
    return out

class Paths:
    """actions that are paths: associated functions of a type, functions of a module, and the values of a unit struct or variant"""
    name = 'paths'
    text = '''u1:String = "a" > Node::f0
u2:String = "a" > crate::Node::f0 / "b" > crate::node::f0
v1:(crate::node::Kind) = "a" "b" > crate::node::Kind
v2:(Kind) = "a" > Kind / "b" > Kind
v3:(crate::Enum) = "a" > crate::Enum::Left / ("b" > Enum::Right) "!"
w1:String = . > Node::f1
w2:String = (. .) > crate::node::f2
w3:(crate::Wrap) = (. > crate::Wrap) "!"
w4:String = (["a"]:() > Node::f0) / u1
b1:(Box<String>) = ["a"]+ > box Node::f1
l1 = ((. > Node::f1):String ",")*
'''
    def __init__(self):
        self.g = peg.parse(self.text)
        self.g.typing()

def classes(seed, n):
    """a grammar of random character classes: unusual characters, ranges that touch, overlap, contain each other or are inverted, many of them"""
    r = random.Random(seed * 97 + 10)
    edge = [0x03, 0x09, 0x0a, 0x0d, 0x20, 0x22, 0x27, 0x2d, 0x5c, 0x5d, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff]
    rules = []
    while len(rules) < n:
        parts = []
        base = r.choice([0x61, 0x30, 0xe8, 0x4e00, 0x1f600])
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 9, 14])):
            c = r.choice(edge) if r.random() < .25 else base + r.randint(0, 25)
            d = r.choice(edge) if r.random() < .15 else c + r.choice([-3, -1, 0, 1, 1, 2, 5, 9])
            if d > 0x10ffff or d < 3 or 0xd800 <= d <= 0xdfff or 0xd800 <= c <= 0xdfff or 0x2d in (c, d):
                d = c = base
            parts.append(chr(c) if r.random() < .4 else chr(c) + '-' + chr(d))
        t = r.choice(['', '', '', '-']) + ''.join(parts) + r.choice(['', '', '', '-'])
        lit = ''.join('\\%s' % x if x in '"\\' else '\\u{%x}' % ord(x) if not 0x20 <= ord(x) < 0x7f else x for x in t)
        try:
            peg.parse('r = ["%s"]\n' % lit)
        except peg.GrammarError:
            continue
        rules.append('k%d = ["%s"]' % (len(rules), lit))
    return Entry('classes', '\n'.join(rules) + '\n')

def large(seed):
    """grammars beyond the ordinary sizes: long literals, many branches, many elements, many values, deep nesting, many rules,
    many groups of variables"""
    r = random.Random(seed * 131 + 7)
    lit = lambda n: ''.join(r.choice('abcdefghijklmnop') if r.random() < .93 else r.choice('éλ😀_ ') for _ in range(n))
    out = []
    def entry(name, rules):
        out.append(Entry('large ' + name, '\n'.join('%s = %s' % x for x in rules) + '\n'))
    # literals, some of which differ at their ends only
    ls = [lit(n) for n in (9, 17, 24, 33, 63, 65, 100, 130, 257, 300)]
    rules = [('l%d' % i, '"%s"' % x) for i, x in enumerate(ls)]
    rules += [('c%d' % i, '"%sA" "." / "%sB" / "%s"' % (x, x, x)) for i, x in enumerate(ls[::2])]
    rules += [('s%d' % i, '("%s" . "%s")* "%s"' % (ls[i], ls[i + 1], ls[i])) for i in range(0, len(ls) - 1, 3)]
    for n in (5, 9, 14, 20, 33, 60):
        cs = [r.choice('aAéλ') for _ in range(n)]
        cs = [chr(ord(c) + 2 * r.randrange(60)) for c in cs]
        cs = [c for c in cs if c not in '"\\-' and c.isprintable()] or ['a']
        cls = ''.join(c if r.random() < .5 else c + '-' + d for c in cs for d in [chr(ord(c) + r.randint(1, 3))] if d not in '"\\-' and d.isprintable())
        rules.append(('k%d' % n, '["%s"] "." / "a" ["%s"]' % (cls, cls[::-1] if '-' not in cls else '0-9' + cls)))
    entry('literals', rules)
    # choices
    rules = []
    for n in (6, 9, 13, 17, 33):
        words = ['%s%s' % ('ab'[i % 2] * (i % 5), lit(1 + i % 3)) for i in range(n)]
        rules.append(('c%d' % n, ' / '.join('"%s"' % w for w in words)))
        rules.append(('v%d' % n, '(%s) . ","' % ' / '.join('"%s" ["a-d"]' % w if i % 3 else '["%s-%s"]' % (chr(0x41 + i % 26), chr(0x41 + i % 26)) for i, w in enumerate(words))))
        rules.append(('a%d' % n, ' / '.join('"%s" . ["a-f"] > f' % w if i % 2 else '["a-c"] "%s" > g' % w for i, w in enumerate(words))))
        rules.append(('p%d' % n, ' / '.join('!"%s" "%s"' % (w[:1] + 'x', w) for w in words)))
    for n in (4, 7, 10, 14, 20, 40):      # each branch the beginning of the one before: the order of any two of them shows
        w = ''.join(r.choice('abc') for _ in range(n))
        rules.append(('d%d' % n, ' / '.join('"%s"' % w[:k] for k in range(n, 0, -1))))
        rules.append(('e%d' % n, '(%s) .' % ' / '.join('"%s" ["%s"]' % (w[:k - 1], w[k - 1]) for k in range(n, 1, -1))))
    entry('choices', rules)
    # sequences: literals, values and both; with values out of options and repeats
    rules = []
    for n in (6, 9, 13, 17, 24, 33, 65):
        rules.append(('l%d' % n, ' '.join('"%s"' % lit(1) for _ in range(n))))
        rules.append(('o%d' % n, ' '.join('"%s"?' % r.choice('abcd') for _ in range(n))))
        rules.append(('q%d' % n, ' '.join(r.choice(['"a"', '"b"*', '"c"?', '&"d"', '!"a" "d"', '("a" / "b")', '"c"+']) for _ in range(n))))
    for n in (7, 9, 12, 17, 20):
        rules.append(('v%d' % n, ' '.join(r.choice(['["a-c"]', '["a-c"]', '.', '"b"? .']) for _ in range(n))))
        rules.append(('w%d' % n, ' '.join(r.choice(['["a-c"]', '["b"]?', '["c"]*', '(..["a-c"])', '"," ["a"]'] if n < 10 else ['["a-c"]', '["b"]?', '["c"]*', '"," ["a"]']) for _ in range(n))))
    rules.append(('x8', '((. "," / ["a"] / .) > f) ' + ' '.join(['(["a-c"] ["a-b"] > g)', '(["c"]* > h)'] * 3) + ' > f'))
    entry('sequences', rules)
    # one inside the other; many marks; many groups of variables in one function
    rules = []
    for n in (6, 10, 16):
        for k in range(3):
            e = r.choice(['"a"', '["a-b"]', '"a" ["b"]'])
            for i in range(n):
                e = [lambda x: '(%s ",")*' % x, lambda x: '(%s)?' % ('"%s" ' % 'abc'[i % 3] + x), lambda x: '("%s" / %s)' % ('xyz'[i % 3], x) if '[' not in x and '..' not in x else '("k" %s)' % x,
                     lambda x: '("b" %s)+' % x, lambda x: '(.. (%s))' % x if n < 16 else '("e" %s)' % x][r.randrange(5)](e)
            rules.append(('n%d_%d' % (n, k), e))
    rules.append(('marks', ' '.join('!"%s"' % (w + 'z') + ' "%s"' % w for w in [lit(1) for _ in range(40)])))
    rules.append(('opts', ' '.join('("%s" ("%s" / "%s")?)?' % (a, b, c) for a, b, c in [r.sample('abcdef', 3) for _ in range(36)])))
    g = lambda i: '((["a-d"] ",")* > h) "%s"' % 'xyz'[i % 3]
    rules.append(('groups', ' '.join('(%s > f)' % ' '.join(g(i) for i in range(8)) for _ in range(4)) + ' > f'))
    rules.append(('plusses', ' '.join('("%s" ["%s"])+' % tuple(r.sample('abcd', 2)) for _ in range(12))))
    rules.append(('spans', ' '.join('(..(%s ["b"]?))' % x for x in ['"a"', '["a"]', '"a"*', '(..["a"]) "b"', '(...["a"])', '"c"?']) + ' > f'))
    entry('nested', rules)
    # rules that call one another
    rules = [('rule_number_%02d' % i, r.choice(['"%s" %s' + (' / .' if i % 4 else ' / ["0-9"]'), '"%s" %s', '"%s"? %s', '(!"%s" %s)', '("%s" "b")* %s']).replace('%s', 'ab'[i % 2], 1).replace('%s', 'rule_number_%02d' % (i + 1))) for i in range(60)]
    rules.append(('rule_number_60', '. "a"'))
    rules.append(('bal', '"(" bal ")" / "a"'))
    rules.append(('lst:String', '["a-c"] "," lst > f / "." > f'))
    entry('rules', rules)
    return out

def pumped(e, rule, seed, many):
    """texts that repeat a piece of a likely match up to some hundred times"""
    rng = random.Random('%d %s %s long' % (seed, e.name, rule))
    if not any(n.k in ('star', 'plus', 'nt') for n in peg.walk(e.g.rule[rule])):
        return []
    out, tries = set(), 0
    while len(out) < many and tries < many * 4:
        tries += 1
        s = sample(e.g, e.g.rule[rule], rng)
        if not s:
            continue
        i = rng.randrange(len(s))
        j = min(len(s), i + rng.choice([1, 1, 2, 2, 3, 4, 6]))
        n = rng.choice([64, 128, 256]) + (rng.randrange(3) - 1 if rng.random() < .7 else rng.randint(2, 60))
        t = s[:i] + s[i:j] * n + s[j:]
        if rng.random() < .3:
            t = t[:len(t) - rng.randint(1, 3)] + rng.choice(['#', '', 'é'])
        if len(t) < 1500:
            out.add(t)
    return sorted(out)

def class_inputs(e, rule):
    """the bounds of its intervals and their neighbours"""
    cs = {0x23, 0x2d, 0x61}
    for a, b in e.g.rule[rule].a:
        for c in (ord(a), ord(b)):
            cs |= {c - 1, c, c + 1}
        cs.add((ord(a) + ord(b)) // 2)
    return [''] + [chr(c) for c in sorted(cs) if 3 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff]

def alphabet(e):
    """the characters the grammar mentions, and one it does not"""
    cs = []
    for _, x in e.g.rules:
        for n in peg.walk(x):
            if n.k == 'str':
                cs += list(n.a)
            elif n.k == 'class':
                for a, b in n.a:
                    cs += [a, b] + ([chr(ord(a) + 1), chr(ord(a) - 1)] if b > a else [])
    out = []
    for c in cs + ['#']:
        if c not in out:
            out.append(c)
    return out

def rule_chars(g, name, seen=None):
    seen = set() if seen is None else seen
    if name in seen or name not in g.rule:
        return []
    seen.add(name)
    cs = []
    for n in peg.walk(g.rule[name]):
        if n.k == 'str':
            cs += list(n.a)
        elif n.k == 'class':
            for a, b in n.a:
                cs += [a, b]
                if b > a:
                    cs += [chr(ord(a) + 1), chr(ord(b) + 1), chr(ord(a) - 1)]
                else:
                    cs += [chr(ord(a) + 1)]
        elif n.k == 'nt':
            cs += rule_chars(g, n.a, seen)
    out = []
    for c in cs:
        if c not in out and not 0xD800 <= ord(c) <= 0xDFFF:
            out.append(c)
    return out

def sample(g, n, rng, depth=0):
    """a text the expression is likely to match"""
    k = n.k
    if k == 'str':
        return n.a
    if k == 'any':
        return rng.choice('abcxé€😀,')
    if k == 'class':
        a, b = rng.choice(n.a)
        return chr(rng.randint(ord(a), ord(b))) if a <= b and ord(b) < 0xD800 or a <= b and ord(a) > 0xDFFF else a
    if k == 'nt':
        return sample(g, g.rule[n.a], rng, depth + 1) if depth < 8 else ''
    if k == 'seq':
        return ''.join(sample(g, c, rng, depth) for c in n.c)
    if k == 'choice':
        return sample(g, rng.choice(n.c if depth < 5 else n.c[-1:]), rng, depth)
    if k in ('star', 'plus'):
        return ''.join(sample(g, n.c[0], rng, depth) for _ in range(rng.randint(0 if k == 'star' else 1, 3 if depth < 4 else 1)))
    if k == 'opt':
        return sample(g, n.c[0], rng, depth) if rng.random() < .6 else ''
    if k in ('not', 'and'):
        return ''
    if k == 'ext':
        return ''
    return sample(g, n.c[0], rng, depth)

def inputs(e, rule, seed, budget):
    rng = random.Random('%d %s %s' % (seed, e.name, rule))
    al = rule_chars(e.g, rule) or ['a']
    al = al + [c for c in '#é' if c not in al]
    small = al if len(al) <= 7 else al[:7]
    if e.name.startswith('large'):
        small = al[:3]
    out = {''}
    for c in al:
        out.add(c)
    n = 1
    while n < 6 and len(small) ** (n + 1) <= budget // 2:
        n += 1
    for k in range(1, n + 1):
        for t in itertools.product(small, repeat=k):
            out.add(''.join(t))
    tries = 0
    while len(out) < budget and tries < budget * 2:
        tries += 1
        s = sample(e.g, e.g.rule[rule], rng)
        r = rng.random()
        if r < .25 and s:
            i = rng.randrange(len(s))
            s = s[:i] + s[i + 1:]
        elif r < .5:
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(al) + s[i:]
        elif r < .65 and s:
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(al) + s[i + 1:]
        elif r < .75:
            s += sample(e.g, e.g.rule[rule], rng)
        elif r < .8:
            s = ''.join(rng.choice(al) for _ in range(rng.randint(1, 12)))
        out.add(s[:40] if not e.name.startswith('large') else s[:1500])
    return sorted(out)
