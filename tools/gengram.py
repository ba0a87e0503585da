#!/usr/bin/env python3
"""Makes corpus/random.txt: random grammars that oak accepts and whose code compiles (run once; the result is committed)."""
import os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import peg, corpus, oakx, gen
from peg import N

LITS = ['a', 'b', 'c', 'ab', 'ba', 'é', ',']
CLS = [[('a', 'b')], [('b', 'c')], [('a', 'a'), ('c', 'c')], [('b', 'b')], [('à', 'ï')]]

def expr(r, d, rules, acts):
    k = r.random()
    if d <= 0 or k < .22:
        x = r.random()
        if x < .5:
            return N('str', r.choice(LITS))
        if x < .6:
            return N('any')
        if x < .85 or not rules:
            return N('class', r.choice(CLS))
        return N('ext', r.choice(rules))
    if k < .44:
        return N('seq', None, [expr(r, d - 1, rules, acts) for _ in range(r.randint(2, 3))])
    if k < .60:
        return N('choice', None, [expr(r, d - 1, rules, acts) for _ in range(r.randint(2, 3))])
    if k < .70:
        return N(r.choice(['star', 'plus']), None, [expr(r, d - 1, rules, acts)])
    if k < .78:
        return N('opt', None, [expr(r, d - 1, rules, acts)])
    if k < .85:
        return N(r.choice(['not', 'and']), None, [expr(r, d - 1, rules, acts)])
    if k < .93 and acts:
        return N('action', (r.random() < .1, r.choice('fgh')), [expr(r, d - 1, rules, acts)])
    if k < .96:
        e = expr(r, d - 1, rules, acts)
        return N('span', None, [e]) if r.random() < .5 else N('range', None, [N('ty', ('unit',), [e])])
    return N('ty', (r.choice(['unit', 'inv']),), [expr(r, d - 1, rules, acts)])

def rich(r, d, rules, acts):
    """values, spans and actions around choices that are followed by more: what passes through shared continuations"""
    k = r.random()
    sub = lambda: rich(r, d - 1, rules, acts)
    if d <= 0 or k < .12:
        x = r.random()
        return N('class', r.choice(CLS)) if x < .5 else N('any') if x < .6 else N('ext', r.choice(rules)) if x < .75 and rules else N('str', r.choice(LITS))
    if k < .30:
        c = N('choice', None, [rich(r, d - 2, rules, acts) for _ in range(r.randint(2, 3))])
        parts = [sub(), c, N('str', r.choice(LITS)) if r.random() < .5 else sub()]
        return N('seq', None, parts if r.random() < .7 else parts[1:])
    if k < .42:
        return N('seq', None, [sub() for _ in range(r.randint(2, 3))])
    if k < .50:
        return N('choice', None, [sub() for _ in range(r.randint(2, 3))])
    if k < .62:
        return N(r.choice(['star', 'plus', 'opt', 'opt']), None, [sub()])
    if k < .66:
        return N(r.choice(['not', 'and']), None, [sub()])
    if k < .80 and acts:
        return N('action', (r.random() < .1, r.choice('fgh')), [sub()])
    if k < .96:
        return N('span', None, [sub()]) if r.random() < .75 else N('range', None, [N('ty', ('unit',), [sub()])])
    return N('ty', (r.choice(['unit', 'inv']),), [sub()])

STYLE = {'r': expr, 's': rich}

def grammar(r):
    expr = STYLE[LETTER]
    out, names = [], []
    for i in range(3):
        n = 'r%d' % i
        e = expr(r, r.choice([2, 3, 4, 5]), names, r.random() < .6)
        t = peg.show(e)
        if i == 2 and r.random() < .3:
            t = '"(" r2 ")" / ' + t if r.random() < .5 else t + ' / "(" r2 ")"'
            ty = ':()'
        else:
            ty = ''
        out.append('%s%s = %s' % (n, ty, t))
        names.append(n)
    return '\n'.join(out) + '\n'

def main():
    r = random.Random(int(sys.argv[1]))
    want = int(sys.argv[2])
    keep = []
    seen = set()
    while len(keep) < want:
        cand = []
        while len(cand) < (150 if LETTER == 'r' else 600):
            t = grammar(r)
            if not 90 < len(t) < (330 if LETTER == 'r' else 420) or t in seen:
                continue
            seen.add(t)
            try:
                cand.append(corpus.Entry('x', t))
            except (peg.GrammarError, AssertionError):
                continue
        res = oakx.run([c.text for c in cand])
        ok = []
        for c, x in zip(cand, res):
            if 'code' in x and not any(d['level'] == 'error' for d in x['diags']):
                ok.append(c)
            elif x.get('panic') and not x['diags']:
                print('PANIC', x['panic'], c.body, file=sys.stderr)
            elif x.get('syntax_error'):
                print('SYNTAX', x['syntax_error'], c.text, file=sys.stderr)
        exe, kept, dropped, table = gen.build(ok, 'pick')
        for e, m in dropped:
            print('NOCOMPILE', m[:100], e.body.strip().replace('\n', ' ; '), file=sys.stderr)
        keep += [ok[i] for i in sorted(kept)]
        print(len(cand), len(ok), len(kept), len(keep), file=sys.stderr)
    for i, e in enumerate(keep[:want]):
        print('### %s%03d\n%s' % (LETTER, i, e.body.strip()))

LETTER = sys.argv[3] if len(sys.argv) > 3 else 'r'
main()
