"""Contracts on the parsers that oak generates from one grammar of the corpus.

The functions under contract are the ones /repo's compiler (as built by lib/oakx.py from the working tree) emits for
the grammar. Their postconditions are the PEG meaning of the rules, a recursive specification written from the grammar
text alone (lib/peg.py): accepted or not, end position, farthest failed terminals, value. The loops of the code carry
the invariant that the rest of the repetition from here gives the repetition from its start. All inputs, no bound.

What the extraction changes (beyond lib/vx.py): success continuations bound to closures are replaced by their bodies at
their calls; `Stream<'a>` is a type with the contract of the streams (C01, C02, stated by character index);
the actions of the grammar are uninterpreted functions of the values of their arguments."""
import os, re, threading
from vx import *
import rs, peg, corpus, oakx
PSF = 'runtime/src/parse_state.rs'

BASE = r'''
// ---- the input stream: contracts C01 and C02 (unit str_stream), by index of character
#[verifier::external_body]
pub struct VxS { x: u8 }
impl VxS {
  pub uninterp spec fn at(&self) -> nat;
  pub uninterp spec fn text(&self) -> Seq<char>;
  #[verifier::external_body] pub fn clone(&self) -> (r: VxS) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn vx_gt(&self, o: &VxS) -> (r: bool) requires self.text() == o.text() ensures r == (self.at() > o.at()) { unimplemented!() }
  #[verifier::external_body] pub fn vx_eq(&self, o: &VxS) -> (r: bool) requires self.text() == o.text() ensures r == (self.at() == o.at()) { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
    ensures final(self).text() == old(self).text(), old(self).text().len() <= usize::MAX,
      old(self).at() < old(self).text().len() ==> r == Some(old(self).text()[old(self).at() as int]) && final(self).at() == old(self).at() + 1,
      old(self).at() >= old(self).text().len() ==> r.is_none() && *final(self) == *old(self)
  { unimplemented!() }
  #[verifier::external_body] pub fn consume_prefix(&mut self, p: &'static str) -> (r: bool)
    ensures final(self).text() == old(self).text(), old(self).text().len() <= usize::MAX, r == lit(old(self).text(), old(self).at(), p@),
      r ==> final(self).at() == old(self).at() + p@.len(), !r ==> *final(self) == *old(self)
  { unimplemented!() }
}
pub broadcast axiom fn vx_text_fits(s: VxS) ensures #[trigger] s.text().len() <= usize::MAX;
pub open spec fn lit(s: Seq<char>, i: nat, p: Seq<char>) -> bool { i + p.len() <= s.len() && s.subrange(i as int, (i + p.len()) as int) == p }

// ---- what is reported: the farthest position at which a terminal failed, and the terminals that failed there
pub struct Far { pub at: nat, pub what: Set<&'static str> }
pub open spec fn err(f: Far, i: nat, e: &'static str) -> Far {
  if i > f.at { Far { at: i, what: Set::empty().insert(e) } } else if i == f.at { Far { at: i, what: f.what.insert(e) } } else { f }
}
pub uninterp spec fn vx_c(k: int) -> bool;
// ---- the outcome of an expression at a position
pub struct RV<V> { pub ok: bool, pub at: nat, pub far: Far, pub val: V }
pub open spec fn fail<V>(far: Far) -> RV<V> { RV { ok: false, at: 0, far, val: arbitrary() } }
pub open spec fn done<V>(at: nat, far: Far, val: V) -> RV<V> { RV { ok: true, at, far, val } }

// ---- values
pub trait VxD { type V; spec fn d(&self) -> Self::V; }
impl VxD for () { type V = (); open spec fn d(&self) -> () { () } }
impl VxD for char { type V = char; open spec fn d(&self) -> char { *self } }
#[verifier::external_body]
pub struct VxVal { x: u8 }
impl VxD for VxVal { type V = VxVal; open spec fn d(&self) -> VxVal { *self } }
impl<T: VxD> VxD for Box<T> { type V = T::V; open spec fn d(&self) -> T::V { (**self).d() } }
impl<T: VxD> VxD for Option<T> { type V = Option<T::V>; open spec fn d(&self) -> Option<T::V> { match self { None => None, Some(x) => Some(x.d()) } } }
impl<T: VxD> VxD for Vec<T> { type V = Seq<T::V>; open spec fn d(&self) -> Seq<T::V> { Seq::new(self@.len(), |k: int| self@[k].d()) } }
pub struct Span { pub lo: nat, pub hi: nat }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxSpan { x: u8 }
impl VxSpan { pub uninterp spec fn v(&self) -> Span; }
impl VxD for VxSpan { type V = Span; open spec fn d(&self) -> Span { self.v() } }
impl VxD for Range<VxS> { type V = (nat, nat); open spec fn d(&self) -> (nat, nat) { (self.start.at(), self.end.at()) } }
#[verifier::external_body]
pub fn vx_stream_span(r: Range<VxS>) -> (q: VxSpan) ensures q.v() == (Span { lo: r.start.at(), hi: r.end.at() }) { unimplemented!() }
pub fn vx_vec_new<T: VxD>() -> (r: Vec<T>) ensures r.d() == Seq::<T::V>::empty() { let r = Vec::new(); proof { assert(r.d() =~= Seq::<T::V>::empty()); } r }
pub fn vx_push<T: VxD>(v: &mut Vec<T>, x: T) ensures final(v).d() == old(v).d().push(x.d()) {
  let ghost o = v.d(); v.push(x); proof { assert(v.d() =~= o.push(x.d())); }
}
pub proof fn lemma_push_set(v: Seq<&'static str>, e: &'static str)
  ensures v.push(e).to_set() == v.to_set().insert(e), seq![e].to_set() == Set::<&'static str>::empty().insert(e),
    forall|q: Seq<&'static str>| q.len() == 1 && q[0] == e ==> #[trigger] q.to_set() == Set::<&'static str>::empty().insert(e)
{
  assert forall|x: &'static str| v.push(e).to_set().contains(x) == v.to_set().insert(e).contains(x) by {
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(v.push(e)[i] == x); }
    assert(v.push(e)[v.len() as int] == e);
    if v.push(e).contains(x) { let i = choose|i: int| 0 <= i < v.push(e).len() && v.push(e)[i] == x; if i < v.len() { assert(v[i] == x); } }
  }
  assert(v.push(e).to_set() =~= v.to_set().insert(e));
  assert(seq![e][0] == e);
  assert(seq![e].to_set() =~= Set::<&'static str>::empty().insert(e));
  assert forall|q: Seq<&'static str>| q.len() == 1 && q[0] == e implies #[trigger] q.to_set() == Set::<&'static str>::empty().insert(e) by { assert(q =~= seq![e]); }
}
impl<T> ParseState<T> {
  pub open spec fn info(self) -> Far { Far { at: self.farthest_read.at(), what: self.expected@.to_set() } }
  pub open spec fn s(self) -> Seq<char> { self.current.text() }
  // everything but status, position and data is as in o
  pub open spec fn same<U>(self, o: ParseState<U>) -> bool { self.farthest_read.text() == o.farthest_read.text() && self.info() == o.info() }
}
'''
for n in range(2, 13):
    L = 'ABCDEFGHIJKL'[:n]
    BASE += 'impl<%s> VxD for (%s) { type V = (%s); open spec fn d(&self) -> (%s) { (%s) } }\n' % (
        ', '.join(x + ': VxD' for x in L), ', '.join(L), ', '.join(x + '::V' for x in L), ', '.join(x + '::V' for x in L), ', '.join('self.%d.d()' % i for i in range(n)))

TYPES = [(r"(?:oak_runtime\s*::\s*)?ParseState\s*<\s*(?:Stream\s*<\s*'a\s*>|S)\s*,\s*", 'ParseState<'),
         (r"<\s*Range\s*<\s*Stream\s*<\s*'a\s*>\s*>\s*as\s+StreamSpan\s*>\s*::\s*Output", 'VxSpan'),
         (r"Stream\s*<\s*'a\s*>", 'VxS'), (r'\bString\b', 'VxVal')]

def lits(s):
    """a Rust string literal"""
    return '"' + ''.join(c if ' ' <= c <= '~' and c not in '"\\' else {'"': '\\"', '\\': '\\\\'}.get(c) or '\\u{%x}' % ord(c) for c in s) + '"'
def litc(c):
    return "'%s'" % (c if ' ' <= c <= '~' and c not in "'\\" else {"'": "\\'", '\\': '\\\\'}.get(c) or '\\u{%x}' % ord(c))

def vt(t):
    """specification type of a value"""
    if t == peg.UNIT or t == peg.INV:
        return '()'
    k = t[0]
    if k == 'atom':
        return 'char'
    if k == 'list':
        return 'Seq<%s>' % vt(t[1])
    if k == 'opt':
        return 'Option<%s>' % vt(t[1])
    if k == 'tuple':
        return '(%s)' % ', '.join(vt(x) for x in t[1])
    if k == 'rust':
        if t[1] in ('String', 'Box<String>'):
            return 'VxVal'
        if t[1] == '<span>':
            return 'Span'
        if t[1] == '<range>':
            return '(nat, nat)'
    raise Unsupported('no specification type for %r' % (t,))

class Spec:
    """the PEG meaning of every rule and repetition, as recursive specification functions"""
    def __init__(self, g):
        self.g = g
        self.out = []
        self.stars = {}       # (id(node), parser) -> name
        self.n = 0
        self.analyse()
    def analyse(self):
        g = self.g
        self.nul = {n: False for n, _ in g.rules}
        while True:
            new = {n: self.nullable(g.rule[n]) for n, _ in g.rules}
            if new == self.nul:
                break
            self.nul = new
        # calls at the same position: they must be ordered (no left recursion)
        self.rank = {}
        def visit(n, e, path):
            if n in path:
                raise Unsupported('left recursion through %s' % (n,))
            if n not in self.rank:
                acc = {}
                self.left(e, acc)
                self.rank[n] = 1 + max([visit(m, x, path + [n]) for m, x in acc.items()] or [0])
            return self.rank[n]
        for n, e in g.rules:
            visit(n, e, [])
        for n, r in g.rules:
            for e in peg.walk(r):
                if e.k in ('star', 'plus'):
                    visit(id(e), e.c[0], [])
    def nullable(self, e):
        k = e.k
        if k == 'str':
            return e.a == ''
        if k in ('any', 'class'):
            return False
        if k == 'nt':
            return self.nul[e.a]
        if k == 'seq':
            return all(self.nullable(c) for c in e.c)
        if k == 'choice':
            return any(self.nullable(c) for c in e.c)
        if k in ('star', 'opt', 'not', 'and'):
            return True
        if k in ('plus', 'action', 'ty', 'span', 'range'):
            return self.nullable(e.c[0])
        raise Unsupported('external parser %s' % e.a)
    def left(self, e, acc):
        """rules and repetitions that may be entered at the position where e starts"""
        if e.k == 'nt':
            acc[e.a] = self.g.rule[e.a]
        elif e.k in ('star', 'plus'):
            acc[id(e)] = e.c[0]
        elif e.k == 'seq':
            for c in e.c:
                self.left(c, acc)
                if not self.nullable(c):
                    break
        else:
            for c in e.c:
                self.left(c, acc)
    def fresh(self):
        self.n += 1
        return self.n
    # e at position `i` (a spec expression), far so far `f`, in the scope of a function that was entered at position i0
    def rv(self, e, i, f, parser, rank):
        if not parser or e.ty == peg.UNIT:
            return self.rec(e, i, f, rank)
        return self.par(e, i, f, rank)
    def guard(self, i, callee_rank, rank):
        return 'i0 %s %s <= s.len()' % ('<=' if callee_rank < rank else '<', i)
    def call(self, fn, i, f, callee_rank, rank, ty, more=''):
        return '(if %s { %s(s, %s, %s%s) } else { fail::<%s>(%s) })' % (self.guard(i, callee_rank, rank), fn, i, f, more, ty, f)
    def term(self, e, i, f, ty, parser):
        if e.k == 'str':
            return '(if lit(s, {i}, {l}@) {{ done::<()>({i} + {l}@.len(), {f}, ()) }} else {{ fail::<()>(err({f}, {i}, {l})) }})'.format(i=i, f=f, l=lits(e.a))
        if e.k == 'any':
            c, x = 'true', '<character>'
        else:
            c = ' || '.join('(%s <= s[%s as int] && s[%s as int] <= %s)' % (litc(a), i, i, litc(b)) for a, b in e.a)
            x = peg.class_text(e.a)
        v = 's[%s as int]' % i if parser else '()'
        return '(if {i} < s.len() && ({c}) {{ done::<{ty}>({i} + 1, {f}, {v}) }} else {{ fail::<{ty}>(err({f}, {i}, {x})) }})'.format(i=i, f=f, c=c, x=lits(x), v=v, ty=ty)
    def rec(self, e, i, f, rank):
        k = e.k
        if k in ('str', 'any', 'class'):
            return self.term(e, i, f, '()', False)
        if k == 'nt':
            return self.call('rec_' + e.a, i, f, self.rank[e.a], rank, '()')
        if k in ('action', 'ty', 'span', 'range'):
            return self.rec(e.c[0], i, f, rank)
        return self.comp(e, i, f, False, rank, '()')
    def comp(self, e, i, f, parser, rank, ty):
        k = e.k
        n = self.fresh()
        r = 'r%d' % n
        if k == 'seq':
            out, close, vals = '', '', []
            ii, ff = i, f
            for j, c in enumerate(e.c):
                x = '%s_%d' % (r, j)
                out += '({ let %s = %s; if !%s.ok { fail::<%s>(%s.far) } else { ' % (x, self.rv(c, ii, ff, parser, rank), x, ty, x)
                close += ' } })'
                ii, ff = x + '.at', x + '.far'
                if parser:
                    vals += self.parts(c, x + '.val')
            return '%sdone::<%s>(%s, %s, %s)%s' % (out, ty, ii, ff, self.pack(e, vals) if parser else '()', close)
        if k == 'choice':
            out, close, ff = '', '', f
            for j, c in enumerate(e.c):
                x = '%s_%d' % (r, j)
                b = self.rv(c, i, ff, parser, rank)
                if j == len(e.c) - 1:
                    out += b
                else:
                    out += '({ let %s = %s; if %s.ok { %s } else { ' % (x, b, x, x)
                    close += ' } })'
                    ff = x + '.far'
            return out + close
        if k in ('star', 'plus'):
            p = parser and e.ty != peg.UNIT
            fn = self.star(e, p)
            acc = ', Seq::empty()' if p else ''
            cnt = ', 0' if k == 'plus' else ''
            return self.call(fn, i, f, self.rank[id(e)], rank, ty, cnt + acc)
        if k == 'opt':
            if parser:
                return '({ let %s = %s; if %s.ok { done::<%s>(%s.at, %s.far, Some(%s.val)) } else { done::<%s>(%s, %s.far, None) } })' % (r, self.rv(e.c[0], i, f, True, rank), r, ty, r, r, r, ty, i, r)
            return '({ let %s = %s; if %s.ok { %s } else { done::<()>(%s, %s.far, ()) } })' % (r, self.rv(e.c[0], i, f, False, rank), r, r, i, r)
        if k in ('not', 'and'):
            return '({ let %s = %s; if %s%s.ok { done::<()>(%s, %s.far, ()) } else { fail::<()>(%s.far) } })' % (r, self.rec(e.c[0], i, f, rank), '' if k == 'and' else '!', r, i, r, r)
        raise AssertionError(k)
    def par(self, e, i, f, rank):
        k, ty = e.k, vt(e.ty)
        if k in ('any', 'class'):
            return self.term(e, i, f, ty, True)
        if k == 'nt':
            return self.call('par_' + e.a, i, f, self.rank[e.a], rank, ty)
        if k == 'ty':
            return self.rv(e.c[0], i, f, True, rank)
        r = 'r%d' % self.fresh()
        if k in ('action', 'span', 'range'):
            if k == 'action':
                v = 'act_%s(%s)' % (e.a[1], ', '.join(self.parts(e.c[0], r + '.val')))
            elif k == 'span':
                v = self.pack(e, ['(Span { lo: %s, hi: %s.at })' % (i, r)] + self.parts(e.c[0], r + '.val'))
            else:
                v = '(%s, %s.at)' % (i, r)
            return '({ let %s = %s; if !%s.ok { fail::<%s>(%s.far) } else { done::<%s>(%s.at, %s.far, %s) } })' % (r, self.rv(e.c[0], i, f, True, rank), r, ty, r, ty, r, r, v)
        return self.comp(e, i, f, True, rank, ty)
    def parts(self, c, v):
        if c.ty == peg.UNIT:
            return []
        if c.ty[0] == 'tuple':
            return ['%s.%d' % (v, j) for j in range(len(c.ty[1]))]
        return [v]
    def pack(self, e, vals):
        return '(%s)' % ', '.join(vals) if e.ty[0] == 'tuple' else vals[0]
    def star(self, e, parser):
        key = (id(e), parser)
        if key in self.stars:
            return self.stars[key][0]
        k = len(self.stars) + 1
        name = 'rep_%d' % k
        inner = self.rank[id(e)]
        self.stars[key] = (name, e, parser)
        ty = vt(e.ty) if parser else '()'
        body = self.rv(e.c[0], 'i', 'far', parser, inner).replace('i0', 'i')
        plus = e.k == 'plus'
        params = 's: Seq<char>, i: nat, far: Far' + (', n: nat' if plus else '') + (', acc: %s' % ty if parser else '')
        end = 'done::<%s>(i, r.far, %s)' % (ty, 'acc' if parser else '()')
        if plus:
            end = 'if n >= 1 { %s } else { fail::<%s>(r.far) }' % (end, ty)
        step = '%s(s, r.at, r.far%s%s)' % (name, ', n + 1' if plus else '', ', acc.push(r.val)' if parser else '')
        self.out.append('''#[verifier::opaque]
pub open spec fn {name}({params}) -> RV<{ty}> decreases s.len() - i, {rank}int
{{ let r = {body};
   if !r.ok {{ {end} }} else if i < r.at <= s.len() {{ {step} }} else {{ fail::<{ty}>(r.far) }} }}
'''.format(name=name, params=params, ty=ty, rank=inner, body=body, end=end, step=step))
        return name
    def rule(self, name, parser):
        e = self.g.rule[name]
        ty = vt(e.ty) if parser else '()'
        fn = ('par_' if parser else 'rec_') + name
        rank = self.rank[name]
        body = self.rv(e, 'i0', 'far', parser, rank)
        self.out.append('''// %s = %s
#[verifier::opaque]
pub open spec fn %s(s: Seq<char>, i0: nat, far: Far) -> RV<%s> decreases s.len() - i0, %dint
{ %s }
''' % (name, peg.show(e).replace('\n', ' '), fn, ty, rank, body))

    # ---- C20: the meaning as a parser agrees with the meaning as a recognizer, by induction
    def agree(self, e, i, f, rank):
        """proof text: rv(e, parser) and rv(e, recognizer) at (i, f) have the same outcome but for the value"""
        if e.ty == peg.UNIT or e.k in ('any', 'class', 'str'):
            return ''
        k = e.k
        if k == 'nt':
            return 'if %s { agree_%s(s, %s, %s); } ' % (self.guard(i, self.rank[e.a], rank), e.a, i, f)
        if k in ('ty', 'action', 'span', 'range', 'opt'):
            return self.agree(e.c[0], i, f, rank)
        if k in ('star', 'plus'):
            return 'if %s { agree_%s(s, %s, %s%s, Seq::empty()); } ' % (self.guard(i, self.rank[id(e)], rank), self.star(e, True), i, f, ', 0' if k == 'plus' else '')
        if k in ('seq', 'choice'):
            out, close = '', ''
            for j, c in enumerate(e.c):
                out += self.agree(c, i, f, rank)
                if j < len(e.c) - 1:
                    x = 'a%d' % self.fresh()
                    out += 'let %s = %s; if %s%s.ok { ' % (x, self.rv(c, i, f, True, rank), '' if k == 'seq' else '!', x)
                    close += '} '
                    f = x + '.far'
                    if k == 'seq':
                        i = x + '.at'
            return out + close
        return ''
    def lemmas(self):
        out = []
        same = 'a.ok == b.ok && (a.ok ==> a.at == b.at) && a.far == b.far'
        for n, e in self.g.rules:
            if e.ty == peg.UNIT:
                continue
            shown = ['par_' + n, 'rec_' + n]
            shown += [x for x in self.mutual(shown) if x not in shown]
            out.append('''pub proof fn agree_%s(s: Seq<char>, i0: nat, far: Far)
  ensures ({ let a = par_%s(s, i0, far); let b = rec_%s(s, i0, far); %s })
  decreases s.len() - i0, %dint
{ %s %s }
''' % (n, n, n, same, self.rank[n], ' '.join('reveal(%s);' % x for x in shown), self.agree(e, 'i0', 'far', self.rank[n])))
        for (i, parser), (name, e, p) in sorted(self.stars.items(), key=lambda x: x[1][0]):
            if not parser:
                continue
            r = self.star(e, False)
            plus = e.k == 'plus'
            N = ', n' if plus else ''
            rank = self.rank[id(e)]
            body = self.rv(e.c[0], 'i', 'far', True, rank).replace('i0', 'i')
            shown = [name, r]
            shown += [x for x in self.mutual(shown) if x not in shown]
            out.append('''pub proof fn agree_%s(s: Seq<char>, i: nat, far: Far%s, acc: %s)
  ensures ({ let a = %s(s, i, far%s, acc); let b = %s(s, i, far%s); %s })
  decreases s.len() - i, %dint
{ %s %s
  let r = %s; if r.ok && i < r.at <= s.len() { agree_%s(s, r.at, r.far%s, acc.push(r.val)); } }
''' % (name, ', n: nat' if plus else '', vt(e.ty), name, N, r, N, same, rank, ' '.join('reveal(%s);' % x for x in shown),
       self.agree(e.c[0], 'i', 'far', rank).replace('i0', 'i'), body, name, ', n + 1' if plus else ''))
        return out
    def mutual(self, names):
        """specification functions that those named call and that call back: without their definition the prover does not
        relate the two names a function of a recursive group has"""
        uses = {}
        for t in self.out:
            m = re.search(r'spec fn (\w+)\(', t)
            uses[m.group(1)] = set(re.findall(r'\b((?:rec|par|rep)_\w+)\(', t[m.end():]))
        def reach(n):
            seen, todo = set(), [n]
            while todo:
                for y in uses[todo.pop()]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        return sorted({y for x in names for y in uses[x] if x in reach(y)})

def cps(e, parser, k):
    """repetitions in the order in which their loops stand in the code of e followed by k()"""
    p = parser and e.ty != peg.UNIT
    out = []
    kk = e.k
    if kk == 'seq':
        def go(cs):
            if not cs:
                return k()
            return cps(cs[0], p, lambda: go(cs[1:]))
        return go(e.c)
    if kk == 'choice':
        for c in e.c:
            out += cps(c, p, k)
        return out
    if kk in ('star', 'plus'):
        return [(e, p)] + cps(e.c[0], p, list) + k()
    if kk == 'opt':
        return cps(e.c[0], p, list) + k()
    if kk in ('not', 'and'):
        return cps(e.c[0], False, list) + k()
    if kk in ('action', 'ty', 'span', 'range'):
        return cps(e.c[0], p, k)
    return k()

class GenEmitter(Emitter):
    pass

def unit(name):
    e = next(x for f in corpus.FILES for x in corpus.load(f) if x.name == name)
    return entry_unit(e)
_memo, _lock = {}, threading.Lock()
def compiled(e):
    """what liboak makes of the grammar (the whole corpus is compiled at once)"""
    with _lock:
        if not _memo:
            es = [e for f in corpus.FILES for e in corpus.load(f)]
            for x, r in zip(es, oakx.run([x.text for x in es])):
                _memo[x.text] = r
        if e.text not in _memo:
            _memo[e.text] = oakx.run([e.text])[0]
        return _memo[e.text]
def entry_unit(e):
    name = e.name
    res = compiled(e)
    if 'code' not in res or any(d['level'] == 'error' for d in res['diags']):
        raise Unsupported('grammar %s is not compiled: %s' % (name, res.get('panic') or res.get('syntax_error') or [d['msg'] for d in res['diags']]))
    d = os.path.join(VERIF, 'build', 'gen')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '.rs')
    open(p, 'w', encoding='utf-8').write(res['code'])
    return build_unit(e, p)

def loop_body_names(n, kind, closures):
    """variables that the loop itself (not a loop inside it) pushes to / increments / remarks"""
    out = []
    def go(x):
        if x.kind == 'call' and x.f.kind == 'path' and x.f.text in closures:
            go(closures[x.f.text].body)
        if x.kind in ('loop', 'while', 'for') and x is not n:
            return
        if kind == 'push' and x.kind == 'mcall' and x.name == 'push' and x.x.kind == 'path':
            out.append(x.x.text)
        if kind == 'count' and x.kind == 'assign' and x.op == '+=' and x.l.kind == 'path':
            out.append(x.l.text)
        if kind == 'mark' and x.kind == 'assign' and x.op == '=' and x.r.kind == 'mcall' and x.r.name == 'mark':
            out.append(x.l.text)
        for c in x.children():
            go(c)
    go(n)
    return sorted(set(out))

def build_unit(e, path):
    g = e.g
    u = Unit('gengram')
    u.emitter = None
    u.no_use |= {'HashSet', 'Formatter', 'Debug', 'Error', 'Ord', 'Range', 'Rc', 'min'}
    S = Spec(g)
    for n, _ in g.rules:
        S.rule(n, False)
        if g.rule[n].ty != peg.UNIT:
            S.rule(n, True)
    # ---- runtime
    u.text_sub += TYPES + [(r'\bimpl<S, (T|U)[^>]*>', r'impl<\1>'), (r'impl<S>', 'impl'), (r'\bS\b(?!tr)', 'VxS'), (r'where\s+VxS\s*:[^{]*', ''),
                   (r'impl<VxS, T, [IP]>|impl<S, T, [IP]>', 'impl<T>'), (r'\bOption<I>', 'Option<char>'), (r'\bprefix: P\b', "prefix: &'static str"), (r'^P$', "&'static str")]
    u.raw(BASE)
    u.raw('pub struct ParseState<T> { pub farthest_read: VxS, pub expected: Vec<&\'static str>, pub failed: bool, pub current: VxS, pub data: Option<T> }')
    check_struct(u)
    def cmp(em, n):
        if n.op in ('>', '==') and em.src[n.l.s:n.l.e].startswith('self.'):
            return '%s.%s(&%s)' % (em.e(n.l), 'vx_gt' if n.op == '>' else 'vx_eq', em.e(n.r))
        return None
    u.cmp_hook = cmp
    K = 'r.same(self)'
    ps = lambda nm, spec, **kw: u.fn(PSF, 'ParseState', nm, spec=spec, **kw)
    ps('is_failed', 'ensures r == self.failed')
    ps('is_successful', 'ensures r == !self.failed')
    ps('error', '''requires old(self).current.text() == old(self).farthest_read.text()
ensures final(self).failed, final(self).current == old(self).current, final(self).data == old(self).data, final(self).farthest_read.text() == old(self).farthest_read.text(),
  final(self).info() == err(old(self).info(), old(self).current.at(), expect)''', proof='proof { lemma_push_set(self.expected@, expect); }')
    ps('success', 'ensures %s, !r.failed, r.current == self.current, r.data == Some(data)' % K)
    ps('failure', 'ensures %s, r.failed, r.current == self.current, r.data.is_none()' % K)
    ps('mark', 'requires !self.failed ensures r == self.current')
    ps('restore_from_failure', 'requires self.failed, self.data.is_none() ensures %s, !r.failed, r.current == mark, r.data.is_none()' % K)
    ps('restore', 'requires self.data.is_none() ensures %s, !r.failed, r.current == mark, r.data.is_none()' % K)
    ps('extract_data', 'requires !self.failed, self.data.is_some() ensures r.0.same(self), !r.0.failed, r.0.current == self.current, r.0.data.is_none(), Some(r.1) == self.data')
    FWD = 'final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).data == old(self).data, final(self).s() == old(self).s(),\n  '
    ps('next', 'ensures ' + FWD + '''old(self).current.at() < old(self).s().len() ==> r == Some(old(self).s()[old(self).current.at() as int]) && final(self).current.at() == old(self).current.at() + 1,
  old(self).current.at() >= old(self).s().len() ==> r.is_none() && final(self).current == old(self).current''', trait='Iterator', generics='')
    ps('consume_prefix', 'ensures ' + FWD + '''r == lit(old(self).s(), old(self).current.at(), prefix@),
  r ==> final(self).current.at() == old(self).current.at() + prefix@.len(), !r ==> final(self).current == old(self).current''', trait='ConsumePrefix', generics='')
    ps('discard_data', 'ensures final(self).data.is_none(), final(self).same(*old(self)), final(self).failed == old(self).failed, final(self).current == old(self).current')
    # ---- actions
    acts = S.acts = {}
    for _, r in g.rules:
        for x in peg.walk(r):
            if x.k == 'action':
                m = re.match(r'.*?(\d)$', x.a[1])
                acts[x.a[1]] = int(m.group(1))
    for a, n in sorted(acts.items()):
        L = 'ABCDEFGH'[:n]
        gp = '<%s>' % ', '.join(L) if n else ''
        u.raw('pub uninterp spec fn act_%s%s(%s) -> VxVal;' % (a, gp, ', '.join('%s: %s' % (x.lower(), x) for x in L)))
        u.raw('#[verifier::external_body] pub fn %s%s(%s) -> (r: VxVal) ensures r == act_%s(%s) { unimplemented!() }' % (
            a, '<%s>' % ', '.join(x + ': VxD' for x in L) if n else '', ', '.join('%s: %s' % (x.lower(), x) for x in L), a, ', '.join('%s.d()' % x.lower() for x in L)))
        u.assumed.add('action %s is a function of its arguments' % a)
    lem = S.lemmas()
    for t in S.out + lem:
        u.raw(t)
    u.lemmas = len(lem)
    # ---- the generated functions
    F = rs.File(path)
    u.files[path] = F
    strlits = sorted({x.a for _, r in g.rules for x in peg.walk(r) if x.k == 'str'})
    reveal = ' '.join('reveal_strlit(%s);' % lits(x) for x in strlits)
    for n, _ in g.rules:
        for parser in (False, True):
            gen_fn(u, S, path, n, parser, reveal)
    return u

def check_struct(u):
    F, it = u.find_item(PSF, 'struct', 'ParseState')
    body = re.sub(r'///[^\n]*|//[^\n]*|\s|pub', '', F.src[it.body_s:it.body_e])
    if body.rstrip('}').rstrip(',') != "{farthest_read:S,expected:Vec<&'staticstr>,failed:bool,current:S,data:Option<T>":
        raise LostAnchor('struct ParseState changed: ' + body)

def gen_fn(u, S, path, name, parser, reveal):
    g = S.g
    e = g.rule[name]
    unit_rule = e.ty == peg.UNIT
    sp = ('par_' if parser and not unit_rule else 'rec_') + name
    loops = [] if parser and unit_rule else cps(e, parser, list)
    used = []
    def closure_stmt(em, n):
        return None
    fn_name = ('parse_' if parser else 'recognize_') + name
    data = 'vx_r.data.is_some() && vx_r.data->0.d() == M.val' if parser else 'vx_r.data == Some(())'
    M = '%s(state.s(), state.current.at(), state.info())' % sp
    spec = '''requires !state.failed, state.data.is_none(), state.current.at() <= state.s().len(), state.farthest_read.text() == state.s()
ensures vx_r.s() == state.s() && vx_r.farthest_read.text() == state.s(),
  vx_r.failed == !M.ok, // [accepted] exactly when the rule matches
  !vx_r.failed ==> vx_r.current.at() == M.at && state.current.at() %s M.at <= state.s().len(), // [accepted] up to where the match ends
  vx_r.info() == M.far, // [farthest] failed terminals
  vx_r.failed ==> vx_r.data.is_none(), // [value] none
  !vx_r.failed ==> %s, // [value] of the match
decreases state.s().len() - state.current.at(), %dint''' % ('<=' if S.nul[name] else '<', data, S.rank[name] * 4 + (2 if parser and unit_rule else 1 if parser else 0))
    spec = re.sub(r'\bM\b', M, spec)
    sts = sorted({S.stars[(id(x), p)][0] for x, p in loops if (id(x), p) in S.stars})
    shown = [sp] + sts
    shown += [x for x in S.mutual(shown) if x not in shown]
    proof = '' if parser and unit_rule else 'proof { %s %s }\n  broadcast use vx_text_fits;\n  let ghost s = state.s(); let ghost i0 = state.current.at();' % (' '.join('reveal(%s);' % x for x in shown), reveal)
    f = u.fn(path, None, fn_name, spec=spec, proof=proof, ret='vx_r', generics='', calls={}, mcalls={})
    f.attr = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] '
    f.emitter = lambda u_, f_, sub: GE(u_, f_, sub, S, loops)
    f.loops = loops
    return f

class GE(Emitter):
    def __init__(self, u, f, sub, S, stars):
        Emitter.__init__(self, u, f, sub)
        self.S, self.stars = S, stars
        self.closures = {}
    def hook(self, n, rec):
        k = n.kind
        if k == 'let' and n.init is not None and n.init.kind == 'closure' and n.pat.kind == 'pat_ident':
            self.closures[n.pat.name] = n.init
            return '/* %s: put at its calls */' % n.pat.name
        if k == 'call' and n.f.kind == 'path' and n.f.text in self.S.acts:
            return '%s(%s)' % (n.f.text, ', '.join(self.e(a) for a in n.args))
        if k == 'call' and n.f.kind == 'path' and n.f.text in self.closures:
            return self.beta(n)
        if k == 'mcall' and n.name == 'push' and len(n.args) == 1 and n.x.kind == 'path':
            return 'vx_push(&mut %s, %s)' % (self.e(n.x), self.e(n.args[0]))
        if k == 'mcall' and n.name == 'stream_span':
            return 'vx_stream_span(%s)' % self.e(n.x)
        if k == 'macro' and n.name == 'vec' and not self.src[n.body_s:n.body_e].strip():
            return 'vx_vec_new()'
        if k == 'binary' and n.op in ('<=', '>=', '<', '>') and 'lit' in (n.l.kind, n.r.kind):
            return None
        return Emitter.hook(self, n, rec)
    def beta(self, n):
        c = self.closures[n.f.text]
        if len(c.params) != len(n.args):
            raise Unsupported('closure call with %d arguments' % len(n.args))
        if self.depth > 40:
            raise Unsupported('closures nest too deep')
        self.depth += 1
        pre, names = '', []
        for p, a in zip(c.params, n.args):
            pt = self.src[p.pat.s:p.pat.e]
            at = self.src[a.s:a.e]
            if a.kind == 'ref' and a.mut:
                if self.src[a.x.s:a.x.e] != pt.replace('mut ', '').strip():
                    raise Unsupported('closure called with a reference to a variable of another name')
                continue        # the body works on the variable itself
            names.append((pt, self.e(a)))
        self.fresh += 1
        for j, (pt, at) in enumerate(names):
            pre += 'let vx_c%d_%d = %s; ' % (self.fresh, j, at)
        k = self.fresh
        for j, (pt, at) in enumerate(names):
            pre += 'let %s = vx_c%d_%d; ' % (pt, k, j)
        body = self.e(c.body)
        self.depth -= 1
        return '{ %s%s }' % (pre, body)
    def loop(self, n):
        i = self.loop_no
        self.loop_no += 1
        if n.kind != 'loop' or i >= len(self.stars):
            raise LostAnchor('%s: a loop that is no repetition of the grammar' % self.f.name)
        e, p = self.stars[i]
        name = self.S.stars[(id(e), p)][0]
        push, cnt, mark = (loop_body_names(n, k, self.closures) for k in ('push', 'count', 'mark'))
        if len(mark) != 1 or len(push) != (1 if p else 0) or len(cnt) > 1:
            raise LostAnchor('%s: loop %d does not look like the repetition %s' % (self.f.name, i, peg.show(e)))
        plus = e.k == 'plus'
        if plus and not cnt and not p:
            raise LostAnchor('%s: no count of iterations in loop %d' % (self.f.name, i))
        c = '%s as nat' % cnt[0] if cnt else '%s@.len()' % push[0] if plus else ''
        k = '%d_%d' % (i, self.fresh)
        start = 's, vx_j%s, vx_f%s' % (k, k) + (', 0' if plus else '') + (', Seq::empty()' if p else '')
        acc = ', %s.d()' % push[0] if p else ''
        here = 's, state.current.at(), state.info()' + (', ' + c if plus else '') + acc
        ty = vt(e.ty) if p else '()'
        val = '%s.d()' % push[0] if p else '()'
        fin = 'done::<%s>(%s.at(), state.info(), %s)' % (ty, mark[0], val)
        if plus:
            fin = '(if %s >= 1 { %s } else { fail::<%s>(state.info()) })' % (c, fin, ty)
        inv = '''  invariant_except_break !state.failed, state.data.is_none(), state.current.at() == {m}.at(), {name}({here}) == {name}({start})
  invariant state.s() == s, state.farthest_read.text() == s, {m}.text() == s, vx_j{k} <= {m}.at() <= s.len(){cc}{mono}
  ensures state.failed, state.data.is_none(), {name}({start}) == {fin}
  decreases s.len() - {m}.at()'''.format(m=mark[0], name=name, here=here, start=start, fin=fin, k=k,
                                        cc=', %s <= %s.at() - vx_j%s' % (cnt[0], mark[0], k) if cnt else '', mono='')
        body = emit_range(self, n.body)
        can = 'proof { if vx_c(%d) { assert(false); /* vx_canary */ } }\n' % (i + 1) if self.canary else ''
        return 'let ghost vx_j%s = state.current.at(); let ghost vx_f%s = state.info();\nloop\n%s\n{ %s%s }\n' % (k, k, inv, can, body)
