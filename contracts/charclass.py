"""Contracts of src/liboak/back/compiler/character_class.rs (C10): the condition a class compiles to, for every class.

A quoted template (`parse_quote!`) is read as what it is, an expression of Rust over its holes: the handler below parses the
text of the template found in the source and restates it over the values of the holes, whatever the template is made of
comparisons, connectives and parentheses. Anything else is unsupported."""
import re
from vx import *
import astlib, wellformed
F = 'src/liboak/back/compiler/character_class.rs'
CC = 'CharacterClassCompiler'

SPEC = r'''
// what the code of a condition answers when the variable with the text x holds the character c
pub uninterp spec fn holds(e: SynExpr, x: Seq<char>, c: char) -> bool;
pub trait VxHole { spec fn code(&self, x: Seq<char>, c: char) -> int; }
pub uninterp spec fn other_var(v: Seq<char>) -> int;
impl VxHole for char { open spec fn code(&self, x: Seq<char>, c: char) -> int { *self as int } }
impl VxHole for Ident { open spec fn code(&self, x: Seq<char>, c: char) -> int { if self@ == x { c as int } else { other_var(self@) } } }
pub trait VxCond { spec fn truth(&self, x: Seq<char>, c: char) -> bool; }
impl VxCond for SynExpr { open spec fn truth(&self, x: Seq<char>, c: char) -> bool { holds(*self, x, c) } }
impl Clone for SynExpr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// quote (assumed): the expression of a template is the template with its holes filled in
#[verifier::external_body] pub fn vx_quote(Ghost(p): Ghost<spec_fn(Seq<char>, char) -> bool>) -> (r: SynExpr) ensures forall|x: Seq<char>, c: char| #[trigger] holds(r, x, c) == p(x, c) { unimplemented!() }
#[verifier::external_body] pub struct VarInPatternFn { x: std::marker::PhantomData<u8> }
// an iterator over copies: the sequence of what it has left
pub fn vx_iter_copy(v: &Vec<CharacterInterval>) -> (r: Vec<CharacterInterval>) ensures r@ == v@ { let mut r: Vec<CharacterInterval> = Vec::new(); let mut i: usize = 0; while i < v.len() invariant i <= v.len(), r@ =~= v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; } proof { assert(v@.take(v@.len() as int) =~= v@); } r }
#[verifier::external_body] pub fn vx_iter_next(v: &mut Vec<CharacterInterval>) -> (r: Option<CharacterInterval>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.drop_first() { unimplemented!() }
pub struct VxUnused { x: std::marker::PhantomData<u8> }

pub open spec fn within(v: CharacterInterval, c: char) -> bool { v.lo as int <= c as int <= v.hi as int }
pub open spec fn in_class(s: Seq<CharacterInterval>, c: char) -> bool { exists|k: int| 0 <= k < s.len() && within(#[trigger] s[k], c) }
pub open spec fn decides(e: SynExpr, x: Seq<char>, s: Seq<CharacterInterval>) -> bool { forall|c: char| #[trigger] holds(e, x, c) == in_class(s, c) }
pub proof fn lemma_class(s: Seq<CharacterInterval>, k: int, c: char) requires 0 <= k < s.len() ensures in_class(s.take(k + 1), c) == (in_class(s.take(k), c) || within(s[k], c))
{
  let a = s.take(k); let b = s.take(k + 1); assert(b[k] == s[k]);
  if in_class(a, c) { let j = choose|j: int| 0 <= j < a.len() && within(#[trigger] a[j], c); assert(b[j] == a[j]); }
  if in_class(b, c) { let j = choose|j: int| 0 <= j < b.len() && within(#[trigger] b[j], c); if j < k { assert(a[j] == b[j]); } }
}
'''
TWO = {'==': '==', '!=': '!=', '<=': '<=', '>=': '>=', '<': '<', '>': '>'}
def denote(n, text):
    """the template over the values of its holes: (what it is, 'cond' or 'code')"""
    if n.kind == 'paren':
        t, k = denote(n.x, text)
        return '(%s)' % t, k
    if n.kind == 'path':
        m = re.match(r'vxh_(\w+)$', text[n.s:n.e].strip())
        if m:
            return m.group(1), 'hole'
    if n.kind == 'binary':
        op = n.op
        a, ka = denote(n.l, text)
        b, kb = denote(n.r, text)
        if op in TWO and ka == kb == 'hole':
            return '(%s.code(vx_x, vx_c) %s %s.code(vx_x, vx_c))' % (a, TWO[op], b), 'cond'
        if op in ('&&', '||'):
            f = lambda t, k: '%s.truth(vx_x, vx_c)' % t if k == 'hole' else t
            return '(%s %s %s)' % (f(a, ka), op, f(b, kb)), 'cond'
    if n.kind == 'unary' and n.op == '!':
        a, k = denote(n.x, text)
        return '!%s' % ('%s.truth(vx_x, vx_c)' % a if k == 'hole' else a), 'cond'
    raise Unsupported('template of a condition')
def h_quote(em, n):
    inner = em.src[n.body_s:n.body_e].strip()
    text = re.sub(r'#(\w+)', r'vxh_\1', inner)
    t, k = denote(rs.parse_expr(text), text)
    if k == 'hole':
        t = '%s.truth(vx_x, vx_c)' % t
    em.u.assumed.add('quote: the expression of a template is the template with its holes filled in; a hole keeps its own grouping')
    return 'vx_quote(Ghost(|vx_x: Seq<char>, vx_c: char| %s))' % t

def h_cloned(em, n):
    if n.x.kind == 'mcall' and n.x.name == 'iter' and not n.x.args:
        return 'vx_iter_copy(&%s)' % em.e(n.x.x)
def h_next(em, n):
    if n.x.kind == 'path':
        return 'vx_iter_next(&mut %s)' % em.e(n.x)
def h_clone(em, n):
    return '%s.clone()' % em.e(n.x)

def unit():
    u = Unit('charclass')
    u.raw(astlib.PRE)
    astlib.text_subs(u)
    u.no_use |= {'quote', 'format_ident', 'Formatter', 'Display'}
    u.macros['parse_quote'] = h_quote
    u.iter_vars = True
    u.mcalls.update(cloned=h_cloned, next=h_next, expect=wellformed.h_expect)
    u.struct(astlib.AST, 'CharacterInterval', derive='#[derive(Clone, Copy)] ')
    u.struct(astlib.AST, 'CharacterClassExpr')
    u.raw(SPEC)
    u.struct(F, CC)
    u.fn(F, CC, 'compile_interval', spec='ensures forall|v: Seq<char>, c: char| $2@ == v ==> #[trigger] holds(r, v, c) == within($1, c)')
    u.fn(F, CC, 'compile_condition', spec='requires self.classes.intervals@.len() > 0 ensures decides(r, $1@, self.classes.intervals@)',
        loops=[Loop('chain', 'invariant $i <= $s@.len(), S == self.classes.intervals@, S.len() == $s@.len() + 1, forall|k: int| 0 <= k < $s@.len() ==> (#[trigger] $s@[k]) == S[k + 1], decides($o, $1@, S.take($i + 1))\n decreases $s.len() - $i', it='map.fold',
            pre='let ghost S = self.classes.intervals@; proof { assert forall|c: char| #[trigger] in_class(S.take(1), c) == within(S[0], c) by { lemma_class(S, 0, c); assert(S.take(0).len() == 0); } assert(decides($o, $1@, S.take(1))); }',
            body='let ghost i0 = $i as int; proof { assert($s@[i0] == S[i0 + 1]); }', tail='proof { assert forall|c: char| #[trigger] holds($o, $1@, c) == in_class(S.take(i0 + 2), c) by { lemma_class(S, i0 + 1, c); } }',
            after='proof { assert(S.take(S.len() as int) =~= S); }')])
    return u
