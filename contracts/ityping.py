"""Contracts of the type inference: src/liboak/middle/typing/{ast,type_rewriting}.rs (C17, C18)."""
from vx import *
import astlib, wellformed
AST = 'src/liboak/middle/typing/ast.rs'
RW = 'src/liboak/middle/typing/type_rewriting.rs'

TYPES = r'''
pub type IGrammar = Grammar<ExpressionInfo<IType>>;
impl Clone for IType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RecPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for RecSet { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Clone for RecSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- types as values; a recursive type is known by whether it needs a value on its way
pub ghost enum Ty { Infer, Rec(bool), Inv, Ext, Unit, Atom, Opt(int), List(int), Tup(Seq<usize>), Rust(SynType) }
pub open spec fn poly(r: RecSet) -> bool { exists|k: int| 0 <= k < r.path_set@.len() && (#[trigger] r.path_set@[k]).kind == RecKind::Poly }
pub open spec fn ty1(t: Type) -> Ty { match t { Unit => Ty::Unit, Atom => Ty::Atom, Optional(c) => Ty::Opt(c as int), List(c) => Ty::List(c as int), Tuple(k) => Ty::Tup(k@), Rust(s) => Ty::Rust(s) } }
pub open spec fn tv(t: IType) -> Ty { match t { Infer => Ty::Infer, Rec(r) => Ty::Rec(poly(r)), Invisible => Ty::Inv, External => Ty::Ext, Regular(x) => ty1(x) } }
pub type Tys = Seq<Ty>;
pub open spec fn tys(s: Seq<ExpressionInfo<IType>>) -> Tys { Seq::new(s.len(), |i: int| tv(s[i].ty)) }
pub open spec fn vt(g: &IGrammar) -> Tys { tys(g.exprs_info@) }
pub open spec fn simple(t: Ty) -> bool { t is Infer || t is Inv || t is Ext || t is Unit }
// derived comparison, and `impl PartialEq for Type`: only against a type without content
#[verifier::external_body] pub fn vx_same_type(a: &IType, b: &IType) -> (r: bool) requires simple(tv(*a)) || simple(tv(*b)) ensures r == (tv(*a) == tv(*b)) { unimplemented!() }
// Vec::contains of recursive paths: what is equal to a path has its kind
#[verifier::external_body] pub fn vx_has_path(v: &Vec<RecPath>, p: &RecPath) -> (r: bool) ensures r ==> exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).kind == p.kind { unimplemented!() }
#[verifier::external_body] pub fn vx_any_type() -> (r: SynType) { unimplemented!() }
pub fn vx_extend(v: &mut Vec<usize>, w: Vec<usize>) ensures final(v)@ == old(v)@ + w@
{ let n = w.len(); let ghost v0 = v@; let mut i = 0; while i < n invariant i <= n, n == w@.len(), v@ =~= v0 + w@.take(i as int) decreases n - i { v.push(w[i]); i += 1; } proof { assert(w@.take(n as int) =~= w@); } }
// ---- recursive paths: not empty, and made of rules
pub open spec fn pok(r: Seq<RecPath>, rs: Seq<Rule>) -> bool { forall|k: int| 0 <= k < r.len() ==> path_ok(#[trigger] r[k], rs) }
pub open spec fn path_ok(p: RecPath, rs: Seq<Rule>) -> bool { p.path@.len() > 0 && cycle(p.path@) && forall|j: int| 0 <= j < p.path@.len() ==> names_rule(rs, (#[trigger] p.path@[j])@) }
// any relation in which a rule stands to the rules it refers to; a recursive path goes round a cycle of it
pub uninterp spec fn calls(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn cycle(p: Seq<Ident>) -> bool { p.len() > 0 && calls(p[0]@, p.last()@) && forall|j: int| 0 < j < p.len() ==> calls((#[trigger] p[j])@, p[j - 1]@) }
pub open spec fn iok(t: IType, rs: Seq<Rule>) -> bool { match t { Rec(r) => r.path_set@.len() > 0 && pok(r.path_set@, rs), _ => true } }
pub open spec fn in_refs(t: Ty, n: int) -> bool { match t { Ty::Opt(c) => 0 <= c < n, Ty::List(c) => 0 <= c < n, Ty::Tup(k) => forall|j: int| 0 <= j < k.len() ==> (#[trigger] k[j]) < n, _ => true } }
// what stands in a grammar: recursive types are sound, references are within the grammar
pub open spec fn gok(g: &IGrammar) -> bool {
  (forall|i: int| 0 <= i < g.exprs_info@.len() ==> iok((#[trigger] g.exprs_info@[i]).ty, g.rules@) && in_refs(tv(g.exprs_info@[i].ty), g.exprs_info@.len() as int))
  && (forall|k: int| 0 <= k < g.rules@.len() ==> (#[trigger] g.rules@[k]).expr_idx < g.exprs_info@.len())
}
'''

JUDGE = r'''
// ---- the typing rules (written from the documentation)
pub open spec fn has_value(t: Ty) -> bool { t is Ext || t is Atom || t is Opt || t is List || t is Tup || t is Rust }
pub open spec fn unary(T: Tys, c: int, t: Ty) -> Ty { match T[c] { Ty::Inv => Ty::Inv, Ty::Rec(_) => Ty::Rec(true), _ => t } }
pub open spec fn parts(T: Tys, i: usize) -> Seq<usize> { match T[i as int] { Ty::Tup(k) => k, _ => seq![i] } }
pub open spec fn flat(T: Tys, ks: Seq<usize>) -> Seq<usize> decreases ks.len() { if ks.len() == 0 { Seq::empty() } else { flat(T, ks.drop_last()) + parts(T, ks.last()) } }
pub open spec fn some_rec(T: Tys, ks: Seq<usize>) -> bool { exists|k: int| 0 <= k < ks.len() && T[(#[trigger] ks[k]) as int] is Rec }
pub open spec fn some_poly(T: Tys, ks: Seq<usize>) -> bool { exists|k: int| 0 <= k < ks.len() && (T[(#[trigger] ks[k]) as int] == Ty::Rec(true) || has_value(T[ks[k] as int])) }
pub open spec fn visible(T: Tys) -> spec_fn(usize) -> bool { |k: usize| T[k as int] != Ty::Inv }
pub open spec fn valued(T: Tys) -> spec_fn(usize) -> bool { |k: usize| T[k as int] != Ty::Unit }
// the parts that produce something, nested tuples flattened; a single one unwrapped
pub open spec fn tuple(T: Tys, ks: Seq<usize>) -> Ty {
  let fl = flat(T, ks);
  if some_rec(T, fl) { Ty::Rec(some_poly(T, fl)) } else {
    let v = fl.filter(visible(T)); let w = v.filter(valued(T));
    if v.len() == 0 { Ty::Inv } else if w.len() == 0 { Ty::Unit } else if w.len() == 1 { T[w[0] as int] } else { Ty::Tup(w) }
  }
}
pub open spec fn red(T: Tys, t: Ty) -> Ty { match t { Ty::Opt(c) => unary(T, c, t), Ty::List(c) => unary(T, c, t), Ty::Tup(k) => tuple(T, k), _ => t } }
// ---- sameness of types (types of Rust are left to the Rust compiler)
pub open spec fn teq(T: Tys, f: nat, a: Ty, b: Ty) -> Option<bool> decreases f, 0nat {
  if f == 0 { None } else { let h = (f - 1) as nat; match (a, b) {
    (Ty::Inv, Ty::Inv) => Some(true), (Ty::Ext, Ty::Ext) => Some(true), (Ty::Unit, Ty::Unit) => Some(true), (Ty::Atom, Ty::Atom) => Some(true), (Ty::Rust(_), Ty::Rust(_)) => Some(true),
    (Ty::Opt(x), Ty::Opt(y)) => teq(T, h, T[x], T[y]), (Ty::List(x), Ty::List(y)) => teq(T, h, T[x], T[y]),
    (Ty::Tup(x), Ty::Tup(y)) => if x.len() == y.len() { teq_all(T, h, x, y) } else { Some(false) },
    _ => Some(false),
  } }
}
pub open spec fn teq_all(T: Tys, f: nat, x: Seq<usize>, y: Seq<usize>) -> Option<bool> decreases f, x.len() + 1
{ if x.len() == 0 || y.len() == 0 { Some(true) } else { match teq_all(T, f, x.drop_last(), y.drop_last()) { Some(true) => teq(T, f, T[x.last() as int], T[y.last() as int]), o => o } } }
pub open spec fn same(T: Tys, a: Ty, b: Ty, r: bool) -> bool { exists|f: nat| #[trigger] teq(T, f, a, b) == Some(r) }
pub open spec fn same_all(T: Tys, x: Seq<usize>, y: Seq<usize>, r: bool) -> bool { exists|f: nat| #[trigger] teq_all(T, f, x, y) == Some(r) }
pub proof fn lemma_teq(T: Tys, f: nat, h: nat, a: Ty, b: Ty) requires f <= h, teq(T, f, a, b).is_some() ensures teq(T, h, a, b) == teq(T, f, a, b) decreases f, 0nat
{
  let p = (f - 1) as nat; let q = (h - 1) as nat;
  match (a, b) { (Ty::Opt(x), Ty::Opt(y)) => lemma_teq(T, p, q, T[x], T[y]), (Ty::List(x), Ty::List(y)) => lemma_teq(T, p, q, T[x], T[y]), (Ty::Tup(x), Ty::Tup(y)) => if x.len() == y.len() { lemma_teq_all(T, p, q, x, y); }, _ => {} }
}
pub proof fn lemma_teq_all(T: Tys, f: nat, h: nat, x: Seq<usize>, y: Seq<usize>) requires f <= h, teq_all(T, f, x, y).is_some() ensures teq_all(T, h, x, y) == teq_all(T, f, x, y) decreases f, x.len() + 1
{ if x.len() > 0 && y.len() > 0 { lemma_teq_all(T, f, h, x.drop_last(), y.drop_last()); if teq_all(T, f, x.drop_last(), y.drop_last()) == Some(true) { lemma_teq(T, f, h, T[x.last() as int], T[y.last() as int]); } } }
pub proof fn lemma_same_down(T: Tys, x: int, y: int, r: bool) requires same(T, T[x], T[y], r) ensures same(T, Ty::Opt(x), Ty::Opt(y), r), same(T, Ty::List(x), Ty::List(y), r)
{ let f = choose|f: nat| #[trigger] teq(T, f, T[x], T[y]) == Some(r); assert(teq(T, f + 1, Ty::Opt(x), Ty::Opt(y)) == Some(r)); assert(teq(T, f + 1, Ty::List(x), Ty::List(y)) == Some(r)); }
pub proof fn lemma_same_tup(T: Tys, x: Seq<usize>, y: Seq<usize>, r: bool) requires x.len() == y.len(), same_all(T, x, y, r) ensures same(T, Ty::Tup(x), Ty::Tup(y), r)
{ let f = choose|f: nat| #[trigger] teq_all(T, f, x, y) == Some(r); assert(teq(T, f + 1, Ty::Tup(x), Ty::Tup(y)) == Some(r)); }
pub proof fn lemma_same_push(T: Tys, x: Seq<usize>, y: Seq<usize>, i: int, r: bool)
  requires 0 <= i < x.len(), x.len() == y.len(), same_all(T, x.take(i), y.take(i), true), same(T, T[x[i] as int], T[y[i] as int], r)
  ensures same_all(T, x.take(i + 1), y.take(i + 1), r)
{
  let f = choose|f: nat| #[trigger] teq_all(T, f, x.take(i), y.take(i)) == Some(true); let h = choose|h: nat| #[trigger] teq(T, h, T[x[i] as int], T[y[i] as int]) == Some(r);
  let m: nat = if f > h { f } else { h };
  lemma_teq_all(T, f, m, x.take(i), y.take(i)); lemma_teq(T, h, m, T[x[i] as int], T[y[i] as int]);
  assert(x.take(i + 1).drop_last() =~= x.take(i)); assert(y.take(i + 1).drop_last() =~= y.take(i));
  assert(teq_all(T, m, x.take(i + 1), y.take(i + 1)) == Some(r));
}
pub proof fn lemma_same_stop(T: Tys, x: Seq<usize>, y: Seq<usize>, i: int)
  requires 0 <= i <= x.len(), x.len() == y.len(), same_all(T, x.take(i), y.take(i), false) ensures same_all(T, x, y, false) decreases x.len() - i
{
  if i == x.len() { assert(x.take(i) =~= x); assert(y.take(i) =~= y); } else {
    let f = choose|f: nat| #[trigger] teq_all(T, f, x.take(i), y.take(i)) == Some(false);
    assert(x.take(i + 1).drop_last() =~= x.take(i)); assert(y.take(i + 1).drop_last() =~= y.take(i));
    assert(teq_all(T, f, x.take(i + 1), y.take(i + 1)) == Some(false));
    lemma_same_stop(T, x, y, i + 1);
  }
}
pub proof fn lemma_same_end(T: Tys, x: Seq<usize>, y: Seq<usize>, r: bool) requires same_all(T, x.take(x.len() as int), y.take(y.len() as int), r) ensures same_all(T, x, y, r)
{ assert(x.take(x.len() as int) =~= x); assert(y.take(y.len() as int) =~= y); }
// a type that can be compared: what it refers to is within the grammar
pub open spec fn in_all(T: Tys) -> bool { forall|i: int| 0 <= i < T.len() ==> in_refs(#[trigger] T[i], T.len() as int) }
pub open spec fn no_rec(T: Tys, t: Ty) -> bool { match t { Ty::Rec(_) => false, Ty::Opt(c) => !(T[c] is Rec), Ty::List(c) => !(T[c] is Rec), Ty::Tup(k) => forall|j: int| 0 <= j < k.len() ==> !(T[(#[trigger] k[j]) as int] is Rec), _ => true } }
pub open spec fn no_rec_inside(T: Tys) -> bool { forall|i: int| 0 <= i < T.len() ==> (#[trigger] T[i] is Rec) || no_rec(T, T[i]) }
// ---- the type of a choice
pub open spec fn has_poly(ts: Seq<Ty>) -> bool { exists|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) == Ty::Rec(true) }
pub open spec fn agrees(T: Tys, ts: Seq<Ty>, t: Ty) -> bool { forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Rec || ts[k] is Ext || ts[k] == t || same(T, ts[k], t, true) }
pub open spec fn unify(T: Tys, ts: Seq<Ty>, t: Ty) -> bool {
  !has_poly(ts) && (
    t == Ty::Rec(false) && (forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Rec)
    || !(t is Rec) && (exists|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) == t) && agrees(T, ts, t)
    || t == Ty::Inv && (forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Rec || ts[k] is Inv || ts[k] is Unit))
}
pub open spec fn value_type(t: Ty) -> bool { !(t is Rec) && !(t is Ext) }
pub open spec fn clash(T: Tys, ts: Seq<Ty>) -> bool {
  has_poly(ts) || ((exists|j: int, k: int| 0 <= j < ts.len() && 0 <= k < ts.len() && value_type(ts[j]) && value_type(ts[k]) && same(T, #[trigger] ts[j], #[trigger] ts[k], false))
    && (exists|k: int| 0 <= k < ts.len() && !((#[trigger] ts[k]) is Rec) && !(ts[k] is Inv) && !(ts[k] is Unit)))
}
'''

def lit_type(s):
    return re.match(r'&?\s*(IType::)?(Infer|Invisible|External|Regular\(\s*(Type::)?Unit\s*\))$', s.strip())

VEC = {'tuple_inlining': 'usize', 'reduce_sum': 'IType'}     # the element type of `vec![]`, where the contract needs it
def node_hook(em, n):
    if n.kind == 'macro' and n.name == 'vec' and em.f.name in VEC and not em.src[n.body_s:n.body_e].strip():
        return 'Vec::<%s>::new()' % VEC[em.f.name]
    if n.kind == 'binary' and n.op in ('==', '!='):
        l, r = em.src[n.l.s:n.l.e], em.src[n.r.s:n.r.e]
        if lit_type(l) or lit_type(r):
            isref = lambda t: t.strip().startswith('&') or t.strip() in ('self',)
            refs = isref(r) or isref(l)
            a, b = em.e(n.l), em.e(n.r)
            return '(%svx_same_type(%s, %s))' % ('' if n.op == '==' else '!', a if refs else '&(%s)' % a, b if refs else '&(%s)' % b)
    if n.kind == 'index' and em.src[n.x.s:n.x.e] in ('self', 'self.grammar', 'grammar', 'self.surface.grammar') and (em.src[n.x.s:n.x.e] != 'self' or em.f.ty == 'IGrammar'):
        return '%s.exprs_info[%s]' % (em.e(n.x), em.e(n.ix))
    if n.kind == 'assign' and n.op in ('|=', '&='):
        return '{ let vx_r: bool = %s; %s = %s %s vx_r; }' % (em.e(n.r), em.e(n.l), em.e(n.l), n.op[0] * 2)

def index_is_info(u):
    """`g[i]` on a grammar is `g.exprs_info[i]`"""
    for tr, amp in (('Index', '&'), ('IndexMut', '&mut ')):
        F, im, f = u.lookup(astlib.AST, 'Grammar', 'index' if tr == 'Index' else 'index_mut', tr)
        if re.sub(r'\s', '', F.src[f.body.s:f.body.e]) != re.sub(r'\s', '', '{%sself.exprs_info[index]}' % amp):
            raise LostAnchor('indexing a Grammar is not indexing exprs_info any more')
    u.drops.add('src/liboak/ast.rs: g[i] on a Grammar is replaced by what Index/IndexMut stand for, g.exprs_info[i] (the impls are compared)')

def h_extend(em, n):
    a = n.args[0]
    if a.kind == 'mcall' and a.name == 'into_iter' and not a.args:
        return 'vx_extend(&mut %s, %s)' % (em.e(n.x), em.e(a.x))
    raise Unsupported('extend')

def h_contains(em, n):
    if em.src[n.x.s:n.x.e].endswith('path_set'):
        return 'vx_has_path(&%s, %s)' % (em.e(n.x), em.e(n.args[0]))

def base(u):
    astlib.ast(u, itype=False)
    u.raw(astlib.PARTIAL)
    u.raw(astlib.DIAG)
    u.raw(astlib.STRUCT)
    u.raw(astlib.RULES)
    u.enum(AST, 'RecKind', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)] ', subst=[(r'//[^\n]*', '')])
    u.struct(AST, 'RecPath')
    u.struct(AST, 'RecSet')
    u.enum(AST, 'IType', subst=[(r'//[^\n]*', '')])
    u.enum(AST, 'Type', subst=[(r'//[^\n]*', '')])
    u.struct(AST, 'ExpressionInfo')
    u.raw('use IType::*; use Type::*;\npub struct TypeRewriting;\n')
    u.raw(TYPES)
    u.raw(JUDGE)
    index_is_info(u)
    u.node_hook = node_hook
    u.calls['syn::parse_str'] = lambda em, n: 'Some(vx_any_type())'
    u.mcalls.update(expect=lambda em, n: '%s.unwrap()' % em.e(n.x) if 'parse_str' in em.src[n.x.s:n.x.e] else wellformed.h_expect(em, n), extend=h_extend, contains=h_contains)

ND = '#[verifier::exec_allows_no_decreases_clause] '

def rewriting(u):
    A = astlib.AST
    u.fn(A, 'Rule', 'ident', trait='ItemIdent', spec='ensures r == self.name')
    u.fn(A, 'Grammar', 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.exprs.len() ensures r == self.exprs@[$1 as int]')
    wellformed.rule_lookup(u)
    u.fn(AST, 'ExpressionInfo', 'ty', spec='ensures call_ensures(Ty::clone, (&self.ty,), r)')
    u.fn(AST, 'IGrammar', 'type_of', spec='requires $1 < self.exprs_info@.len() ensures r == self.exprs_info@[$1 as int].ty, tv(r) == vt(self)[$1 as int]')
    # recursive paths
    u.fn(AST, 'RecPath', 'new', spec='requires $2@.len() > 0 ensures r.kind == $1, r.path == $2')
    u.fn(AST, 'RecPath', 'to_polymorphic_path', spec='requires self.path@.len() > 0 ensures r.kind == RecKind::Poly, r.path == self.path')
    u.fn(AST, 'RecSet', 'new', spec='ensures r.path_set@ == seq![$1]')
    u.fn(AST, 'RecSet', 'empty', spec='ensures r.path_set@ == Seq::<RecPath>::empty()')
    u.fn(AST, 'RecSet', 'is_empty', spec='ensures r == (self.path_set@.len() == 0)')
    u.fn(AST, 'RecSet', 'union', spec="""ensures poly(r) == (poly(self) || poly($1)), (r.path_set@.len() == 0) == (self.path_set@.len() == 0 && $1.path_set@.len() == 0),
  forall|rs: Seq<Rule>| #![trigger pok(r.path_set@, rs)] pok(self.path_set@, rs) && pok($1.path_set@, rs) ==> pok(r.path_set@, rs)""",
        loops=[Loop('for', """invariant 0 <= vx_it.index@ <= vx_q0.len(), vx_it.seq() == vx_q0, vx_q0 == $1.path_set@, self.path_set@.is_prefix_of(vx_self.path_set@),
  poly(vx_self) == (poly(self) || exists|k: int| 0 <= k < vx_it.index@ && (#[trigger] vx_q0[k]).kind == RecKind::Poly),
  (vx_self.path_set@.len() == 0) == (self.path_set@.len() == 0 && vx_it.index@ == 0),
  forall|rs: Seq<Rule>| #![trigger pok(vx_self.path_set@, rs)] pok(self.path_set@, rs) && pok(vx_q0, rs) ==> pok(vx_self.path_set@, rs)""", it='vx_it', hoist=True,
            body='let ghost s0 = vx_self.path_set@; let ghost i0 = vx_it.index@ as int; proof { assert($var == vx_q0[i0]); }',
            tail="""proof { let s1 = vx_self.path_set@; let w = vx_q0[i0]; assert(s1 == s0 || s1 == s0.push(w));
   assert forall|k: int| 0 <= k < s0.len() implies s1[k] == s0[k] by {}
   if s1 == s0.push(w) { assert(s1[s0.len() as int] == w); if poly(vx_self) { let k = choose|k: int| 0 <= k < s1.len() && (#[trigger] s1[k]).kind == RecKind::Poly; if k < s0.len() { assert(s0[k].kind == RecKind::Poly); } else { assert(vx_q0[i0].kind == RecKind::Poly); } } }
   if exists|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).kind == RecKind::Poly { let k = choose|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).kind == RecKind::Poly; assert(s1[k].kind == RecKind::Poly); }
   if w.kind == RecKind::Poly && s1 == s0.push(w) { assert(s1[s0.len() as int].kind == RecKind::Poly); }
   assert forall|rs: Seq<Rule>| #![trigger pok(s1, rs)] pok(self.path_set@, rs) && pok(vx_q0, rs) implies pok(s1, rs) by { assert(pok(s0, rs)); assert(path_ok(vx_q0[i0], rs)); assert forall|k: int| 0 <= k < s1.len() implies path_ok(#[trigger] s1[k], rs) by { if k < s0.len() { assert(path_ok(s0[k], rs)); } } } }""")])
    u.fn(AST, 'RecSet', 'entry_point', spec='requires self.path_set@.len() > 0, self.path_set@[0].path@.len() > 0 ensures r == self.path_set@[0].path@[0]')
    u.fn(AST, 'RecSet', 'to_polymorphic_path', spec="""requires forall|k: int| 0 <= k < self.path_set@.len() ==> (#[trigger] self.path_set@[k]).path@.len() > 0
ensures r.path_set@.len() == self.path_set@.len(), forall|k: int| 0 <= k < r.path_set@.len() ==> (#[trigger] r.path_set@[k]).kind == RecKind::Poly && r.path_set@[k].path == self.path_set@[k].path, r.path_set@.len() > 0 ==> poly(r)""",
        loops=[Loop('chain', 'invariant vx_it0.seq() == vx_q0, vx_q0 == self.path_set@, 0 <= $i <= vx_q0.len(), $o@.len() == $i, forall|k: int| 0 <= k < vx_q0.len() ==> (#[trigger] vx_q0[k]).path@.len() > 0, forall|k: int| 0 <= k < $o@.len() ==> (#[trigger] $o@[k]).kind == RecKind::Poly && $o@[k].path == vx_q0[k].path', it='map.collect', own=True, ety='Vec<RecPath>',
            body='proof { assert(vx_x == vx_q0[$i as int]); }', after='proof { if $o@.len() > 0 { assert($o@[0].kind == RecKind::Poly); } }')])
    u.fn(AST, 'RecSet', 'is_polymorphic', spec='ensures r == poly(*self)',
        loops=[Loop('chain', 'invariant $i <= $s.len(), $s@ == self.path_set@, $go == !$o, $o ==> poly(*self), forall|k: int| 0 <= k < $i ==> (#[trigger] self.path_set@[k]).kind != RecKind::Poly || $o\n decreases $s.len() - $i', it='any',
            body='let ghost i0 = $i as int;', tail='proof { if $o { assert(self.path_set@[i0].kind == RecKind::Poly); } }')])
    # sameness
    SAME = 'requires gok($1), in_refs(%s, vt($1).len() as int), in_refs(%s, vt($1).len() as int), no_rec(vt($1), %s), no_rec(vt($1), %s), no_rec_inside(vt($1))\nensures same(vt($1), %s, %s, r)'
    IN = 'proof { lemma_in($1); }'
    u.raw('pub proof fn lemma_in(g: &IGrammar) requires gok(g) ensures in_all(vt(g)) { assert forall|i: int| 0 <= i < vt(g).len() implies in_refs(#[trigger] vt(g)[i], vt(g).len() as int) by { assert(in_refs(tv(g.exprs_info@[i].ty), g.exprs_info@.len() as int)); } }\n')
    u.fn(AST, 'IType', 'syntactic_eq', attr=ND, spec=SAME % (('tv(*self)', 'tv(*$2)') * 3), proof='proof { lemma_in($1); let T = vt($1); assert(teq(T, 1, tv(*self), tv(*$2)).is_some() ==> same(T, tv(*self), tv(*$2), teq(T, 1, tv(*self), tv(*$2)).unwrap())); }')
    u.fn(AST, 'Type', 'syntactic_eq', attr=ND, spec=SAME % (('ty1(*self)', 'ty1(*$2)') * 3),
        proof="""let ghost T = vt($1); proof { lemma_in($1); assert(teq(T, 1, ty1(*self), ty1(*$2)).is_some() ==> same(T, ty1(*self), ty1(*$2), teq(T, 1, ty1(*self), ty1(*$2)).unwrap()));
  assert forall|x: int, y: int, b: bool| #![trigger same(T, T[x], T[y], b)] same(T, T[x], T[y], b) implies same(T, Ty::Opt(x), Ty::Opt(y), b) && same(T, Ty::List(x), Ty::List(y), b) by { lemma_same_down(T, x, y, b); } }""",
        loops=[Loop('for', """invariant T == vt($1), gok($1), in_all(T), no_rec_inside(T), $a@.len() == $b@.len(), $i <= $a@.len(), ty1(*self) == Ty::Tup($a@), ty1(*$2) == Ty::Tup($b@), in_refs(ty1(*self), T.len() as int), in_refs(ty1(*$2), T.len() as int), no_rec(T, ty1(*self)), no_rec(T, ty1(*$2)),
  same_all(T, $a@.take($i as int), $b@.take($i as int), true)\n  decreases $a.len() - $i""", pre='proof { assert($a@.take(0) =~= Seq::<usize>::empty()); assert(teq_all(T, 0, $a@.take(0), $b@.take(0)) == Some(true)); }',
            body="""proof { let j = $i as int; let x = $a@[j] as int; let y = $b@[j] as int; assert(in_refs(T[x], T.len() as int)); assert(in_refs(T[y], T.len() as int)); assert(!(T[x] is Rec)); assert(!(T[y] is Rec)); assert(no_rec(T, T[x])); assert(no_rec(T, T[y]));
  assert forall|b: bool| #[trigger] same(T, T[x], T[y], b) implies same_all(T, $a@.take(j + 1), $b@.take(j + 1), b) by { lemma_same_push(T, $a@, $b@, j, b); }
  assert(same_all(T, $a@.take(j + 1), $b@.take(j + 1), false) ==> same(T, ty1(*self), ty1(*$2), false)) by { if same_all(T, $a@.take(j + 1), $b@.take(j + 1), false) { lemma_same_stop(T, $a@, $b@, j + 1); lemma_same_tup(T, $a@, $b@, false); } } }""",
            after='proof { lemma_same_end(T, $a@, $b@, true); lemma_same_tup(T, $a@, $b@, true); }')])
    u.fn(AST, 'IType', 'is_unit_kind', spec='ensures r == (tv(*self) is Inv || tv(*self) is Unit)')

    T = 'TypeRewriting'
    OKT = 'gok($1), in_refs(%s, vt($1).len() as int)'
    OUT = 'iok(r, $1.rules@), in_refs(tv(r), vt($1).len() as int)'
    u.fn(RW, T, 'reduce_rec', spec="""requires gok($1), iok($2, $1.rules@)
ensures !($2 is Rec) ==> r == $2, $2 is Rec && poly($2->Rec_0) ==> r is Invisible, $2 is Rec ==> !(r is Rec) && !(r is Infer) && (r is Invisible || exists|i: int| 0 <= i < vt($1).len() && #[trigger] vt($1)[i] == tv(r)),
  $2 is Rec && !poly($2->Rec_0) ==> leaves($1, $2->Rec_0, r)""",
        loops=[Loop('for', 'invariant $2 is Rec, $2->Rec_0 == r, !poly(r), gok($1), pok(r.path_set@, $1.rules@), vx_it.seq().len() == r.path_set@.len(), 0 <= vx_it.index@ <= vx_it.seq().len(), forall|k: int| 0 <= k < vx_it.seq().len() ==> *(#[trigger] vx_it.seq()[k]) == r.path_set@[k], forall|k: int| 0 <= k < vx_it.index@ ==> all_rec($1, (#[trigger] r.path_set@[k]).path@)', it='vx_it',
                body='proof { assert(path_ok(r.path_set@[vx_it.index@ as int], $1.rules@)); }'),
               Loop('for', 'invariant $2 is Rec, $2->Rec_0 == r, !poly(r), gok($1), pok(r.path_set@, $1.rules@), path_ok(*rec_path, $1.rules@), *rec_path == r.path_set@[vx_it.index@ as int], 0 <= vx_it.index@ < r.path_set@.len(), vx_jt.seq().len() == rec_path.path@.len(), 0 <= vx_jt.index@ <= vx_jt.seq().len(), forall|k: int| 0 <= k < vx_jt.seq().len() ==> *(#[trigger] vx_jt.seq()[k]) == rec_path.path@[k], forall|k: int| 0 <= k < vx_jt.index@ ==> undecided(root_ty($1, (#[trigger] rec_path.path@[k])@)), forall|k: int| 0 <= k < vx_it.index@ ==> all_rec($1, (#[trigger] r.path_set@[k]).path@)', it='vx_jt',
                body="""proof { let q = vx_jt.index@ as int; let i = vx_it.index@ as int; assert(*ident == rec_path.path@[q]); assert(names_rule($1.rules@, rec_path.path@[q]@)); lemma_rule($1.rules@, ident@); let e = rule_expr($1.rules@, ident@); assert(root_ty($1, ident@) == vt($1)[e]);
   if !undecided(root_ty($1, ident@)) { assert(first_at($1, r, i, q)); } }""")])
    u.fn(RW, T, 'reduce_rec_entry_point', spec="""requires gok($1), iok($3, $1.rules@)
ensures !($3 is Rec) ==> r == $3, r is Rec ==> r == $3, $3 is Rec && !(r is Rec) ==> !(r is Infer) && $3->Rec_0.entry_point_is($2@) && if poly($3->Rec_0) { r is Invisible } else { leaves($1, $3->Rec_0, r) },
  $3 is Rec && $3->Rec_0.entry_point_is($2@) ==> !(r is Rec), in_refs(tv($3), vt($1).len() as int) ==> in_refs(tv(r), vt($1).len() as int), iok(r, $1.rules@)""", proof='proof { lemma_in($1); if $3 is Rec { assert(path_ok($3->Rec_0.path_set@[0], $1.rules@)); } }')
    u.fn(RW, T, 'reduce_final', spec="requires !($1 is Infer), !($1 is Rec) ensures match $1 { Invisible => r is Unit, External => r is Rust, Regular(t) => r == t, _ => false }")
    u.fn(RW, T, 'reduce_unary', spec='requires gok($1), iok($3, $1.rules@), $2 < vt($1).len(), tv($3) == Ty::Opt($2 as int) || tv($3) == Ty::List($2 as int) ensures tv(r) == unary(vt($1), $2 as int, tv($3)), %s' % OUT,
        proof='proof { lemma_in($1); assert(iok($1.exprs_info@[$2 as int].ty, $1.rules@)); if $1.exprs_info@[$2 as int].ty is Rec { lemma_paths($1.exprs_info@[$2 as int].ty->Rec_0, $1.rules@); } }')
    IX = 'forall|k: int| 0 <= k < %s.len() ==> (#[trigger] %s[k]) < vt($1).len()'
    u.fn(RW, T, 'tuple_inlining', spec='requires gok($1), %s ensures r@ == flat(vt($1), $2@), %s' % (IX % ('$2@', '$2@'), IX % ('r@', 'r@')),
        loops=[Loop('for', 'invariant gok($1), in_all(vt($1)), vx_it.seq() == vx_q0, vx_q0 == $2@, 0 <= vx_it.index@ <= vx_q0.len(), %s, %s, unpacked_indexes@ == flat(vt($1), vx_q0.take(vx_it.index@ as int))' % (IX % ('vx_q0', 'vx_q0'), IX % ('unpacked_indexes@', 'unpacked_indexes@')), it='vx_it', hoist=True, pre2='proof { lemma_in($1); }\n',
            body='let ghost i0 = vx_it.index@ as int; proof { let a = vx_q0.take(i0 + 1); assert(a.drop_last() =~= vx_q0.take(i0)); assert(a.last() == vx_q0[i0]); assert($var < vt($1).len()); assert(in_refs(vt($1)[$var as int], vt($1).len() as int)); }',
            tail='proof { assert(unpacked_indexes@ =~= flat(vt($1), vx_q0.take(i0 + 1))); }', after='proof { assert(vx_q0.take(vx_q0.len() as int) =~= vx_q0); }')])
    u.fn(RW, T, 'tuple_rec', spec="""requires gok($1), %s ensures r.is_some() == some_rec(vt($1), $2@), r.is_some() ==> tv(r.unwrap()) == Ty::Rec(some_poly(vt($1), $2@)) && iok(r.unwrap(), $1.rules@)""" % (IX % ('$2@', '$2@')),
        loops=[Loop('for', """invariant gok($1), %s, vx_it.seq().len() == $2@.len(), 0 <= vx_it.index@ <= $2@.len(), forall|k: int| 0 <= k < $2@.len() ==> *(#[trigger] vx_it.seq()[k]) == $2@[k], pok(rec_set.path_set@, $1.rules@),
  (rec_set.path_set@.len() > 0) == some_rec(vt($1), $2@.take(vx_it.index@ as int)), (poly(rec_set) || is_polymorphic) == some_poly(vt($1), $2@.take(vx_it.index@ as int))""" % (IX % ('$2@', '$2@')), it='vx_it',
            body='proof { let i = vx_it.index@ as int; assert(*$var == $2@[i]); assert(iok($1.exprs_info@[$2@[i] as int].ty, $1.rules@)); lemma_some(vt($1), $2@, i); }', after='proof { assert($2@.take($2@.len() as int) =~= $2@); if rec_set.path_set@.len() > 0 { lemma_paths(rec_set, $1.rules@); } }')])
    FILT = "invariant %s, $s@ == $1s, $i <= $s@.len(), $o@ == $s@.take($i as int).filter(%s)\n  decreases $s.len() - $i"
    for n, p in (('tuple_invisible', 'visible'), ('tuple_unit', 'valued')):
        u.fn(RW, T, n, spec='requires gok($1), %s ensures r@ == $2@.filter(%s(vt($1))), %s' % (IX % ('$2@', '$2@'), p, IX % ('r@', 'r@')),
            loops=[Loop('chain', 'invariant gok($1), %s, $s@ == $2@, $i <= $s@.len(), $o@ == $s@.take($i as int).filter(%s(vt($1)))\n  decreases $s.len() - $i' % (IX % ('$s@', '$s@'), p), it='filter.collect', pre='proof { reveal(Seq::filter); assert($s@.take(0).filter(%s(vt($1))) =~= Seq::<usize>::empty()); }' % p,
                body='proof { reveal(Seq::filter); let a = $s@.take($i + 1); assert(a.drop_last() =~= $s@.take($i as int)); assert(a.last() == $s@[$i as int]); }', after='proof { assert($s@.take($s@.len() as int) =~= $s@); lemma_filter_in($s@, %s(vt($1)), vt($1).len() as int); }' % p)])
    u.fn(RW, T, 'reduce_tuple', spec='requires gok($1), $2@.len() > 0, %s ensures tv(r) == tuple(vt($1), $2@), %s' % (IX % ('$2@', '$2@'), OUT),
        proof='proof { lemma_in($1); assert forall|i: int| 0 <= i < vt($1).len() implies iok((#[trigger] $1.exprs_info@[i]).ty, $1.rules@) by {} }')
    u.fn(RW, T, 'reduce_regular', spec='requires gok($1), in_refs(ty1($2), vt($1).len() as int), $2 is Tuple ==> $2->Tuple_0@.len() > 0 ensures tv(r) == red(vt($1), ty1($2)), %s' % OUT)
    u.fn(RW, T, 'reduce', spec='requires gok($1), !($2 is Infer), iok($2, $1.rules@), in_refs(tv($2), vt($1).len() as int), tv($2) is Tup ==> tv($2)->Tup_0.len() > 0 ensures tv(r) == red(vt($1), tv($2)), %s' % OUT)
    SUM = """gok($1), in_all(T), no_rec_inside(T), T == vt($1), forall|k: int| 0 <= k < vx_q0.len() ==> iok(#[trigger] vx_q0[k], $1.rules@) && in_refs(tv(vx_q0[k]), T.len() as int) && (vx_q0[k] is Rec || no_rec(T, tv(vx_q0[k])))"""
    u.fn(RW, T, 'reduce_sum', attr='#[verifier::spinoff_prover] #[verifier::rlimit(100)] ', spec="""requires gok($1), no_rec_inside(vt($1)), $2@.len() > 0, forall|k: int| 0 <= k < $2@.len() ==> iok(#[trigger] $2@[k], $1.rules@) && in_refs(tv($2@[k]), vt($1).len() as int) && ($2@[k] is Rec || no_rec(vt($1), tv($2@[k])))
ensures match r { Ok(t) => unify(vt($1), views($2@), tv(t)) && iok(t, $1.rules@) && in_refs(tv(t), vt($1).len() as int) && (exists|k: int| 0 <= k < $2@.len() && #[trigger] views($2@)[k] == tv(t) || tv(t) is Inv || tv(t) is Rec), Err(e) => clash(vt($1), views($2@)) && pok(e.path_set@, $1.rules@) }""",
        proof='let ghost T = vt($1); let ghost ts = views($2@); proof { lemma_in($1); }',
        loops=[Loop('for', 'invariant %s, ts == views(vx_q0), vx_it.seq() == vx_q0, 0 <= vx_it.index@ <= vx_q0.len(), summed(T, ts, non_rec_tys@, vx_it.index@ as int), forall|d: int| 0 <= d < non_rec_tys@.len() ==> held(vx_q0, vx_it.index@ as int, #[trigger] non_rec_tys@[d]), pok(rec_set.path_set@, $1.rules@), poly(rec_set) == has_poly(ts.take(vx_it.index@ as int)), (rec_set.path_set@.len() == 0) == (forall|k: int| 0 <= k < vx_it.index@ ==> !((#[trigger] ts[k]) is Rec))' % SUM, it='vx_it', hoist=True,
                pre2='proof { reveal(summed); }\n', body='let ghost i0 = vx_it.index@ as int; let ghost t0 = $var; let ghost d0 = non_rec_tys@; proof { assert(t0 == vx_q0[i0]); assert(ts[i0] == tv(t0)); lemma_has_poly(ts, i0); if t0 is Rec { assert(pok(t0->Rec_0.path_set@, $1.rules@)); } }',
                tail='proof { let d1 = non_rec_tys@; lemma_summed(T, ts, d0, d1, i0, t0); assert forall|d: int| 0 <= d < d1.len() implies held(vx_q0, i0 + 1, #[trigger] d1[d]) by { if d < d0.len() { assert(held(vx_q0, i0, d0[d])); let k = choose|k: int| 0 <= k < i0 && #[trigger] vx_q0[k] == d0[d]; assert(vx_q0[k] == d1[d]); } else { assert(vx_q0[i0] == d1[d]); } } }',
                after='proof { assert(ts.take(ts.len() as int) =~= ts); if !has_poly(ts) { lemma_sum(T, ts, non_rec_tys@); assert(ts[0] is Rec ==> rec_set.path_set@.len() > 0); } }'),
               Loop('chain', 'invariant %s, $i <= $s@.len(), $s@ == d0, vx_q0[i0] == t0, 0 <= i0 < vx_q0.len(), ty == t0, !(t0 is Rec), forall|d: int| 0 <= d < d0.len() ==> held(vx_q0, i0, #[trigger] d0[d]), summed(T, ts, d0, i0), ts == views(vx_q0), $go == !$o, $o ==> (exists|d: int| 0 <= d < d0.len() && same(T, tv(t0), tv(#[trigger] d0[d]), true)), !$o ==> forall|d: int| 0 <= d < $i ==> same(T, tv(t0), tv(#[trigger] d0[d]), false)\n  decreases $s.len() - $i' % SUM, it='any',
                body='let ghost j0 = $i as int; proof { assert(held(vx_q0, i0, d0[j0])); let k = choose|k: int| 0 <= k < i0 && #[trigger] vx_q0[k] == d0[j0]; assert(iok(vx_q0[k], $1.rules@)); assert(!(d0[j0] is Rec)) by { reveal(summed); } }', tail='proof { assert(same(T, tv(t0), tv(d0[j0]), $o)); }'),
               Loop('chain', 'invariant $i <= $s@.len(), $s@ == non_rec_tys@, $go == $o, $o ==> (forall|d: int| 0 <= d < $i ==> nothing(tv(#[trigger] non_rec_tys@[d]))), !$o ==> exists|d: int| 0 <= d < non_rec_tys@.len() && !nothing(tv(#[trigger] non_rec_tys@[d]))\n  decreases $s.len() - $i', it='all', body='let ghost j0 = $i as int;', tail='proof { assert($o == nothing(tv(non_rec_tys@[j0]))); }')])

REWRITE = r'''
pub open spec fn views(s: Seq<IType>) -> Seq<Ty> { Seq::new(s.len(), |k: int| tv(s[k])) }
pub open spec fn held(s: Seq<IType>, n: int, t: IType) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == t }
pub proof fn lemma_has_poly(ts: Seq<Ty>, i: int) requires 0 <= i < ts.len() ensures has_poly(ts.take(i + 1)) == (has_poly(ts.take(i)) || ts[i] == Ty::Rec(true))
{
  let a = ts.take(i); let b = ts.take(i + 1); assert(b[i] == ts[i]);
  if has_poly(a) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]) == Ty::Rec(true); assert(b[k] == Ty::Rec(true)); }
  if has_poly(b) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]) == Ty::Rec(true); if k < i { assert(a[k] == Ty::Rec(true)); } }
}
// the kinds of types among the first n branches: `d` has one of each, in the order of their first occurrence
#[verifier::opaque]
pub open spec fn summed(T: Tys, ts: Seq<Ty>, d: Seq<IType>, n: int) -> bool {
  0 <= n <= ts.len() && (forall|j: int| 0 <= j < d.len() ==> !((#[trigger] d[j]) is Rec) && exists|k: int| 0 <= k < n && #[trigger] ts[k] == tv(d[j]))
  && (forall|k: int| 0 <= k < n ==> (#[trigger] ts[k]) is Rec || like(T, ts[k], d))
  && (forall|j: int, k: int| 0 <= j < k < d.len() ==> same(T, tv(#[trigger] d[k]), tv(#[trigger] d[j]), false))
}
pub open spec fn like(T: Tys, t: Ty, d: Seq<IType>) -> bool { exists|j: int| 0 <= j < d.len() && (t == tv(#[trigger] d[j]) || same(T, t, tv(d[j]), true)) }
pub proof fn lemma_summed(T: Tys, ts: Seq<Ty>, d0: Seq<IType>, d1: Seq<IType>, n: int, t: IType)
  requires summed(T, ts, d0, n), n < ts.len(), ts[n] == tv(t),
    t is Rec ==> d1 == d0, !(t is Rec) ==> (d1 == d0 && exists|j: int| 0 <= j < d0.len() && same(T, tv(t), tv(#[trigger] d0[j]), true)) || (d1 == d0.push(t) && forall|j: int| 0 <= j < d0.len() ==> same(T, tv(t), tv(#[trigger] d0[j]), false))
  ensures summed(T, ts, d1, n + 1)
{
  reveal(summed);
  assert forall|j: int| 0 <= j < d1.len() implies !((#[trigger] d1[j]) is Rec) && exists|k: int| 0 <= k < n + 1 && #[trigger] ts[k] == tv(d1[j]) by { if j < d0.len() { let k = choose|k: int| 0 <= k < n && #[trigger] ts[k] == tv(d0[j]); assert(ts[k] == tv(d1[j])); } else { assert(ts[n] == tv(d1[j])); } }
  assert forall|k: int| 0 <= k < n + 1 implies (#[trigger] ts[k]) is Rec || like(T, ts[k], d1) by {
    if !(ts[k] is Rec) {
      if k < n { let j = choose|j: int| 0 <= j < d0.len() && (ts[k] == tv(#[trigger] d0[j]) || same(T, ts[k], tv(d0[j]), true)); assert(d1[j] == d0[j]); }
      else if d1 == d0 { let j = choose|j: int| 0 <= j < d0.len() && same(T, tv(t), tv(#[trigger] d0[j]), true); assert(d1[j] == d0[j]); }
      else { assert(ts[k] == tv(d1[d0.len() as int])); }
    }
  }
  assert forall|j: int, k: int| 0 <= j < k < d1.len() implies same(T, tv(#[trigger] d1[k]), tv(#[trigger] d1[j]), false) by { assert(d1[j] == d0[j]); if k < d0.len() { assert(d1[k] == d0[k]); } }
}
pub proof fn lemma_plain(T: Tys, a: Ty)
  ensures same(T, a, Ty::Ext, true) ==> a is Ext, same(T, a, Ty::Inv, true) ==> a is Inv, same(T, a, Ty::Unit, true) ==> a is Unit, same(T, Ty::Ext, a, false) ==> !(a is Ext)
{
  assert forall|f: nat| #[trigger] teq(T, f, a, Ty::Ext) == Some(true) implies a is Ext by {}
  assert forall|f: nat| #[trigger] teq(T, f, a, Ty::Inv) == Some(true) implies a is Inv by {}
  assert forall|f: nat| #[trigger] teq(T, f, a, Ty::Unit) == Some(true) implies a is Unit by {}
  assert forall|f: nat| #[trigger] teq(T, f, Ty::Ext, a) == Some(false) implies !(a is Ext) by {}
}
pub proof fn lemma_at(T: Tys, ts: Seq<Ty>, d: Seq<IType>, j: int) -> (k: int) requires summed(T, ts, d, ts.len() as int), 0 <= j < d.len() ensures 0 <= k < ts.len(), ts[k] == tv(d[j]), !(d[j] is Rec), !(ts[k] is Rec)
{ reveal(summed); let k = choose|k: int| 0 <= k < ts.len() && #[trigger] ts[k] == tv(d[j]); k }
pub proof fn lemma_like(T: Tys, ts: Seq<Ty>, d: Seq<IType>, k: int) -> (j: int) requires summed(T, ts, d, ts.len() as int), 0 <= k < ts.len(), !(ts[k] is Rec) ensures 0 <= j < d.len(), ts[k] == tv(d[j]) || same(T, ts[k], tv(d[j]), true)
{ reveal(summed); assert(like(T, ts[k], d)); let j = choose|j: int| 0 <= j < d.len() && (ts[k] == tv(#[trigger] d[j]) || same(T, ts[k], tv(d[j]), true)); j }
pub proof fn lemma_agrees(T: Tys, ts: Seq<Ty>, d: Seq<IType>, jt: int) requires summed(T, ts, d, ts.len() as int), 0 <= jt < d.len(), forall|j: int| 0 <= j < d.len() && j != jt ==> (#[trigger] d[j]) is External ensures agrees(T, ts, tv(d[jt]))
{ assert forall|k: int| 0 <= k < ts.len() implies (#[trigger] ts[k]) is Rec || ts[k] is Ext || ts[k] == tv(d[jt]) || same(T, ts[k], tv(d[jt]), true) by { if !(ts[k] is Rec) { let j = lemma_like(T, ts, d, k); if j != jt { assert(d[j] is External); lemma_plain(T, ts[k]); } } } }
pub open spec fn differ(T: Tys, ts: Seq<Ty>) -> bool { exists|j: int, k: int| 0 <= j < ts.len() && 0 <= k < ts.len() && value_type(ts[j]) && value_type(ts[k]) && same(T, #[trigger] ts[j], #[trigger] ts[k], false) }
pub proof fn lemma_two(T: Tys, ts: Seq<Ty>, d: Seq<IType>, a: int, b: int) requires summed(T, ts, d, ts.len() as int), 0 <= a < b < d.len(), !(d[a] is External), !(d[b] is External) ensures differ(T, ts)
{ let j = lemma_at(T, ts, d, b); let k = lemma_at(T, ts, d, a); reveal(summed); assert(same(T, tv(d[b]), tv(d[a]), false)); assert(same(T, ts[j], ts[k], false)); }
pub proof fn lemma_three(T: Tys, ts: Seq<Ty>, d: Seq<IType>) requires summed(T, ts, d, ts.len() as int), d.len() > 2 ensures differ(T, ts)
{
  assert(same(T, tv(d[1]), tv(d[0]), false) && same(T, tv(d[2]), tv(d[0]), false) && same(T, tv(d[2]), tv(d[1]), false)) by { reveal(summed); }
  lemma_plain(T, tv(d[0])); lemma_plain(T, tv(d[1]));
  if d[0] is External { if d[1] is External { lemma_plain(T, tv(d[0])); } if d[2] is External { lemma_plain(T, tv(d[0])); } lemma_two(T, ts, d, 1, 2); }
  else if d[1] is External { lemma_two(T, ts, d, 0, 2); } else { lemma_two(T, ts, d, 0, 1); }
}
pub open spec fn nothing(t: Ty) -> bool { t is Inv || t is Unit }
pub proof fn lemma_nothing(T: Tys, ts: Seq<Ty>, d: Seq<IType>) requires summed(T, ts, d, ts.len() as int)
  ensures (forall|j: int| 0 <= j < d.len() ==> nothing(tv(#[trigger] d[j]))) ==> forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Rec || ts[k] is Inv || ts[k] is Unit
{
  if forall|j: int| 0 <= j < d.len() ==> nothing(tv(#[trigger] d[j])) {
    assert forall|k: int| 0 <= k < ts.len() implies (#[trigger] ts[k]) is Rec || ts[k] is Inv || ts[k] is Unit by { if !(ts[k] is Rec) { let j = lemma_like(T, ts, d, k); assert(nothing(tv(d[j]))); lemma_plain(T, ts[k]); } }
  }
}
pub proof fn lemma_something(T: Tys, ts: Seq<Ty>, d: Seq<IType>, j: int) requires summed(T, ts, d, ts.len() as int), 0 <= j < d.len(), !nothing(tv(d[j])) ensures exists|k: int| 0 <= k < ts.len() && !((#[trigger] ts[k]) is Rec) && !(ts[k] is Inv) && !(ts[k] is Unit)
{ let k = lemma_at(T, ts, d, j); assert(!(ts[k] is Rec)); }
pub proof fn lemma_all_rec(T: Tys, ts: Seq<Ty>, d: Seq<IType>) requires summed(T, ts, d, ts.len() as int), d.len() == 0 ensures forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Rec
{ assert forall|k: int| 0 <= k < ts.len() implies (#[trigger] ts[k]) is Rec by { if !(ts[k] is Rec) { let j = lemma_like(T, ts, d, k); } } }
// what the branches amount to, once all are seen
pub proof fn lemma_sum(T: Tys, ts: Seq<Ty>, d: Seq<IType>) requires summed(T, ts, d, ts.len() as int), ts.len() > 0, !has_poly(ts)
  ensures d.len() == 0 ==> unify(T, ts, Ty::Rec(false)), d.len() == 1 ==> unify(T, ts, tv(d[0])), d.len() == 2 && d[0] is External ==> unify(T, ts, tv(d[1])), d.len() == 2 && d[1] is External ==> unify(T, ts, tv(d[0])),
    (forall|j: int| 0 <= j < d.len() ==> nothing(tv(#[trigger] d[j]))) ==> unify(T, ts, Ty::Inv),
    (d.len() == 2 && !(d[0] is External) && !(d[1] is External) || d.len() > 2) && (exists|j: int| 0 <= j < d.len() && !nothing(tv(#[trigger] d[j]))) ==> clash(T, ts)
{
  if d.len() == 0 { lemma_all_rec(T, ts, d); }
  if d.len() == 1 { lemma_agrees(T, ts, d, 0); let k = lemma_at(T, ts, d, 0); }
  if d.len() == 2 && d[0] is External { lemma_agrees(T, ts, d, 1); let k = lemma_at(T, ts, d, 1); }
  if d.len() == 2 && d[1] is External { lemma_agrees(T, ts, d, 0); let k = lemma_at(T, ts, d, 0); }
  lemma_nothing(T, ts, d);
  if d.len() == 2 && !(d[0] is External) && !(d[1] is External) { lemma_two(T, ts, d, 0, 1); }
  if d.len() > 2 { lemma_three(T, ts, d); }
  if exists|j: int| 0 <= j < d.len() && !nothing(tv(#[trigger] d[j])) { let j = choose|j: int| 0 <= j < d.len() && !nothing(tv(#[trigger] d[j])); lemma_something(T, ts, d, j); }
}
impl RecSet { pub open spec fn entry_point_is(&self, n: Seq<char>) -> bool { self.path_set@[0].path@[0]@ == n } }
pub open spec fn root_ty(g: &IGrammar, n: Seq<char>) -> Ty { vt(g)[rule_expr(g.rules@, n)] }
pub open spec fn all_rec(g: &IGrammar, p: Seq<Ident>) -> bool { forall|k: int| 0 <= k < p.len() ==> undecided(root_ty(g, (#[trigger] p[k])@)) }
pub open spec fn undecided(t: Ty) -> bool { t is Rec || t is Infer }
// the q-th rule of the p-th path is the first one that has a type
pub open spec fn first_at(g: &IGrammar, r: RecSet, p: int, q: int) -> bool {
  0 <= p < r.path_set@.len() && 0 <= q < r.path_set@[p].path@.len() && !undecided(root_ty(g, r.path_set@[p].path@[q]@)) && (forall|k: int| 0 <= k < p ==> all_rec(g, (#[trigger] r.path_set@[k]).path@)) && forall|k: int| 0 <= k < q ==> undecided(root_ty(g, (#[trigger] r.path_set@[p].path@[k])@))
}
pub open spec fn leaves(g: &IGrammar, r: RecSet, t: IType) -> bool {
  (t is Invisible && forall|k: int| 0 <= k < r.path_set@.len() ==> all_rec(g, (#[trigger] r.path_set@[k]).path@)) || exists|p: int, q: int| #[trigger] first_at(g, r, p, q) && root_ty(g, r.path_set@[p].path@[q]@) == tv(t)
}
pub proof fn lemma_paths(r: RecSet, rs: Seq<Rule>) requires pok(r.path_set@, rs)
  ensures forall|k: int| 0 <= k < r.path_set@.len() ==> (#[trigger] r.path_set@[k]).path@.len() > 0,
    forall|x: Seq<RecPath>| #![trigger pok(x, rs)] x.len() == r.path_set@.len() && (forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).path == r.path_set@[k].path) ==> pok(x, rs)
{
  assert forall|k: int| 0 <= k < r.path_set@.len() implies (#[trigger] r.path_set@[k]).path@.len() > 0 by { assert(path_ok(r.path_set@[k], rs)); }
  assert forall|x: Seq<RecPath>| #![trigger pok(x, rs)] x.len() == r.path_set@.len() && (forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).path == r.path_set@[k].path) implies pok(x, rs) by { assert forall|k: int| 0 <= k < x.len() implies path_ok(#[trigger] x[k], rs) by { assert(path_ok(r.path_set@[k], rs)); } }
}
pub proof fn lemma_some(T: Tys, ks: Seq<usize>, i: int) requires 0 <= i < ks.len()
  ensures some_rec(T, ks.take(i + 1)) == (some_rec(T, ks.take(i)) || T[ks[i] as int] is Rec), some_poly(T, ks.take(i + 1)) == (some_poly(T, ks.take(i)) || T[ks[i] as int] == Ty::Rec(true) || has_value(T[ks[i] as int]))
{
  let a = ks.take(i); let b = ks.take(i + 1); assert(b[i] == ks[i]); assert forall|k: int| 0 <= k < i implies a[k] == b[k] by {}
  if some_rec(T, a) { let k = choose|k: int| 0 <= k < a.len() && T[(#[trigger] a[k]) as int] is Rec; assert(T[b[k] as int] is Rec); }
  if some_rec(T, b) { let k = choose|k: int| 0 <= k < b.len() && T[(#[trigger] b[k]) as int] is Rec; if k < i { assert(T[a[k] as int] is Rec); } }
  if some_poly(T, a) { let k = choose|k: int| 0 <= k < a.len() && (T[(#[trigger] a[k]) as int] == Ty::Rec(true) || has_value(T[a[k] as int])); assert(b[k] == a[k]); }
  if some_poly(T, b) { let k = choose|k: int| 0 <= k < b.len() && (T[(#[trigger] b[k]) as int] == Ty::Rec(true) || has_value(T[b[k] as int])); if k < i { assert(a[k] == b[k]); } }
}
pub proof fn lemma_filter_in(s: Seq<usize>, p: spec_fn(usize) -> bool, n: int) requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < n ensures forall|k: int| 0 <= k < s.filter(p).len() ==> (#[trigger] s.filter(p)[k]) < n decreases s.len()
{
  reveal(Seq::filter);
  if s.len() > 0 { let t = s.drop_last(); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) < n by { assert(s[k] < n); } lemma_filter_in(t, p, n); assert(s[s.len() - 1] < n);
    assert forall|k: int| 0 <= k < s.filter(p).len() implies (#[trigger] s.filter(p)[k]) < n by { if k < t.filter(p).len() { assert(t.filter(p)[k] < n); } } }
  else { assert(s.filter(p).len() == 0); }
}
'''

def unit():
    u = Unit('ityping')
    base(u)
    u.raw(REWRITE)
    rewriting(u)
    return u
