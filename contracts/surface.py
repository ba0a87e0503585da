"""Contracts of the walk that types every expression: src/liboak/middle/typing/{surface,depth}.rs (C17, C18)."""
from vx import *
import astlib, wellformed, ityping
from ityping import AST, RW, ND
S = 'src/liboak/middle/typing/surface.rs'
D = 'src/liboak/middle/typing/depth.rs'

STUB = r'''
impl Clone for VxAttrs { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Clone> Clone for ExpressionInfo<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// printing on demand of the user: no effect on the types
#[verifier::external_body] pub fn vx_print() { unimplemented!() }
#[verifier::external_body] pub fn vx_debug_asked(a: &VxAttrs) -> bool { unimplemented!() }
// a diagnostic under construction
#[verifier::external_body] pub struct Diagnostic { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub fn vx_diag_error(s: Span) -> Diagnostic { unimplemented!() }
impl<T> ExpressionInfo<T> { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl Rule { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl Diagnostic { #[verifier::external_body] pub fn span_note(self, s: Span) -> Diagnostic { unimplemented!() } #[verifier::external_body] pub fn vx_emit(self) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct FExpressionInfo { pub span: Span }
pub type AGrammar = Grammar<FExpressionInfo>;
impl IType { #[verifier::external_body] pub fn display(&self, g: &IGrammar) -> String { unimplemented!() } }
impl RecPath { #[verifier::external_body] pub fn display(&self) -> String { unimplemented!() } }
impl SynType { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl IGrammar {
  // which type of Rust a span, and a range of streams, has
  #[verifier::external_body] pub fn span_type(&self) -> SynType { unimplemented!() }
  #[verifier::external_body] pub fn range_type(&self) -> SynType { unimplemented!() }
  // the type of an action: that its function declares, if it is one of the grammar's; `()` is refused elsewhere
  #[verifier::external_body] pub fn resolve_action_type(&self, span: Span, boxed: bool, action: SynExpr) -> (r: IType) ensures tv(r) is Ext || tv(r) is Unit || tv(r) is Rust { unimplemented!() }
}
pub fn vx_clone_path(v: &Vec<Ident>) -> (r: Vec<Ident>) ensures r@ == v@ { let mut r: Vec<Ident> = Vec::new(); let mut i: usize = 0; while i < v.len() invariant i <= v.len(), r@ =~= v@.take(i as int) decreases v.len() - i { r.push(v[i].clone()); i += 1; } proof { assert(v@.take(v@.len() as int) =~= v@); } r }
'''

SPEC = r'''
// ---- whose is an expression: every rule has expressions of its own
pub open spec fn owned(es: Seq<Expression>, rs: Seq<Rule>, o: spec_fn(int) -> Seq<char>) -> bool {
  (forall|n: Seq<char>| #![trigger rule_expr(rs, n)] names_rule(rs, n) ==> o(rule_expr(rs, n)) == n)
  && forall|i: int, k: int| 0 <= i < es.len() - 1 && 0 <= k < kids(es[i]).len() ==> o((#[trigger] kids(es[i])[k]) as int) == o(i)
}
pub open spec fn own(es: Seq<Expression>, rs: Seq<Rule>) -> spec_fn(int) -> Seq<char> { choose|o: spec_fn(int) -> Seq<char>| owned(es, rs, o) }
pub open spec fn asc_ok(e: Expression) -> bool { match e { TypeAscription(_, t) => tv(t) is Inv || tv(t) is Unit || tv(t) is Rust, _ => true } }
// every expression is a part of another one, or that of a rule
pub open spec fn rooted(es: Seq<Expression>, rs: Seq<Rule>, j: int) -> bool { (exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).expr_idx == j) || exists|i: int, m: int| 0 <= i < es.len() - 1 && 0 <= m < kids(es[i]).len() && (#[trigger] kids(es[i])[m]) == j }
// what the earlier passes hand over: trees of expressions, one per rule, referring to rules
pub open spec fn shape(es: Seq<Expression>, rs: Seq<Rule>) -> bool {
  0 < es.len() <= usize::MAX && arena(es) && owned(es, rs, own(es, rs))
  && (forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).expr_idx < es.len() - 1 && rs[k].expr_idx == rule_expr(rs, rs[k].name@)) && (forall|i: int| 0 <= i < es.len() - 1 ==> #[trigger] rooted(es, rs, i))
  && (forall|i: int| 0 <= i < es.len() - 1 && (#[trigger] es[i]) is NonTerminalSymbol ==> names_rule(rs, es[i]->NonTerminalSymbol_0@) && calls(own(es, rs)(i), es[i]->NonTerminalSymbol_0@))
  && (forall|i: int| 0 <= i < es.len() - 1 ==> asc_ok(#[trigger] es[i]) && ((es[i] is Sequence || es[i] is Choice) ==> kids(es[i]).len() > 0))
  && (forall|n: Seq<char>, i: int, k: int| names_rule(rs, n) && 0 <= i < es.len() - 1 && 0 <= k < kids(es[i]).len() ==> (#[trigger] kids(es[i])[k]) != #[trigger] rule_expr(rs, n))
}
pub open spec fn typed(T: Tys, i: int) -> bool { 0 <= i < T.len() && !(T[i] is Infer) }
pub open spec fn typed_all(T: Tys, ks: Seq<usize>) -> bool { forall|k: int| 0 <= k < ks.len() ==> typed(T, (#[trigger] ks[k]) as int) }
pub open spec fn at(T: Tys, ks: Seq<usize>) -> Seq<Ty> { Seq::new(ks.len(), |k: int| T[ks[k] as int]) }
pub open spec fn part(t: Ty) -> bool { t is Ext || t is Atom || t is Opt || t is List || t is Rust || t is Unit || t is Inv }
// types in normal form: what they are made of is typed, and has a value
pub open spec fn nf(T: Tys, t: Ty) -> bool {
  match t {
    Ty::Opt(c) => typed(T, c) && !(T[c] is Rec), Ty::List(c) => typed(T, c) && !(T[c] is Rec),
    Ty::Tup(k) => k.len() >= 2 && forall|j: int| 0 <= j < k.len() ==> (#[trigger] k[j]) < T.len() && part(T[k[j] as int]),
    _ => true,
  }
}
pub open spec fn closed(T: Tys) -> bool { 0 < T.len() <= usize::MAX && T[T.len() - 1] is Rust && forall|i: int| 0 <= i < T.len() ==> nf(T, #[trigger] T[i]) }
// what tuples are made of has a value (until what is below something without a value loses its own)
pub open spec fn tight_ty(T: Tys, t: Ty) -> bool { match t { Ty::Tup(k) => forall|j: int| 0 <= j < k.len() ==> !(T[(#[trigger] k[j]) as int] is Unit) && !(T[k[j] as int] is Inv), Ty::Opt(c) => !(T[c] is Inv), Ty::List(c) => !(T[c] is Inv), _ => true } }
#[verifier::opaque] pub open spec fn tight(T: Tys) -> bool { forall|i: int| 0 <= i < T.len() ==> tight_ty(T, #[trigger] T[i]) }
// every rule has its type, and no type is recursive
#[verifier::opaque] pub open spec fn calm(rs: Seq<Rule>, T: Tys) -> bool { ruled(rs, T, rs.len() as int) && forall|i: int| 0 <= i < T.len() ==> !((#[trigger] T[i]) is Rec) }
// a chain of rules, each referring to the next
pub open spec fn linked(p: Seq<Ident>) -> bool { forall|j: int| 0 < j < p.len() ==> calls((#[trigger] p[j - 1])@, p[j]@) }
pub open spec fn in_path(p: Seq<Ident>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < p.len() && (#[trigger] p[k])@ == n }
pub open spec fn on_cycle(n: Seq<char>) -> bool { exists|p: Seq<Ident>| #[trigger] cycle(p) && in_path(p, n) }
// ---- the typing rules, one per operator: t is the type of the expression i, when the others have the types T.
// (Rules in p are being typed: what refers to them is recursive. e: an error was reported.)
pub open spec fn rule_ty(es: Seq<Expression>, rs: Seq<Rule>, T: Tys, e: bool, p: Seq<Ident>, i: int, t: Ty) -> bool {
  match es[i] {
    StrLiteral(_) => t is Inv, NotPredicate(_) => t is Inv, AndPredicate(_) => t is Inv,
    AnySingleChar => t is Atom, CharacterClass(_) => t is Atom,
    ExternalNonTerminalSymbol(_) => t is Ext,
    NonTerminalSymbol(id) => !in_path(p, id@) && typed(T, rule_expr(rs, id@)) && t == red(T, T[rule_expr(rs, id@)]) || t == Ty::Rec(false) && on_cycle(id@),
    Sequence(ks) => typed_all(T, ks@) && t == tuple(T, ks@),
    Choice(ks) => typed_all(T, ks@) && ((exists|u: Ty| #[trigger] unify(T, at(T, ks@), u) && t == red(T, u)) || e && t is Inv && clash(T, at(T, ks@))),
    ZeroOrMore(c) => typed(T, c as int) && t == unary(T, c as int, Ty::List(c as int)), OneOrMore(c) => typed(T, c as int) && t == unary(T, c as int, Ty::List(c as int)),
    ZeroOrOne(c) => typed(T, c as int) && t == unary(T, c as int, Ty::Opt(c as int)),
    TypeAscription(_, a) => t == tv(a),
    SemanticAction(_, _, _) => t is Ext || t is Unit || t is Rust,
    SpannedExpr(c) => typed(T, c as int) && t == tuple(T, seq![(T.len() - 1) as usize, c]),
    RangeExpr(c) => typed(T, c as int) && t is Rust,
  }
}
// the expression of a rule that is recursive has the type of a rule on a cycle, or none
pub open spec fn closes(rs: Seq<Rule>, T: Tys, poly: bool, t: Ty) -> bool { t is Inv || !poly && !(t is Rec) && !(t is Infer) && exists|n: Seq<char>| #![trigger on_cycle(n)] on_cycle(n) && names_rule(rs, n) && typed(T, rule_expr(rs, n)) && T[rule_expr(rs, n)] == t }
pub open spec fn judged(es: Seq<Expression>, rs: Seq<Rule>, T: Tys, e: bool, p: Seq<Ident>, i: int) -> bool {
  rule_ty(es, rs, T, e, p, i, T[i]) || exists|b: bool, n: Seq<char>| #![trigger closes(rs, T, b, T[i]), rule_expr(rs, n)] names_rule(rs, n) && i == rule_expr(rs, n) && rule_ty(es, rs, T, e, p, i, Ty::Rec(b)) && closes(rs, T, b, T[i])
}
// some choice has branches of different types
pub open spec fn bad(es: Seq<Expression>, T: Tys) -> bool { exists|i: int| 0 <= i < es.len() - 1 && (#[trigger] es[i]) is Choice && typed_all(T, kids(es[i])) && clash(T, at(T, kids(es[i]))) }
// from T0 to T1: nothing that had a type gets another one, and what got a type got the one the rules say
pub open spec fn grows(T0: Tys, T1: Tys) -> bool { T0.len() == T1.len() && forall|i: int| #![trigger T1[i]] #![trigger T0[i]] 0 <= i < T0.len() && !(T0[i] is Infer) ==> T1[i] == T0[i] }
pub open spec fn news(es: Seq<Expression>, rs: Seq<Rule>, T0: Tys, T1: Tys, e: bool, p: Seq<Ident>) -> bool { forall|i: int| 0 <= i < T0.len() && T0[i] is Infer && !((#[trigger] T1[i]) is Infer) ==> i < T0.len() - 1 && judged(es, rs, T1, e, p, i) }
// what may have got a type: below m in the rule o, and in rules that are not being typed
pub open spec fn within(es: Seq<Expression>, rs: Seq<Rule>, T0: Tys, T1: Tys, m: int, p: Seq<Ident>) -> bool {
  forall|i: int| 0 <= i < T0.len() && T0[i] is Infer && !((#[trigger] T1[i]) is Infer) ==> p.len() > 0 && i < m && own(es, rs)(i) == p.last()@ || !in_path(p, own(es, rs)(i)) && (p.len() == 0 && calm(rs, T0) ==> i < m)
}
pub open spec fn step(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, T0: Tys, T1: Tys, e0: bool, e1: bool) -> bool {
  grows(T0, T1) && news(es, rs, T0, T1, e1, p) && closed(T1) && (tight(T0) ==> tight(T1)) && (p.len() == 0 && calm(rs, T0) ==> calm(rs, T1)) && (e0 ==> e1) && (e1 ==> e0 || bad(es, T1))
}
pub open spec fn ruled(rs: Seq<Rule>, T: Tys, n: int) -> bool { forall|k: int| 0 <= k < n ==> typed(T, rule_expr(rs, (#[trigger] rs[k]).name@)) }
// the rules being typed have no type yet
pub open spec fn waits(rs: Seq<Rule>, T: Tys, p: Seq<Ident>) -> bool { forall|k: int| 0 <= k < p.len() ==> names_rule(rs, (#[trigger] p[k])@) && T[rule_expr(rs, p[k]@)] is Infer }
'''

LEMMAS = r'''
pub open spec fn flatly(T: Tys) -> bool { forall|i: int| 0 <= i < T.len() ==> !((#[trigger] T[i]) is Rec) }
pub proof fn lemma_calm(rs: Seq<Rule>, T: Tys) requires calm(rs, T) ensures flatly(T) { reveal(calm); }
pub proof fn lemma_calm_rule(rs: Seq<Rule>, T: Tys, n: Seq<char>) requires calm(rs, T), names_rule(rs, n) ensures typed(T, rule_expr(rs, n)), !(T[rule_expr(rs, n)] is Rec) { reveal(calm); let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n; assert(typed(T, rule_expr(rs, rs[k].name@))); }
// ---- what depends on types does not change when others get theirs, or when a recursive one gets another
pub open spec fn keeps(A: Tys, B: Tys) -> bool { A.len() == B.len() && forall|i: int| #![trigger A[i]] #![trigger B[i]] 0 <= i < A.len() && !(A[i] is Infer) ==> A[i] == B[i] || A[i] is Rec && !(B[i] is Infer) }
pub open spec fn still(A: Tys, B: Tys, ks: Seq<usize>) -> bool { forall|k: int| 0 <= k < ks.len() ==> typed(A, (#[trigger] ks[k]) as int) && A[ks[k] as int] == B[ks[k] as int] }
pub proof fn lemma_filter_same(s: Seq<usize>, p: spec_fn(usize) -> bool, q: spec_fn(usize) -> bool) requires forall|k: int| 0 <= k < s.len() ==> p(#[trigger] s[k]) == q(s[k]) ensures s.filter(p) == s.filter(q) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { let t = s.drop_last(); assert forall|k: int| 0 <= k < t.len() implies p(#[trigger] t[k]) == q(t[k]) by { assert(s[k] == t[k]); } lemma_filter_same(t, p, q); assert(s[s.len() - 1] == s.last()); } }
pub proof fn lemma_filter_has(s: Seq<usize>, p: spec_fn(usize) -> bool) ensures forall|k: int| 0 <= k < s.filter(p).len() ==> p(#[trigger] s.filter(p)[k]) && exists|j: int| 0 <= j < s.len() && s[j] == s.filter(p)[k] decreases s.len()
{
  reveal(Seq::filter);
  if s.len() > 0 {
    let t = s.drop_last(); lemma_filter_has(t, p);
    assert forall|k: int| 0 <= k < s.filter(p).len() implies p(#[trigger] s.filter(p)[k]) && exists|j: int| 0 <= j < s.len() && s[j] == s.filter(p)[k] by {
      if k < t.filter(p).len() { assert(t.filter(p)[k] == s.filter(p)[k]); let j = choose|j: int| 0 <= j < t.len() && t[j] == t.filter(p)[k]; assert(s[j] == t[j]); } else { assert(s[s.len() - 1] == s.filter(p)[k]); }
    }
  }
}
pub proof fn lemma_flat_nf(T: Tys, ks: Seq<usize>) requires closed(T), typed_all(T, ks)
  ensures forall|k: int| 0 <= k < flat(T, ks).len() ==> typed(T, (#[trigger] flat(T, ks)[k]) as int) && !(T[flat(T, ks)[k] as int] is Tup) decreases ks.len()
{
  if ks.len() > 0 {
    let t = ks.drop_last(); assert forall|k: int| 0 <= k < t.len() implies typed(T, (#[trigger] t[k]) as int) by { assert(ks[k] == t[k]); } lemma_flat_nf(T, t);
    assert(typed(T, ks[ks.len() - 1] as int)); let a = flat(T, t); let b = parts(T, ks.last()); assert(nf(T, T[ks.last() as int]));
    assert forall|k: int| 0 <= k < (a + b).len() implies typed(T, (#[trigger] (a + b)[k]) as int) && !(T[(a + b)[k] as int] is Tup) by { if k < a.len() { assert((a + b)[k] == a[k]); } else { let j = k - a.len(); assert((a + b)[k] == b[j]); if T[ks.last() as int] is Tup { let kk = T[ks.last() as int]->Tup_0; assert(part(T[kk[j] as int])); } } }
  }
}
pub proof fn lemma_drop(A: Tys, B: Tys, ks: Seq<usize>) requires ks.len() > 0, still(A, B, ks) ensures still(A, B, ks.drop_last()), typed(A, ks.last() as int), A[ks.last() as int] == B[ks.last() as int]
{ let t = ks.drop_last(); assert forall|k: int| 0 <= k < t.len() implies typed(A, (#[trigger] t[k]) as int) && A[t[k] as int] == B[t[k] as int] by { assert(ks[k] == t[k]); } assert(typed(A, ks[ks.len() - 1] as int)); }
pub proof fn lemma_flat_same(A: Tys, B: Tys, ks: Seq<usize>) requires still(A, B, ks) ensures flat(A, ks) == flat(B, ks) decreases ks.len()
{ if ks.len() > 0 { lemma_drop(A, B, ks); lemma_flat_same(A, B, ks.drop_last()); } }
// the parts of tuples are as they were
pub proof fn lemma_flat_still(A: Tys, B: Tys, ks: Seq<usize>) requires closed(A), keeps(A, B), still(A, B, ks) ensures still(A, B, flat(A, ks)) decreases ks.len()
{
  if ks.len() > 0 {
    let t = ks.drop_last(); lemma_drop(A, B, ks); lemma_flat_still(A, B, t); let a = flat(A, t); let b = parts(A, ks.last()); assert(nf(A, A[ks.last() as int]));
    assert forall|k: int| 0 <= k < (a + b).len() implies typed(A, (#[trigger] (a + b)[k]) as int) && A[(a + b)[k] as int] == B[(a + b)[k] as int] by { if k < a.len() { assert((a + b)[k] == a[k]); } else { let j = k - a.len(); assert((a + b)[k] == b[j]); if A[ks.last() as int] is Tup { let kk = A[ks.last() as int]->Tup_0; assert(part(A[kk[j] as int])); } } }
  }
}
pub proof fn lemma_tuple_same(A: Tys, B: Tys, ks: Seq<usize>) requires closed(A), keeps(A, B), still(A, B, ks) ensures tuple(A, ks) == tuple(B, ks)
{
  lemma_flat_same(A, B, ks); lemma_flat_still(A, B, ks); let f = flat(A, ks);
  assert forall|k: int| 0 <= k < f.len() implies A[(#[trigger] f[k]) as int] == B[f[k] as int] by { assert(typed(A, f[k] as int)); }
  lemma_filter_same(f, visible(A), visible(B)); let v = f.filter(visible(A)); lemma_filter_has(f, visible(A));
  assert forall|k: int| 0 <= k < v.len() implies valued(A)(#[trigger] v[k]) == valued(B)(v[k]) by { let j = choose|j: int| 0 <= j < f.len() && f[j] == v[k]; assert(A[f[j] as int] == B[f[j] as int]); }
  lemma_filter_same(v, valued(A), valued(B)); lemma_filter_has(v, valued(A)); let w = v.filter(valued(A));
  if w.len() == 1 { let j = choose|j: int| 0 <= j < v.len() && v[j] == w[0]; let i = choose|i: int| 0 <= i < f.len() && f[i] == v[j]; assert(A[f[i] as int] == B[f[i] as int]); }
  assert(some_rec(A, f) == some_rec(B, f)) by { if some_rec(A, f) { let k = choose|k: int| 0 <= k < f.len() && A[(#[trigger] f[k]) as int] is Rec; assert(B[f[k] as int] is Rec); } if some_rec(B, f) { let k = choose|k: int| 0 <= k < f.len() && B[(#[trigger] f[k]) as int] is Rec; assert(A[f[k] as int] is Rec); } }
  assert(some_poly(A, f) == some_poly(B, f)) by {
    if some_poly(A, f) { let k = choose|k: int| 0 <= k < f.len() && (A[(#[trigger] f[k]) as int] == Ty::Rec(true) || has_value(A[f[k] as int])); assert(B[f[k] as int] == A[f[k] as int]); }
    if some_poly(B, f) { let k = choose|k: int| 0 <= k < f.len() && (B[(#[trigger] f[k]) as int] == Ty::Rec(true) || has_value(B[f[k] as int])); assert(B[f[k] as int] == A[f[k] as int]); } }
}
pub proof fn lemma_tuple_nf(T: Tys, ks: Seq<usize>) requires closed(T), typed_all(T, ks) ensures nf(T, tuple(T, ks)), tight(T) ==> tight_ty(T, tuple(T, ks)), !(tuple(T, ks) is Infer), flatly(T) ==> !(tuple(T, ks) is Rec)
{
  lemma_flat_nf(T, ks); let f = flat(T, ks); let v = f.filter(visible(T)); let w = v.filter(valued(T)); lemma_filter_has(f, visible(T)); lemma_filter_has(v, valued(T));
  if !some_rec(T, f) {
    assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]) < T.len() && part(T[w[k] as int]) && !(T[w[k] as int] is Unit) && !(T[w[k] as int] is Inv) by {
      assert(valued(T)(w[k])); let j = choose|j: int| 0 <= j < v.len() && v[j] == w[k]; assert(visible(T)(v[j])); let i = choose|i: int| 0 <= i < f.len() && f[i] == v[j]; assert(typed(T, f[i] as int)); assert(!(T[f[i] as int] is Rec)); }
    if w.len() == 1 { assert(w[0] < T.len() && part(T[w[0] as int])); assert(nf(T, T[w[0] as int])); if tight(T) { reveal(tight); assert(tight_ty(T, T[w[0] as int])); } }
  }
}
// a type in normal form is not reduced any further
pub proof fn lemma_filter_all(s: Seq<usize>, p: spec_fn(usize) -> bool) requires forall|k: int| 0 <= k < s.len() ==> p(#[trigger] s[k]) ensures s.filter(p) == s decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { let t = s.drop_last(); assert forall|k: int| 0 <= k < t.len() implies p(#[trigger] t[k]) by { assert(s[k] == t[k]); } lemma_filter_all(t, p); assert(p(s[s.len() - 1])); assert(t.push(s.last()) =~= s); } else { assert(s.filter(p) =~= s); } }
pub proof fn lemma_flat_only(T: Tys, ks: Seq<usize>) requires forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]) < T.len() && part(T[ks[j] as int]) ensures flat(T, ks) == ks decreases ks.len()
{ if ks.len() > 0 { let t = ks.drop_last(); assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]) < T.len() && part(T[t[j] as int]) by { assert(ks[j] == t[j]); } lemma_flat_only(T, t); assert(part(T[ks[ks.len() - 1] as int])); assert(t + seq![ks.last()] =~= ks); } else { assert(flat(T, ks) =~= ks); } }
pub proof fn lemma_parts_only(T: Tys, ks: Seq<usize>) requires forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]) < T.len() && part(T[ks[j] as int]) && !(T[ks[j] as int] is Unit) && !(T[ks[j] as int] is Inv)
  ensures flat(T, ks) == ks, ks.filter(visible(T)) == ks, ks.filter(valued(T)) == ks
{
  lemma_flat_only(T, ks);
  assert forall|k: int| 0 <= k < ks.len() implies visible(T)(#[trigger] ks[k]) && valued(T)(ks[k]) by { assert(part(T[ks[k] as int])); }
  lemma_filter_all(ks, visible(T)); lemma_filter_all(ks, valued(T));
}
// reducing a type in normal form
pub proof fn lemma_again_red(T: Tys, t: Ty) requires closed(T), nf(T, t), !(t is Infer) ensures nf(T, red(T, t)), tight(T) ==> tight_ty(T, red(T, t)), !(red(T, t) is Infer), flatly(T) && !(t is Rec) ==> !(red(T, t) is Rec)
{ match t { Ty::Tup(k) => { assert forall|j: int| 0 <= j < k.len() implies typed(T, (#[trigger] k[j]) as int) by { assert(part(T[k[j] as int])); } lemma_tuple_nf(T, k); }, _ => {} } }
pub proof fn lemma_red_same(A: Tys, B: Tys, t: Ty) requires closed(A), keeps(A, B), nf(A, t) ensures red(A, t) == red(B, t)
{ match t { Ty::Tup(k) => { assert forall|j: int| 0 <= j < k.len() implies typed(A, (#[trigger] k[j]) as int) && A[k[j] as int] == B[k[j] as int] by { assert(part(A[k[j] as int])); } lemma_tuple_same(A, B, k); }, _ => {} } }
pub proof fn lemma_red(T: Tys, t: Ty) requires nf(T, t), tight_ty(T, t) ensures red(T, t) == t
{
  match t { Ty::Tup(k) => { lemma_parts_only(T, k); assert(!some_rec(T, k)) by { if some_rec(T, k) { let j = choose|j: int| 0 <= j < k.len() && T[(#[trigger] k[j]) as int] is Rec; assert(part(T[k[j] as int])); } } }, _ => {} }
}
pub proof fn lemma_teq_same(A: Tys, B: Tys, f: nat, a: Ty, b: Ty) requires closed(A), keeps(A, B), nf(A, a), nf(A, b) ensures teq(A, f, a, b) == teq(B, f, a, b) decreases f, 0nat
{
  if f > 0 { let h = (f - 1) as nat; match (a, b) {
    (Ty::Opt(x), Ty::Opt(y)) => { assert(nf(A, A[x])); assert(nf(A, A[y])); assert(A[x] == B[x]); assert(A[y] == B[y]); lemma_teq_same(A, B, h, A[x], A[y]); },
    (Ty::List(x), Ty::List(y)) => { assert(nf(A, A[x])); assert(nf(A, A[y])); assert(A[x] == B[x]); assert(A[y] == B[y]); lemma_teq_same(A, B, h, A[x], A[y]); },
    (Ty::Tup(x), Ty::Tup(y)) => if x.len() == y.len() { assert forall|j: int| 0 <= j < x.len() implies typed(A, (#[trigger] x[j]) as int) && A[x[j] as int] == B[x[j] as int] by { assert(part(A[x[j] as int])); } assert forall|j: int| 0 <= j < y.len() implies typed(A, (#[trigger] y[j]) as int) && A[y[j] as int] == B[y[j] as int] by { assert(part(A[y[j] as int])); } lemma_teq_all_same(A, B, h, x, y); },
    _ => {} } }
}
pub proof fn lemma_teq_all_same(A: Tys, B: Tys, f: nat, x: Seq<usize>, y: Seq<usize>) requires closed(A), keeps(A, B), still(A, B, x), still(A, B, y) ensures teq_all(A, f, x, y) == teq_all(B, f, x, y) decreases f, x.len() + 1
{
  if x.len() > 0 && y.len() > 0 {
    lemma_drop(A, B, x); lemma_drop(A, B, y); lemma_teq_all_same(A, B, f, x.drop_last(), y.drop_last());
    assert(nf(A, A[x.last() as int])); assert(nf(A, A[y.last() as int])); lemma_teq_same(A, B, f, A[x.last() as int], A[y.last() as int]);
  }
}
pub proof fn lemma_same_same(A: Tys, B: Tys, a: Ty, b: Ty, r: bool) requires closed(A), keeps(A, B), nf(A, a), nf(A, b) ensures same(A, a, b, r) == same(B, a, b, r)
{
  if same(A, a, b, r) { let f = choose|f: nat| #[trigger] teq(A, f, a, b) == Some(r); lemma_teq_same(A, B, f, a, b); assert(teq(B, f, a, b) == Some(r)); }
  if same(B, a, b, r) { let f = choose|f: nat| #[trigger] teq(B, f, a, b) == Some(r); lemma_teq_same(A, B, f, a, b); assert(teq(A, f, a, b) == Some(r)); }
}
pub proof fn lemma_choice_same(A: Tys, B: Tys, ts: Seq<Ty>) requires closed(A), keeps(A, B), forall|k: int| 0 <= k < ts.len() ==> nf(A, #[trigger] ts[k])
  ensures clash(A, ts) ==> clash(B, ts), forall|t: Ty| #[trigger] unify(A, ts, t) ==> unify(B, ts, t)
{
  assert forall|t: Ty| #[trigger] unify(A, ts, t) implies unify(B, ts, t) by {
    if !(t is Rec) && (exists|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) == t) && agrees(A, ts, t) {
      let k = choose|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) == t;
      assert forall|k: int| 0 <= k < ts.len() implies (#[trigger] ts[k]) is Rec || ts[k] is Ext || ts[k] == t || same(B, ts[k], t, true) by { lemma_same_same(A, B, ts[k], t, true); }
    } }
  if clash(A, ts) && !has_poly(ts) {
    let (j, k) = choose|j: int, k: int| 0 <= j < ts.len() && 0 <= k < ts.len() && value_type(ts[j]) && value_type(ts[k]) && same(A, #[trigger] ts[j], #[trigger] ts[k], false);
    lemma_same_same(A, B, ts[j], ts[k], false); assert(same(B, ts[j], ts[k], false));
  }
}
pub proof fn lemma_view(A: Tys, B: Tys, ks: Seq<usize>) requires still(A, B, ks), A.len() == B.len() ensures at(A, ks) == at(B, ks), typed_all(B, ks)
{ assert forall|k: int| 0 <= k < ks.len() implies at(A, ks)[k] == at(B, ks)[k] && typed(B, (#[trigger] ks[k]) as int) by { assert(typed(A, ks[k] as int)); } assert(at(A, ks) =~= at(B, ks)); }
pub proof fn lemma_view_nf(A: Tys, ks: Seq<usize>) requires closed(A), typed_all(A, ks) ensures forall|k: int| 0 <= k < at(A, ks).len() ==> nf(A, #[trigger] at(A, ks)[k])
{ assert forall|k: int| 0 <= k < at(A, ks).len() implies nf(A, #[trigger] at(A, ks)[k]) by { assert(typed(A, ks[k] as int)); assert(nf(A, A[ks[k] as int])); } }
// the kids that are typed keep their types
pub open spec fn firm(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, i: int) -> bool { forall|k: int| 0 <= k < kids(es[i]).len() && typed(A, (#[trigger] kids(es[i])[k]) as int) ==> A[kids(es[i])[k] as int] == B[kids(es[i])[k] as int] }
pub proof fn lemma_one(A: Tys, B: Tys, e: Expression, c: usize) requires kids(e) == seq![c] ensures kids(e)[0] == c { }
pub proof fn lemma_rule_ty(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, e: bool, f: bool, p: Seq<Ident>, i: int, t: Ty)
  requires closed(A), keeps(A, B), A.len() == es.len(), 0 <= i < es.len(), rule_ty(es, rs, A, e, p, i, t), firm(es, rs, A, B, i), e ==> f,
    es[i] is NonTerminalSymbol && typed(A, rule_expr(rs, es[i]->NonTerminalSymbol_0@)) ==> in_path(p, es[i]->NonTerminalSymbol_0@) || A[rule_expr(rs, es[i]->NonTerminalSymbol_0@)] == B[rule_expr(rs, es[i]->NonTerminalSymbol_0@)]
  ensures rule_ty(es, rs, B, f, p, i, t)
{
  let kk = kids(es[i]);
  match es[i] {
    Sequence(ks) => { assert(still(A, B, ks@)); lemma_tuple_same(A, B, ks@); lemma_view(A, B, ks@); },
    Choice(ks) => { assert(still(A, B, ks@)); lemma_view(A, B, ks@); lemma_view_nf(A, ks@); lemma_choice_same(A, B, at(A, ks@));
      if exists|u: Ty| #[trigger] unify(A, at(A, ks@), u) && t == red(A, u) { let u = choose|u: Ty| #[trigger] unify(A, at(A, ks@), u) && t == red(A, u);
        assert(nf(A, u)) by { if !(u is Inv || u is Rec) { let k = choose|k: int| 0 <= k < ks@.len() && #[trigger] at(A, ks@)[k] == u; } } lemma_red_same(A, B, u); assert(unify(B, at(B, ks@), u)); } },
    NonTerminalSymbol(id) => { let r = rule_expr(rs, id@); if !in_path(p, id@) && typed(A, r) && t == red(A, A[r]) { assert(nf(A, A[r])); lemma_red_same(A, B, A[r]); } },
    SpannedExpr(c) => { assert(kk[0] == c); let ks = seq![(A.len() - 1) as usize, c]; assert(still(A, B, ks)); lemma_tuple_same(A, B, ks); },
    ZeroOrMore(c) => { assert(kk[0] == c); }, OneOrMore(c) => { assert(kk[0] == c); }, ZeroOrOne(c) => { assert(kk[0] == c); }, RangeExpr(c) => { assert(kk[0] == c); },
    _ => {}
  }
}
pub proof fn lemma_nf(A: Tys, B: Tys, t: Ty) requires keeps(A, B), nf(A, t) ensures nf(B, t)
{ match t { Ty::Tup(k) => { assert forall|j: int| 0 <= j < k.len() implies (#[trigger] k[j]) < B.len() && part(B[k[j] as int]) by { assert(part(A[k[j] as int])); } }, Ty::Opt(c) => { assert(A[c] == B[c]); }, Ty::List(c) => { assert(A[c] == B[c]); }, _ => {} } }
pub proof fn lemma_closed(A: Tys, B: Tys, i: int) requires closed(A), keeps(A, B), 0 <= i < A.len() - 1, B == A.update(i, B[i]), nf(A, B[i]) ensures closed(B)
{ assert forall|j: int| 0 <= j < B.len() implies nf(B, #[trigger] B[j]) by { if j == i { lemma_nf(A, B, B[i]); } else { assert(A[j] == B[j]); lemma_nf(A, B, A[j]); } } }
pub proof fn lemma_closes(rs: Seq<Rule>, A: Tys, B: Tys, b: bool, t: Ty) requires keeps(A, B), closes(rs, A, b, t) ensures closes(rs, B, b, t)
{ if !(t is Inv) { let n = choose|n: Seq<char>| #![trigger on_cycle(n)] on_cycle(n) && names_rule(rs, n) && typed(A, rule_expr(rs, n)) && A[rule_expr(rs, n)] == t; assert(on_cycle(n) && typed(B, rule_expr(rs, n)) && B[rule_expr(rs, n)] == t); } }
pub proof fn lemma_judged(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, e: bool, f: bool, p: Seq<Ident>, i: int)
  requires closed(A), grows(A, B), A.len() == es.len(), 0 <= i < es.len(), judged(es, rs, A, e, p, i), !(A[i] is Infer), e ==> f ensures judged(es, rs, B, f, p, i)
{
  assert(firm(es, rs, A, B, i)); assert(A[i] == B[i]);
  if rule_ty(es, rs, A, e, p, i, A[i]) { lemma_rule_ty(es, rs, A, B, e, f, p, i, A[i]); }
  else { let (b, n) = choose|b: bool, n: Seq<char>| #![trigger closes(rs, A, b, A[i]), rule_expr(rs, n)] names_rule(rs, n) && i == rule_expr(rs, n) && rule_ty(es, rs, A, e, p, i, Ty::Rec(b)) && closes(rs, A, b, A[i]);
    lemma_rule_ty(es, rs, A, B, e, f, p, i, Ty::Rec(b)); lemma_closes(rs, A, B, b, A[i]); assert(closes(rs, B, b, B[i]) && i == rule_expr(rs, n)); }
}
pub proof fn lemma_bad(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys) requires closed(A), keeps(A, B), A.len() == es.len(), bad(es, A), forall|i: int| 0 <= i < es.len() - 1 ==> #[trigger] firm(es, rs, A, B, i) ensures bad(es, B)
{
  let i = choose|i: int| 0 <= i < es.len() - 1 && (#[trigger] es[i]) is Choice && typed_all(A, kids(es[i])) && clash(A, at(A, kids(es[i])));
  let ks = kids(es[i]); assert(firm(es, rs, A, B, i)); assert(still(A, B, ks)); lemma_view(A, B, ks); lemma_view_nf(A, ks); lemma_choice_same(A, B, at(A, ks)); assert(es[i] is Choice);
}
pub proof fn lemma_step(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, A: Tys, B: Tys, C: Tys, a: bool, b: bool, c: bool)
  requires A.len() == es.len(), step(es, rs, p, A, B, a, b), step(es, rs, p, B, C, b, c) ensures step(es, rs, p, A, C, a, c)
{
  assert forall|i: int| 0 <= i < A.len() && A[i] is Infer && !((#[trigger] C[i]) is Infer) implies i < A.len() - 1 && judged(es, rs, C, c, p, i) by { if !(B[i] is Infer) { lemma_judged(es, rs, B, C, b, c, p, i); } }
  if c && !a { if b { assert forall|i: int| 0 <= i < es.len() - 1 implies #[trigger] firm(es, rs, B, C, i) by {} lemma_bad(es, rs, B, C); } }
}
pub proof fn lemma_no_step(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, A: Tys, a: bool) requires closed(A) ensures step(es, rs, p, A, A, a, a) {}
pub proof fn lemma_within(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, C: Tys, m: int, n: int, p: Seq<Ident>) requires A.len() == B.len(), grows(B, C), within(es, rs, A, B, m, p), within(es, rs, B, C, n, p), m <= n, p.len() == 0 && calm(rs, A) ==> calm(rs, B) ensures within(es, rs, A, C, n, p)
{ assert forall|i: int| 0 <= i < A.len() && A[i] is Infer && !((#[trigger] C[i]) is Infer) implies p.len() > 0 && i < n && own(es, rs)(i) == p.last()@ || !in_path(p, own(es, rs)(i)) && (p.len() == 0 && calm(rs, A) ==> i < n) by { if !(B[i] is Infer) {} } }
pub proof fn lemma_tight(A: Tys, B: Tys, i: int, t: Ty) requires tight(A), closed(A), 0 <= i < A.len(), A[i] is Infer || A[i] is Rec, B == A.update(i, t), tight_ty(A, t), nf(A, t) ensures tight(B)
{
  reveal(tight);
  assert forall|j: int| 0 <= j < B.len() implies tight_ty(B, #[trigger] B[j]) by {
    let u = B[j]; assert(tight_ty(A, u) && nf(A, u)) by { if j != i { assert(A[j] == u); assert(tight_ty(A, A[j])); assert(nf(A, A[j])); } }
    match u { Ty::Tup(k) => { assert forall|m: int| 0 <= m < k.len() implies !(B[(#[trigger] k[m]) as int] is Unit) by { assert(part(A[k[m] as int])); } }, _ => {} }
  }
}
pub proof fn lemma_calm_set(rs: Seq<Rule>, A: Tys, B: Tys, i: int, t: Ty) requires calm(rs, A), 0 <= i < A.len(), B == A.update(i, t), !(t is Rec), !(t is Infer) ensures calm(rs, B)
{
  reveal(calm);
  assert forall|k: int| 0 <= k < rs.len() implies typed(B, rule_expr(rs, (#[trigger] rs[k]).name@)) by { assert(typed(A, rule_expr(rs, rs[k].name@))); }
  assert forall|j: int| 0 <= j < B.len() implies !((#[trigger] B[j]) is Rec) by { if j != i { assert(B[j] == A[j]); } }
}
pub proof fn lemma_steps(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, A: Tys, B: Tys, a: bool, b: bool)
  requires grows(A, B), news(es, rs, A, B, b, p), closed(B), tight(A) ==> tight(B), p.len() == 0 && calm(rs, A) ==> calm(rs, B), a ==> b, b ==> a || bad(es, B) ensures step(es, rs, p, A, B, a, b) {}
// the expression i gets its type, last of all
pub proof fn lemma_last(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, A: Tys, B: Tys, a: bool, b: bool, i: int, t: Ty)
  requires A.len() == es.len(), 0 <= i < es.len() - 1, step(es, rs, p, A, B, a, b), B[i] is Infer, !(t is Infer), nf(B, t), tight(B) ==> tight_ty(B, t), rule_ty(es, rs, B, b, p, i, t), p.len() > 0 && own(es, rs)(i) == p.last()@ || p.len() == 0 && calm(rs, A) && !(t is Rec), within(es, rs, A, B, i, p)
  ensures step(es, rs, p, A, B.update(i, t), a, b), within(es, rs, A, B.update(i, t), i + 1, p)
{
  let C = B.update(i, t); assert(grows(B, C)); assert(keeps(B, C)); lemma_closed(B, C, i);
  assert(firm(es, rs, B, C, i)); lemma_rule_ty(es, rs, B, C, b, b, p, i, t);
  assert forall|j: int| 0 <= j < B.len() && B[j] is Infer && !((#[trigger] C[j]) is Infer) implies j < B.len() - 1 && judged(es, rs, C, b, p, j) by { assert(j == i); }
  if tight(B) { lemma_tight(B, C, i, t); } if p.len() == 0 && calm(rs, B) { lemma_calm_set(rs, B, C, i, t); }
  lemma_steps(es, rs, p, B, C, b, b); lemma_step(es, rs, p, A, B, C, a, b, b);
  assert(within(es, rs, B, C, i + 1, p)); lemma_within(es, rs, A, B, C, i + 1, i + 1, p);
}
pub proof fn lemma_fewer(es: Seq<Expression>, rs: Seq<Rule>, T: Tys, e: bool, p: Seq<Ident>, x: Ident, i: int) requires judged(es, rs, T, e, p.push(x), i) ensures judged(es, rs, T, e, p, i)
{
  let q = p.push(x);
  assert forall|n: Seq<char>| in_path(p, n) implies #[trigger] in_path(q, n) by { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k])@ == n; assert(q[k]@ == n); }
  if rule_ty(es, rs, T, e, q, i, T[i]) { assert(rule_ty(es, rs, T, e, p, i, T[i])); } else {
    let (b, n) = choose|b: bool, n: Seq<char>| #![trigger closes(rs, T, b, T[i]), rule_expr(rs, n)] names_rule(rs, n) && i == rule_expr(rs, n) && rule_ty(es, rs, T, e, q, i, Ty::Rec(b)) && closes(rs, T, b, T[i]);
    assert(rule_ty(es, rs, T, e, p, i, Ty::Rec(b))); assert(closes(rs, T, b, T[i]) && i == rule_expr(rs, n)); }
}
// a rule is done: its expression keeps its type, or gets the one its recursion leaves
pub proof fn lemma_done(es: Seq<Expression>, rs: Seq<Rule>, p: Seq<Ident>, x: Ident, A: Tys, B: Tys, a: bool, b: bool, t: Ty)
  requires A.len() == es.len(), shape(es, rs), names_rule(rs, x@), step(es, rs, p.push(x), A, B, a, b), A[rule_expr(rs, x@)] is Infer, typed(B, rule_expr(rs, x@)),
    t == B[rule_expr(rs, x@)] || B[rule_expr(rs, x@)] is Rec && !(t is Infer) && !(t is Rec) && closes(rs, B, B[rule_expr(rs, x@)]->Rec_0, t), rule_expr(rs, x@) < es.len() - 1,
    within(es, rs, A, B, rule_expr(rs, x@) + 1, p.push(x)), !in_path(p, x@)
  ensures step(es, rs, p, A, B.update(rule_expr(rs, x@), t), a, b), within(es, rs, A, B.update(rule_expr(rs, x@), t), 0, p)
{
  let q = p.push(x); let r = rule_expr(rs, x@); let C = B.update(r, t); let u = B[r];
  assert(q.last() == x); assert(q[q.len() - 1]@ == x@);
  assert(in_path(q, x@)); assert(!calm(rs, A)) by { if calm(rs, A) { lemma_calm_rule(rs, A, x@); } }
  if t == u { assert(C =~= B); } else {
    assert(keeps(B, C)); assert(nf(B, t)) by { if !(t is Inv) { let n = choose|n: Seq<char>| #![trigger on_cycle(n)] on_cycle(n) && names_rule(rs, n) && typed(B, rule_expr(rs, n)) && B[rule_expr(rs, n)] == t; assert(nf(B, B[rule_expr(rs, n)])); } }
    lemma_closed(B, C, r);
    if tight(B) { assert(tight_ty(B, t)) by { if !(t is Inv) { reveal(tight); let n = choose|n: Seq<char>| #![trigger on_cycle(n)] on_cycle(n) && names_rule(rs, n) && typed(B, rule_expr(rs, n)) && B[rule_expr(rs, n)] == t; assert(tight_ty(B, B[rule_expr(rs, n)])); } } lemma_tight(B, C, r, t); }
    assert forall|i: int| 0 <= i < es.len() - 1 implies #[trigger] firm(es, rs, B, C, i) by { assert forall|k: int| 0 <= k < kids(es[i]).len() && typed(B, (#[trigger] kids(es[i])[k]) as int) implies B[kids(es[i])[k] as int] == C[kids(es[i])[k] as int] by { assert(kids(es[i])[k] != rule_expr(rs, x@)); } }
    if b && !a { lemma_bad(es, rs, B, C); }
  }
  assert forall|i: int| 0 <= i < A.len() && A[i] is Infer && !((#[trigger] C[i]) is Infer) implies i < A.len() - 1 && judged(es, rs, C, b, p, i) by {
    assert(!(B[i] is Infer)); assert(judged(es, rs, B, b, q, i));
    if t != u {
      if es[i] is NonTerminalSymbol { let id = es[i]->NonTerminalSymbol_0; assert(names_rule(rs, id@)); if rule_expr(rs, id@) == r { assert(own(es, rs)(r) == id@); assert(own(es, rs)(r) == x@); assert(in_path(q, id@)); } }
      assert(firm(es, rs, B, C, i));
      if rule_ty(es, rs, B, b, q, i, B[i]) { lemma_rule_ty(es, rs, B, C, b, b, q, i, B[i]);
        if i == r { lemma_closes(rs, B, C, u->Rec_0, t); assert(u == Ty::Rec(u->Rec_0)); assert(closes(rs, C, u->Rec_0, C[i]) && i == rule_expr(rs, x@)); } }
      else { let (c, n) = choose|c: bool, n: Seq<char>| #![trigger closes(rs, B, c, B[i]), rule_expr(rs, n)] names_rule(rs, n) && i == rule_expr(rs, n) && rule_ty(es, rs, B, b, q, i, Ty::Rec(c)) && closes(rs, B, c, B[i]);
        assert(i != r); lemma_rule_ty(es, rs, B, C, b, b, q, i, Ty::Rec(c)); lemma_closes(rs, B, C, c, B[i]); assert(closes(rs, C, c, C[i]) && i == rule_expr(rs, n)); }
    }
    lemma_fewer(es, rs, C, b, p, x, i);
  }
  assert forall|i: int| 0 <= i < A.len() && A[i] is Infer && !((#[trigger] C[i]) is Infer) implies !in_path(p, own(es, rs)(i)) by {
    assert(!(B[i] is Infer));
    if in_path(p, own(es, rs)(i)) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k])@ == own(es, rs)(i); assert(q[k]@ == own(es, rs)(i)); assert(in_path(q, own(es, rs)(i))); assert(own(es, rs)(i) == x@); }
  }
}
pub proof fn lemma_waits(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, m: int, p: Seq<Ident>) requires shape(es, rs), A.len() == es.len(), grows(A, B), waits(rs, A, p), within(es, rs, A, B, m, p), p.len() > 0 ==> m <= rule_expr(rs, p.last()@) ensures waits(rs, B, p)
{
  assert forall|k: int| 0 <= k < p.len() implies names_rule(rs, (#[trigger] p[k])@) && B[rule_expr(rs, p[k]@)] is Infer by {
    let r = rule_expr(rs, p[k]@); lemma_rule(rs, p[k]@); assert(0 <= r < A.len());
    if !(B[r] is Infer) { assert(own(es, rs)(r) == p[k]@); assert(in_path(p, own(es, rs)(r))); }
  }
}
pub proof fn lemma_refs(T: Tys, t: Ty) requires nf(T, t) ensures in_refs(t, T.len() as int), t is Rec || no_rec(T, t) {
  match t { Ty::Tup(k) => { assert forall|j: int| 0 <= j < k.len() implies !(T[(#[trigger] k[j]) as int] is Rec) && k[j] < T.len() by { assert(part(T[k[j] as int])); } }, _ => {} } }
pub proof fn lemma_no_rec_inside(T: Tys) requires closed(T) ensures no_rec_inside(T) { assert forall|i: int| 0 <= i < T.len() implies (#[trigger] T[i] is Rec) || no_rec(T, T[i]) by { lemma_refs(T, T[i]); } }
'''



SELF = r"""
impl Surface {
  pub open spec fn T(&self) -> Tys { vt(&self.grammar) }
  pub open spec fn es(&self) -> Seq<Expression> { self.grammar.exprs@ }
  pub open spec fn rs(&self) -> Seq<Rule> { self.grammar.rules@ }
  pub open spec fn p(&self) -> Seq<Ident> { self.recursion_path@ }
  // what holds all along
  #[verifier::opaque]
  pub open spec fn sound(&self) -> bool {
    shape(self.es(), self.rs()) && self.T().len() == self.es().len() && closed(self.T()) && gok(&self.grammar)
    && linked(self.p()) && waits(self.rs(), self.T(), self.p())
  }
  // i is an expression of the rule being typed (if none is: all are)
  #[verifier::opaque]
  pub open spec fn here(&self, i: int) -> bool { 0 <= i < self.es().len() - 1 && if self.p().len() > 0 { own(self.es(), self.rs())(i) == self.p().last()@ && i <= rule_expr(self.rs(), self.p().last()@) } else { calm(self.rs(), self.T()) } }
  // only types and the error flag change
  pub open spec fn same_rest(&self, o: &Self) -> bool { self.es() == o.es() && self.rs() == o.rs() && self.p() == o.p() && self.T().len() == o.T().len() }
  #[verifier::opaque]
  pub open spec fn stepped(&self, o: &Self) -> bool { step(o.es(), o.rs(), o.p(), o.T(), self.T(), o.error, self.error) }
  #[verifier::opaque]
  pub open spec fn inside(&self, o: &Self, m: int) -> bool { within(o.es(), o.rs(), o.T(), self.T(), m, o.p()) }
  // what visiting the expression i answers, before it is reduced
  pub open spec fn gives(&self, i: int, r: IType) -> bool {
    !(r is Infer) && iok(r, self.rs()) && in_refs(tv(r), self.T().len() as int) && (tv(r) is Tup ==> tv(r)->Tup_0.len() > 0) && nf(self.T(), red(self.T(), tv(r)))
    && !(red(self.T(), tv(r)) is Infer) && (tight(self.T()) ==> tight_ty(self.T(), red(self.T(), tv(r)))) && (self.p().len() == 0 ==> !(red(self.T(), tv(r)) is Rec)) && rule_ty(self.es(), self.rs(), self.T(), self.error, self.p(), i, red(self.T(), tv(r)))
  }
  #[verifier::opaque]
  pub open spec fn concludes(&self, o: &Self, i: int, r: IType) -> bool { self.same_rest(o) && self.sound() && self.stepped(o) && self.inside(o, i) && self.T()[i] is Infer && self.gives(i, r) }
  // after the expression i was visited
  #[verifier::opaque]
  pub open spec fn visited(&self, o: &Self, i: int, r: IType) -> bool { self.same_rest(o) && gok(&self.grammar) && self.stepped(o) && self.inside(o, i + 1) && typed(self.T(), i) && tv(r) == self.T()[i] && iok(r, o.rs()) }
  // after the rule n was visited
  #[verifier::opaque]
  pub open spec fn rule_done(&self, o: &Self, n: Seq<char>, r: IType) -> bool {
    self.same_rest(o) && self.sound() && self.stepped(o) && self.inside(o, 0) && iok(r, o.rs()) && !(r is Infer)
    && if in_path(o.p(), n) { tv(r) == Ty::Rec(false) && on_cycle(n) } else { typed(self.T(), rule_expr(o.rs(), n)) && tv(r) == self.T()[rule_expr(o.rs(), n)] }
  }
  // after the first n of the kids ks of the expression i were visited; vs are their types
  #[verifier::opaque]
  pub open spec fn walked(&self, o: &Self, i: int, ks: Seq<usize>, n: int, vs: Seq<IType>) -> bool {
    self.same_rest(o) && self.sound() && self.stepped(o) && self.inside(o, i) && self.here(i) && self.T()[i] is Infer && kids(self.es()[i]) == ks && vs.len() == n && n <= ks.len()
    && forall|k: int| 0 <= k < n ==> typed(self.T(), ks[k] as int) && tv(#[trigger] vs[k]) == self.T()[ks[k] as int] && iok(vs[k], self.rs())
  }
  // after every rule up to the n-th was visited
  #[verifier::opaque]
  pub open spec fn surfaced(&self, o: &Self, n: int) -> bool { self.same_rest(o) && self.sound() && self.stepped(o) && ruled(self.rs(), self.T(), n) }
}
pub proof fn lemma_open(s: &Surface) requires s.sound() ensures gok(&s.grammar), s.T().len() == s.es().len(), no_rec_inside(s.T()), s.es().len() == s.grammar.exprs_info@.len(), s.es().len() > 0, arena(s.es())
{ reveal(Surface::sound); lemma_no_rec_inside(s.T()); }
pub proof fn lemma_here(s: &Surface, i: int) requires s.sound(), s.here(i) ensures 0 <= i < s.es().len() - 1, s.T().len() == s.es().len(), gok(&s.grammar), s.p().len() == 0 ==> calm(s.rs(), s.T()),
  s.es()[i] is NonTerminalSymbol ==> names_rule(s.rs(), s.es()[i]->NonTerminalSymbol_0@) && (s.p().len() > 0 ==> calls(s.p().last()@, s.es()[i]->NonTerminalSymbol_0@)), s.es()[i] is Choice || s.es()[i] is Sequence ==> kids(s.es()[i]).len() > 0
{ reveal(Surface::sound); reveal(Surface::here); assert(asc_ok(s.es()[i])); }
pub proof fn lemma_kid(s: &Surface, i: int, k: int) requires s.sound(), s.here(i), 0 <= k < kids(s.es()[i]).len() ensures s.here(kids(s.es()[i])[k] as int), kids(s.es()[i])[k] < i
{ reveal(Surface::sound); reveal(Surface::here); assert(kids(s.es()[i])[k] < i); assert(own(s.es(), s.rs())(kids(s.es()[i])[k] as int) == own(s.es(), s.rs())(i)); }
pub proof fn lemma_root(s: &Surface) requires s.sound(), s.p().len() > 0 ensures rule_expr(s.rs(), s.p().last()@) < s.es().len() - 1
{ reveal(Surface::sound); let n = s.p().last()@; assert(names_rule(s.rs(), s.p()[s.p().len() - 1]@)); lemma_rule(s.rs(), n); }
// the expression itself still has no type after its kids have theirs
pub proof fn lemma_after(a: &Surface, b: &Surface, i: int, m: int) requires a.sound(), a.here(i), a.T()[i] is Infer, b.same_rest(a), b.stepped(a), b.inside(a, m), m <= i, gok(&b.grammar) ensures b.sound(), b.here(i), b.T()[i] is Infer, b.inside(a, i)
{
  lemma_here(a, i); if a.p().len() > 0 { lemma_root(a); }
  reveal(Surface::sound); reveal(Surface::here); reveal(Surface::stepped); reveal(Surface::inside);
  lemma_waits(a.es(), a.rs(), a.T(), b.T(), m, a.p());
  if a.p().len() > 0 && !(b.T()[i] is Infer) { assert(a.p()[a.p().len() - 1]@ == a.p().last()@); assert(in_path(a.p(), own(a.es(), a.rs())(i))); }
}
pub proof fn lemma_unary(T: Tys, c: int, t: Ty) requires closed(T), typed(T, c), t == Ty::Opt(c) || t == Ty::List(c) ensures nf(T, unary(T, c, t)), !(unary(T, c, t) is Infer), unary(T, c, t) == red(T, t) { }
// ---- what each kind of expression amounts to
pub proof fn lemma_stay(s: &Surface, i: int) requires s.sound() ensures s.same_rest(s), s.stepped(s), s.inside(s, i) { reveal(Surface::sound); reveal(Surface::stepped); reveal(Surface::inside); lemma_no_step(s.es(), s.rs(), s.p(), s.T(), s.error); }
pub open spec fn plain(t: Ty) -> bool { t is Inv || t is Ext || t is Unit || t is Atom || t is Rust }
pub proof fn lemma_leaf(s: &Surface, i: int, r: IType) requires s.sound(), s.here(i), s.T()[i] is Infer, plain(tv(r)) || s.es()[i] is TypeAscription, rule_ty(s.es(), s.rs(), s.T(), s.error, s.p(), i, tv(r)) ensures s.concludes(s, i, r)
{ lemma_here(s, i); lemma_stay(s, i); reveal(Surface::concludes); assert(asc_ok(s.es()[i])) by { reveal(Surface::sound); } }
pub proof fn lemma_one_kid(o: &Surface, s: &Surface, i: int, c: int, k: IType, r: IType)
  requires o.sound(), o.here(i), o.T()[i] is Infer, kids(o.es()[i]).len() == 1, c == kids(o.es()[i])[0], s.visited(o, c, k),
    match o.es()[i] { ZeroOrMore(_) => tv(r) == Ty::List(c), OneOrMore(_) => tv(r) == Ty::List(c), ZeroOrOne(_) => tv(r) == Ty::Opt(c), SpannedExpr(_) => tv(r) is Tup && tv(r)->Tup_0 =~= seq![(o.T().len() - 1) as usize, c as usize], RangeExpr(_) => tv(r) is Rust, _ => false }
  ensures s.concludes(o, i, r)
{
  lemma_here(o, i); lemma_kid(o, i, 0); reveal(Surface::visited); reveal(Surface::concludes);
  lemma_after(o, s, i, c + 1); lemma_here(s, i);
  reveal(Surface::sound); let T = s.T(); if s.p().len() == 0 { lemma_calm(s.rs(), T); }
  match o.es()[i] {
    ZeroOrMore(x) => { lemma_unary(T, c, tv(r)); }, OneOrMore(x) => { lemma_unary(T, c, tv(r)); }, ZeroOrOne(x) => { lemma_unary(T, c, tv(r)); },
    SpannedExpr(x) => { let ks = seq![(T.len() - 1) as usize, x]; if s.p().len() == 0 { lemma_calm(s.rs(), T); } assert(typed_all(T, ks)); lemma_tuple_nf(T, ks); assert(tv(r)->Tup_0 == ks); },
    _ => {}
  }
}
pub proof fn lemma_nonterm(o: &Surface, s: &Surface, i: int, r: IType) requires o.sound(), o.here(i), o.T()[i] is Infer, o.es()[i] is NonTerminalSymbol, s.rule_done(o, o.es()[i]->NonTerminalSymbol_0@, r) ensures s.concludes(o, i, r)
{
  lemma_here(o, i); reveal(Surface::rule_done); reveal(Surface::concludes); lemma_open(s); lemma_after(o, s, i, 0); lemma_here(s, i); if s.p().len() == 0 { lemma_calm(s.rs(), s.T()); lemma_calm_rule(s.rs(), s.T(), o.es()[i]->NonTerminalSymbol_0@); } if !(r is Rec) { reveal(Surface::sound); let T = s.T(); let e = rule_expr(s.rs(), o.es()[i]->NonTerminalSymbol_0@); if typed(T, e) { assert(nf(T, T[e])); } lemma_again_red(T, tv(r)); lemma_refs(T, tv(r)); }
}
pub proof fn lemma_walk_start(o: &Surface, i: int, ks: Seq<usize>) requires o.sound(), o.here(i), o.T()[i] is Infer, kids(o.es()[i]) == ks ensures o.walked(o, i, ks, 0, Seq::empty()) { reveal(Surface::walked); lemma_stay(o, i); }
pub proof fn lemma_walk_kid(o: &Surface, s: &Surface, i: int, ks: Seq<usize>, n: int, vs: Seq<IType>) requires s.walked(o, i, ks, n, vs), 0 <= n < ks.len() ensures s.sound(), s.here(ks[n] as int) { reveal(Surface::walked); lemma_kid(s, i, n); }
pub proof fn lemma_walk_next(o: &Surface, s: &Surface, t: &Surface, i: int, ks: Seq<usize>, n: int, vs: Seq<IType>, r: IType) requires o.sound(), s.walked(o, i, ks, n, vs), 0 <= n < ks.len(), t.visited(s, ks[n] as int, r) ensures t.walked(o, i, ks, n + 1, vs.push(r))
{
  reveal(Surface::walked); reveal(Surface::visited); lemma_kid(s, i, n); lemma_after(s, t, i, ks[n] + 1);
  lemma_open(o);
  reveal(Surface::stepped); reveal(Surface::inside);
  lemma_step(o.es(), o.rs(), o.p(), o.T(), s.T(), t.T(), o.error, s.error, t.error); lemma_within(o.es(), o.rs(), o.T(), s.T(), t.T(), i, i, o.p());
  let ws = vs.push(r);
  assert forall|k: int| 0 <= k < n + 1 implies typed(t.T(), ks[k] as int) && tv(#[trigger] ws[k]) == t.T()[ks[k] as int] && iok(ws[k], t.rs()) by { if k < n { assert(ws[k] == vs[k]); assert(typed(s.T(), ks[k] as int)); } }
}
pub proof fn lemma_sequence(o: &Surface, s: &Surface, i: int, ks: Seq<usize>, vs: Seq<IType>, r: IType) requires o.sound(), o.here(i), o.es()[i] is Sequence, s.walked(o, i, ks, ks.len() as int, vs), tv(r) == Ty::Tup(ks) ensures s.concludes(o, i, r)
{
  lemma_here(o, i); reveal(Surface::walked); reveal(Surface::concludes); let T = s.T(); assert(closed(T)) by { reveal(Surface::sound); }
  lemma_here(s, i);
  assert forall|k: int| 0 <= k < ks.len() implies typed(T, (#[trigger] ks[k]) as int) by { assert(tv(vs[k]) == T[ks[k] as int]); }
  if s.p().len() == 0 { lemma_calm(s.rs(), T); } lemma_tuple_nf(T, ks); assert(in_refs(tv(r), T.len() as int)); 
}
pub proof fn lemma_walk_views(o: &Surface, s: &Surface, i: int, ks: Seq<usize>, vs: Seq<IType>) requires s.walked(o, i, ks, ks.len() as int, vs)
  ensures typed_all(s.T(), ks), views(vs) == at(s.T(), ks), closed(s.T()), gok(&s.grammar), no_rec_inside(s.T()), s.sound(), s.same_rest(o), s.here(i), ks.len() <= usize::MAX ==> vs.len() == ks.len(),
    forall|k: int| 0 <= k < vs.len() ==> iok(#[trigger] vs[k], s.rs()) && in_refs(tv(vs[k]), s.T().len() as int) && (vs[k] is Rec || no_rec(s.T(), tv(vs[k]))), forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]) < s.T().len()
{
  reveal(Surface::walked); lemma_open(s); let T = s.T(); assert(closed(T)) by { reveal(Surface::sound); }
  assert forall|k: int| 0 <= k < ks.len() implies typed(T, (#[trigger] ks[k]) as int) by { assert(tv(vs[k]) == T[ks[k] as int]); }
  assert(views(vs) =~= at(T, ks));
  assert forall|k: int| 0 <= k < vs.len() implies iok(#[trigger] vs[k], s.rs()) && in_refs(tv(vs[k]), T.len() as int) && (vs[k] is Rec || no_rec(T, tv(vs[k]))) by { assert(typed(T, ks[k] as int)); assert(nf(T, T[ks[k] as int])); lemma_refs(T, tv(vs[k])); }
}
// what choosing the type of a choice answers
pub open spec fn chosen(T: Tys, rs: Seq<Rule>, vs: Seq<IType>, t: IType) -> bool { unify(T, views(vs), tv(t)) && iok(t, rs) && (exists|k: int| 0 <= k < vs.len() && #[trigger] views(vs)[k] == tv(t) || tv(t) is Inv || tv(t) is Rec) }
pub proof fn lemma_choice(o: &Surface, s: &Surface, f: &Surface, i: int, ks: Seq<usize>, vs: Seq<IType>, r: IType)
  requires o.sound(), o.here(i), o.es()[i] is Choice, s.walked(o, i, ks, ks.len() as int, vs), f.grammar == s.grammar, f.recursion_path == s.recursion_path,
    f.error == s.error && chosen(s.T(), s.rs(), vs, r) || f.error && r is Invisible && clash(s.T(), views(vs))
  ensures f.concludes(o, i, r)
{
  lemma_here(o, i); lemma_open(o); lemma_walk_views(o, s, i, ks, vs); let T = s.T(); lemma_view_nf(T, ks); lemma_here(s, i);
  reveal(Surface::walked); reveal(Surface::concludes);
  assert(kids(s.es()[i]) == ks);
  assert(step(s.es(), s.rs(), s.p(), T, T, s.error, f.error)) by { lemma_no_step(s.es(), s.rs(), s.p(), T, s.error); if f.error && !s.error { assert(s.es()[i] is Choice); assert(bad(s.es(), T)); } }
  assert(f.stepped(o)) by { reveal(Surface::stepped); lemma_step(o.es(), o.rs(), o.p(), o.T(), T, T, o.error, s.error, f.error); }
  assert(f.inside(o, i)) by { reveal(Surface::inside); }
  assert(f.sound()) by { reveal(Surface::sound); }
  let t = tv(r); if s.p().len() == 0 { lemma_calm(s.rs(), T); }
  if !(f.error && r is Invisible && clash(T, views(vs))) {
    assert(nf(T, t)) by { if !(t is Inv || t is Rec) { let k = choose|k: int| 0 <= k < vs.len() && #[trigger] views(vs)[k] == t; assert(nf(T, at(T, ks)[k])); } }
    assert(!(t is Infer)) by { if !(t is Inv || t is Rec) { let k = choose|k: int| 0 <= k < vs.len() && #[trigger] views(vs)[k] == t; assert(typed(T, ks[k] as int)); assert(at(T, ks)[k] == t); } }
    assert(s.p().len() == 0 ==> !(t is Rec)) by { if s.p().len() == 0 && t is Rec { assert(ks.len() > 0); assert(views(vs)[0] is Rec); assert(at(T, ks)[0] is Rec); } }
    lemma_again_red(T, t); lemma_refs(T, t);
  }
}
// ---- an expression, and a rule
pub proof fn lemma_seen(s: &Surface, i: int, r: IType) requires s.sound(), s.here(i), !(s.T()[i] is Infer), r == s.grammar.exprs_info@[i].ty ensures s.visited(s, i, r) { lemma_here(s, i); lemma_stay(s, i + 1); reveal(Surface::visited); }
pub proof fn lemma_concludes(o: &Surface, s: &Surface, i: int, r: IType) requires s.concludes(o, i, r) ensures s.same_rest(o), gok(&s.grammar), !(r is Infer), iok(r, s.rs()), in_refs(tv(r), s.T().len() as int), tv(r) is Tup ==> tv(r)->Tup_0.len() > 0 { reveal(Surface::concludes); lemma_open(s); }
pub proof fn lemma_typed(o: &Surface, s: &Surface, f: &Surface, i: int, r: IType, t: IType)
  requires o.sound(), o.here(i), s.concludes(o, i, r), tv(t) == red(s.T(), tv(r)), iok(t, s.rs()), f.same_rest(s), f.error == s.error, f.T() == s.T().update(i, tv(t)), gok(&f.grammar) ensures f.visited(o, i, t)
{
  lemma_open(o); reveal(Surface::concludes); reveal(Surface::visited); lemma_here(o, i);
  reveal(Surface::here); reveal(Surface::stepped); reveal(Surface::inside);
  lemma_last(o.es(), o.rs(), o.p(), o.T(), s.T(), o.error, s.error, i, tv(t));
}
pub proof fn lemma_enter(o: &Surface, s: &Surface, n: Ident, e: int)
  requires o.sound(), names_rule(o.rs(), n@), o.p().len() > 0 ==> calls(o.p().last()@, n@), !in_path(o.p(), n@), e == rule_expr(o.rs(), n@), o.T()[e] is Infer, s.grammar == o.grammar, s.p() == o.p().push(n)
  ensures s.sound(), s.here(e)
{
  reveal(Surface::sound); reveal(Surface::here); lemma_rule(o.rs(), n@); let p = o.p(); let q = s.p();
  assert(q.last() == n);
  assert(linked(q)) by { assert forall|j: int| 0 < j < q.len() implies calls((#[trigger] q[j - 1])@, q[j]@) by { if j < p.len() { assert(q[j - 1] == p[j - 1]); assert(q[j] == p[j]); } else { assert(q[j - 1] == p.last()); } } }
  assert(waits(o.rs(), o.T(), q)) by { assert forall|k: int| 0 <= k < q.len() implies names_rule(o.rs(), (#[trigger] q[k])@) && o.T()[rule_expr(o.rs(), q[k]@)] is Infer by { if k < p.len() { assert(q[k] == p[k]); } } }
}
pub proof fn lemma_visited(o: &Surface, s: &Surface, i: int, r: IType) requires s.visited(o, i, r) ensures s.same_rest(o), gok(&s.grammar), iok(r, s.rs()), !(r is Infer), 0 <= i < s.T().len(), tv(r) == s.T()[i] { reveal(Surface::visited); }
pub open spec fn left(g: &IGrammar, n: Seq<char>, ty: IType, t: IType) -> bool { (!(ty is Rec) ==> t == ty) && (t is Rec ==> t == ty) && (ty is Rec && !(t is Rec) ==> !(t is Infer) && if poly(ty->Rec_0) { t is Invisible } else { leaves(g, ty->Rec_0, t) }) }
pub proof fn lemma_left(g: &IGrammar, r: RecSet, t: IType) requires leaves(g, r, t), pok(r.path_set@, g.rules@), !poly(r), !(t is Rec), !(t is Infer), forall|k: int| 0 <= k < g.rules@.len() ==> (#[trigger] g.rules@[k]).expr_idx < g.exprs_info@.len() ensures closes(g.rules@, vt(g), false, tv(t))
{
  if !(t is Invisible) {
    let (p, q) = choose|p: int, q: int| #[trigger] first_at(g, r, p, q) && root_ty(g, r.path_set@[p].path@[q]@) == tv(t);
    assert(path_ok(r.path_set@[p], g.rules@)); let c = r.path_set@[p].path@; let n = c[q]@; assert(names_rule(g.rules@, c[q]@)); assert(cycle(c)); assert(in_path(c, n)); assert(on_cycle(n)); lemma_rule(g.rules@, n); assert(typed(vt(g), rule_expr(g.rules@, n)));
  }
}
pub proof fn lemma_leave(o: &Surface, s1: &Surface, s2: &Surface, g: &IGrammar, f: &Surface, n: Ident, e: int, ty: IType, t: IType)
  requires o.sound(), names_rule(o.rs(), n@), !in_path(o.p(), n@), e == rule_expr(o.rs(), n@), o.T()[e] is Infer, s1.grammar == o.grammar, s1.error == o.error, s1.p() == o.p().push(n), s1.sound(), s1.here(e),
    s2.visited(s1, e, ty), *g == s2.grammar, left(g, n@, ty, t), iok(t, o.rs()), f.es() == s2.es(), f.rs() == s2.rs(), f.p() == o.p(), f.error == s2.error, f.T() == s2.T().update(e, tv(t)), gok(&f.grammar)
  ensures f.rule_done(o, n@, t)
{
  lemma_open(o); lemma_here(s1, e); lemma_visited(s1, s2, e, ty); let A = o.T(); let B = s2.T();
  reveal(Surface::visited); 
  if ty is Rec && !(t is Rec) { if poly(ty->Rec_0) { assert(closes(o.rs(), B, true, tv(t))); } else { lemma_left(g, ty->Rec_0, t); } }
  assert(shape(o.es(), o.rs())) by { reveal(Surface::sound); }
  assert(tv(t) == B[e] || B[e] is Rec && !(tv(t) is Infer) && !(tv(t) is Rec) && closes(o.rs(), B, B[e]->Rec_0, tv(t)));
  reveal(Surface::stepped); reveal(Surface::inside);
  lemma_done(o.es(), o.rs(), o.p(), n, A, B, o.error, s2.error, tv(t));
  let C = f.T(); assert(C == B.update(e, tv(t)));
  assert(linked(o.p()) && waits(o.rs(), A, o.p()) && closed(C)) by { reveal(Surface::sound); }
  assert(grows(A, C));
  if o.p().len() > 0 { lemma_root(o); assert(names_rule(o.rs(), o.p()[o.p().len() - 1]@)) by { reveal(Surface::sound); } lemma_rule(o.rs(), o.p().last()@); }
  lemma_waits(o.es(), o.rs(), A, C, 0, o.p());
  assert(f.sound()) by { reveal(Surface::sound); }
  reveal(Surface::rule_done);
}
pub proof fn lemma_again(o: &Surface, n: Seq<char>, r: IType) requires o.sound(), names_rule(o.rs(), n), if in_path(o.p(), n) { tv(r) == Ty::Rec(false) && iok(r, o.rs()) && on_cycle(n) } else { !(r is Infer) && r == o.grammar.exprs_info@[rule_expr(o.rs(), n)].ty } ensures o.rule_done(o, n, r)
{ lemma_open(o); lemma_stay(o, 0); reveal(Surface::rule_done); lemma_rule(o.rs(), n); if !in_path(o.p(), n) { assert(iok(o.grammar.exprs_info@[rule_expr(o.rs(), n)].ty, o.rs())); } }
pub proof fn lemma_waiting(o: &Surface, n: Seq<char>) requires o.sound(), names_rule(o.rs(), n), in_path(o.p(), n) ensures o.T()[rule_expr(o.rs(), n)] is Infer { reveal(Surface::sound); let k = choose|k: int| 0 <= k < o.p().len() && (#[trigger] o.p()[k])@ == n; assert(names_rule(o.rs(), o.p()[k]@)); }
pub proof fn lemma_root_in(o: &Surface, n: Seq<char>) requires o.sound(), names_rule(o.rs(), n) ensures 0 <= rule_expr(o.rs(), n) < o.T().len(), gok(&o.grammar) { reveal(Surface::sound); lemma_rule(o.rs(), n); }
pub proof fn lemma_ruled(rs: Seq<Rule>, S: Tys, F: Tys, k: int) requires grows(S, F), 0 <= k < rs.len(), ruled(rs, S, k), typed(F, rule_expr(rs, rs[k].name@)) ensures ruled(rs, F, k + 1)
{ assert forall|j: int| 0 <= j < k + 1 implies typed(F, rule_expr(rs, (#[trigger] rs[j]).name@)) by { if j < k { assert(typed(S, rule_expr(rs, rs[j].name@))); } } }
pub proof fn lemma_surfaced(o: &Surface, s: &Surface, f: &Surface, k: int, r: IType) requires o.sound(), o.p().len() == 0, s.surfaced(o, k), 0 <= k < o.rs().len(), f.rule_done(s, s.rs()[k].name@, r) ensures f.surfaced(o, k + 1)
{
  lemma_open(o);
  assert(f.same_rest(o) && f.sound() && f.stepped(o)) by { reveal(Surface::surfaced); reveal(Surface::rule_done); reveal(Surface::stepped); lemma_step(o.es(), o.rs(), o.p(), o.T(), s.T(), f.T(), o.error, s.error, f.error); }
  assert(grows(s.T(), f.T()) && ruled(s.rs(), s.T(), k) && s.rs() == f.rs() && f.rs() == o.rs()) by { reveal(Surface::surfaced); reveal(Surface::rule_done); reveal(Surface::stepped); }
  assert(typed(f.T(), rule_expr(s.rs(), s.rs()[k].name@))) by { reveal(Surface::rule_done); assert(s.p().len() == 0) by { reveal(Surface::surfaced); } }
  lemma_ruled(s.rs(), s.T(), f.T(), k); reveal(Surface::surfaced);
}
"""

def h_error(em, n):
    if em.src[n.x.s:n.x.e].replace(' ', '').endswith('.unstable()'):
        em.u.drops.add('%s: the text of diagnostics in %s' % (em.f.file, em.f.name))
        return 'vx_diag_error(%s)' % em.e(n.x.x)
def h_span_note(em, n):
    em.u.drops.add('%s: the text of diagnostics in %s' % (em.f.file, em.f.name))
    return '%s.span_note(%s)' % (em.e(n.x), em.e(n.args[0]))
def h_unstable(em, n):
    return em.e(n.x)
def h_emit_var(em, n):
    if n.x.kind == 'path':
        return '%s.vx_emit()' % em.e(n.x)
    return astlib.h_emit(em, n)
def h_extend_chain(em, n):
    a = n.args[0]
    if a.kind == 'mcall' and a.name in ('take_while', 'rev', 'map', 'filter', 'skip_while'):
        em.extend_into = em.e(n.x)
        fake = rs.Node('mcall', n.s, n.e, x=a, name='extend', args=[])
        r = em.chain(fake)
        if r is None:
            raise Unsupported('extend')
        return r
    return ityping.h_extend(em, n)

COPY = r'''
// copies, known to be equal to what they copy
pub trait VxCopy: Sized { spec fn vx_same(&self, o: &Self) -> bool; fn vx_copy(&self) -> (r: Self) ensures self.vx_same(&r); }
%s
'''
VEC = '''impl VxCopy for Vec<%s> { open spec fn vx_same(&self, o: &Self) -> bool { self@ == o@ }
  fn vx_copy(&self) -> (r: Self) { let mut r: Vec<%s> = Vec::new(); let mut i: usize = 0; while i < self.len() invariant i <= self.len(), r@ =~= self@.take(i as int) decreases self.len() - i { r.push(%s); i += 1; } proof { assert(self@.take(self@.len() as int) =~= self@); } r } }
'''
ONE = '''impl VxCopy for %s { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_copy(&self) -> (r: Self) { self.clone() } }
'''
COPY %= ''.join(VEC % (t, t, 'self[i]' if t == 'usize' else 'self[i].clone()') for t in ('usize', 'IType', 'Ident', 'Rule', 'ExpressionInfo<IType>')) + ''.join(ONE % t for t in ('IType', 'Ident', 'Option<IType>'))

def h_debug(em, n):
    if n.x.kind == 'field' and n.x.name == 'print_typing':
        em.u.drops.add('%s: what the option print_typing prints' % em.f.file)
        return 'vx_debug_asked(&%s)' % em.e(n.x.x)

def h_copy(em, n):
    return '%s.vx_copy()' % em.e(n.x)

PRE = 'requires old(self).sound(), old(self).here($1 as int), old(self).T()[$1 as int] is Infer, '
POST = '\nensures final(self).concludes(old(self), $1 as int, r)'

def surface(u):
    u.struct(S, 'Surface')
    u.raw(SELF)
    u.raw(COPY)
    u.fn(S, 'Surface', 'new', spec='ensures r.grammar == $1, !r.error, r.recursion_path@.len() == 0')
    u.fn(S, 'Surface', 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.grammar.exprs@.len() ensures r == self.grammar.exprs@[$1 as int]')
    u.fn(AST, 'IGrammar', 'span_ty_idx', spec='requires self.exprs_info@.len() > 0 ensures r == self.exprs_info@.len() - 1')
    u.fn(S, 'Surface', 'is_rec', spec='ensures r == in_path(self.recursion_path@, $1@)',
        loops=[Loop('chain', 'invariant $i <= $s@.len(), $s@ == self.recursion_path@, $go == !$o, $o ==> in_path(self.recursion_path@, $1@), forall|k: int| 0 <= k < $i ==> (#[trigger] self.recursion_path@[k])@ != $1@ || $o\n decreases $s.len() - $i', it='any', body='let ghost i0 = $i as int;', tail='proof { if $o { assert(self.recursion_path@[i0]@ == $1@); } }')])
    u.fn(S, 'Surface', 'type_of', spec='requires $1 < self.T().len() ensures r == self.grammar.exprs_info@[$1 as int].ty, tv(r) == self.T()[$1 as int]')
    u.fn(S, 'Surface', 'type_expr', spec='''requires $1 < old(self).T().len(), gok(&old(self).grammar), iok($2, old(self).rs()), in_refs(tv($2), old(self).T().len() as int)
ensures r == $2, final(self).same_rest(old(self)), final(self).error == old(self).error, final(self).T() == old(self).T().update($1 as int, tv($2)), gok(&final(self).grammar)''')
    u.fn(AST, 'IType', 'rec', spec='requires $2@.len() > 0, cycle($2@) ensures tv(r) == Ty::Rec($1 == RecKind::Poly), r is Rec, r->Rec_0.path_set@.len() == 1, r->Rec_0.path_set@[0].path == $2, forall|rs: Seq<Rule>| #![trigger iok(r, rs)] (forall|j: int| 0 <= j < $2@.len() ==> names_rule(rs, (#[trigger] $2@[j])@)) ==> iok(r, rs)', nowhere=False)
    u.fn(S, 'Surface', 'infer_rec_type', spec='''requires old(self).sound(), in_path(old(self).p(), $1@), calls(old(self).p().last()@, $1@), names_rule(old(self).rs(), $1@)
ensures *final(self) == *old(self), tv(r) == Ty::Rec(false), iok(r, old(self).rs()), on_cycle($1@)''', mcalls={'clone': h_copy}, proof='proof { reveal(Surface::sound); }',
        loops=[Loop('chain', '''invariant $i <= $s@.len(), $s@ == P, P == old(self).p(), 1 <= rec_shorter_path@.len() <= 1 + $i, rec_shorter_path@[0] == *$1, forall|j: int| 0 < j < rec_shorter_path@.len() ==> (#[trigger] rec_shorter_path@[j]) == P[P.len() - j],
  $go ==> rec_shorter_path@.len() == 1 + $i && (forall|j: int| P.len() - $i <= j < P.len() ==> (#[trigger] P[j])@ != $1@), !$go ==> rec_shorter_path@.len() == $i && P[P.len() - rec_shorter_path@.len()]@ == $1@
 decreases $s.len() - $i''', it='rev.take_while.extend', clone='Ident::clone', pre='let ghost P = $s@; proof { let k = choose|k: int| 0 <= k < P.len() && (#[trigger] P[k])@ == $1@; }', body='let ghost i0 = $i as int;',
            after='''proof { let q = rec_shorter_path@; let m = q.len() as int; let k = choose|k: int| 0 <= k < P.len() && (#[trigger] P[k])@ == $1@; assert(!$go); assert(P[P.len() - m]@ == $1@);
  assert forall|j: int| 0 < j < m implies calls((#[trigger] q[j])@, q[j - 1]@) by { assert(q[j] == P[P.len() - j]); if j == 1 { assert(P[P.len() - 1] == P.last()); } else { assert(q[j - 1] == P[P.len() - j + 1]); assert(calls(P[P.len() - j + 1 - 1]@, P[P.len() - j + 1]@)); } }
  if m > 1 { assert(q.last() == P[P.len() - m + 1]); assert(calls(P[P.len() - m + 1 - 1]@, P[P.len() - m + 1]@)); }
  assert(cycle(q)); assert(in_path(q, q[0]@));
  assert forall|j: int| 0 <= j < m implies names_rule(old(self).rs(), (#[trigger] q[j])@) by { if j > 0 { assert(q[j] == P[P.len() - j]); assert(names_rule(old(self).rs(), P[P.len() - j]@)); } } }''')])
    u.fn(S, 'Surface', 'type_mismatch_branches', spec='''requires gok(&old(self).grammar), $2 < old(self).T().len(), $3@.len() == $4@.len(), forall|k: int| 0 <= k < $3@.len() ==> (#[trigger] $3@[k]) < old(self).T().len(), pok($1.path_set@, old(self).rs())
ensures final(self).grammar == old(self).grammar, final(self).recursion_path == old(self).recursion_path, final(self).error''',
        loops=[Loop('for', 'invariant self.grammar == old(self).grammar, self.recursion_path == old(self).recursion_path, self.error, $3@.len() == $4@.len(), forall|k: int| 0 <= k < $3@.len() ==> (#[trigger] $3@[k]) < old(self).T().len()', it='vx_it')],
        proof='proof { if $1.path_set@.len() > 0 { assert(path_ok($1.path_set@[0], old(self).rs())); assert(names_rule(old(self).rs(), $1.path_set@[0].path@[0]@)); } }')
    u.fn(S, 'Surface', 'visit_rule', attr=ND, spec='''requires old(self).sound(), names_rule(old(self).rs(), $1@), old(self).p().len() > 0 ==> calls(old(self).p().last()@, $1@)
ensures final(self).rule_done(old(self), $1@, r)''', proof='''proof { let o = *self; let e = rule_expr(o.rs(), $1@); lemma_root_in(&o, $1@); if in_path(o.p(), $1@) { lemma_waiting(&o, $1@); }
  assert forall|r: IType| (if in_path(o.p(), $1@) { tv(r) == Ty::Rec(false) && iok(r, o.rs()) && on_cycle($1@) } else { !(r is Infer) && r == o.grammar.exprs_info@[e].ty }) implies #[trigger] o.rule_done(&o, $1@, r) by { lemma_again(&o, $1@, r); }
  if !in_path(o.p(), $1@) && o.T()[e] is Infer {
    assert forall|s: Surface| #![trigger s.sound()] #![trigger s.here(e)] s.grammar == o.grammar && s.p() =~= o.p().push(*$1) implies s.sound() && s.here(e) by { lemma_enter(&o, &s, *$1, e); }
    assert forall|s1: Surface, s2: Surface, r: IType| #[trigger] s2.visited(&s1, e, r) implies s2.same_rest(&s1) && gok(&s2.grammar) && iok(r, s2.rs()) && !(r is Infer) && tv(r) == s2.T()[e] && in_refs(tv(r), s2.T().len() as int) by { lemma_visited(&s1, &s2, e, r); assert(in_refs(tv(s2.grammar.exprs_info@[e].ty), s2.grammar.exprs_info@.len() as int)); }
    assert forall|s1: Surface, s2: Surface, f: Surface, ty: IType, t: IType| #![trigger s2.visited(&s1, e, ty), f.rule_done(&o, $1@, t)] s1.grammar == o.grammar && s1.error == o.error && s1.p() =~= o.p().push(*$1) && s2.visited(&s1, e, ty) && left(&s2.grammar, $1@, ty, t) && iok(t, o.rs()) && f.es() == s2.es() && f.rs() == s2.rs() && f.p() =~= o.p() && f.error == s2.error && f.T() == s2.T().update(e, tv(t)) && gok(&f.grammar)
      implies f.rule_done(&o, $1@, t) by { lemma_enter(&o, &s1, *$1, e); lemma_leave(&o, &s1, &s2, &s2.grammar, &f, *$1, e, ty, t); }
  } }''')

    KID = '''proof { let o = *self; lemma_here(&o, $1 as int); lemma_kid(&o, $1 as int, 0); let c = $2 as int;
  assert forall|s: Surface, k: IType| #[trigger] s.visited(&o, c, k) implies s.same_rest(&o) by { lemma_visited(&o, &s, c, k); }
  assert forall|s: Surface, k: IType, r: IType| #![trigger s.visited(&o, c, k), s.concludes(&o, $1 as int, r)] s.visited(&o, c, k) && (match o.es()[$1 as int] { ZeroOrMore(_) => tv(r) == Ty::List(c), OneOrMore(_) => tv(r) == Ty::List(c), ZeroOrOne(_) => tv(r) == Ty::Opt(c), SpannedExpr(_) => tv(r) is Tup && tv(r)->Tup_0 =~= seq![(o.T().len() - 1) as usize, $2], RangeExpr(_) => tv(r) is Rust, _ => false })
    implies s.concludes(&o, $1 as int, r) by { lemma_one_kid(&o, &s, $1 as int, c, k, r); } }'''
    LEAF = '''proof { let o = *self; lemma_here(&o, $1 as int);
  assert forall|r: IType| (plain(tv(r)) || o.es()[$1 as int] is TypeAscription) && rule_ty(o.es(), o.rs(), o.T(), o.error, o.p(), $1 as int, tv(r)) implies #[trigger] o.concludes(&o, $1 as int, r) by { lemma_leaf(&o, $1 as int, r); } }'''
    WALK = '''proof { let o = *self; let i = $1 as int; let ks = $2@; lemma_here(&o, i); assert(o.here(i));
  assert forall|s: Surface, vs: Seq<IType>| #[trigger] s.walked(&o, i, ks, ks.len() as int, vs) implies gok(&s.grammar) && no_rec_inside(s.T()) && s.same_rest(&o) && vs.len() == ks.len()
    && (forall|k: int| 0 <= k < vs.len() ==> iok(#[trigger] vs[k], s.rs()) && in_refs(tv(vs[k]), s.T().len() as int) && (vs[k] is Rec || no_rec(s.T(), tv(vs[k])))) && (forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]) < s.T().len()) by { lemma_walk_views(&o, &s, i, ks, vs); reveal(Surface::walked); }
  '''
    SEQ = WALK + '''assert forall|s: Surface, vs: Seq<IType>, r: IType| #![trigger s.walked(&o, i, ks, ks.len() as int, vs), s.concludes(&o, i, r)] s.walked(&o, i, ks, ks.len() as int, vs) && tv(r) == Ty::Tup(ks) implies s.concludes(&o, i, r) by { lemma_sequence(&o, &s, i, ks, vs, r); } }'''
    CHOICE = WALK + '''assert forall|s: Surface, f: Surface, vs: Seq<IType>, r: IType| #![trigger s.walked(&o, i, ks, ks.len() as int, vs), f.concludes(&o, i, r)] s.walked(&o, i, ks, ks.len() as int, vs) && f.grammar == s.grammar && f.recursion_path == s.recursion_path && (f.error == s.error && chosen(s.T(), s.rs(), vs, r) || f.error && r is Invisible && clash(s.T(), views(vs)))
    implies f.concludes(&o, i, r) by { lemma_choice(&o, &s, &f, i, ks, vs, r); } }'''
    def leaf(what):
        return dict(spec=PRE + what + POST, proof=LEAF)
    def one(what):
        return dict(attr=ND, spec=PRE + what + POST, proof=KID)
    E = 'old(self).es()[$1 as int]'
    specs = {
        'visit_expr': dict(attr=ND, spec='''requires old(self).sound(), old(self).here($1 as int) ensures final(self).visited(old(self), $1 as int, r)''', proof='''proof { let o = *self; let i = $1 as int; lemma_here(&o, i);
  if !(o.T()[i] is Infer) { assert forall|r: IType| r == o.grammar.exprs_info@[i].ty implies #[trigger] o.visited(&o, i, r) by { lemma_seen(&o, i, r); } }
  assert forall|s: Surface, r: IType| #[trigger] s.concludes(&o, i, r) implies s.same_rest(&o) && gok(&s.grammar) && !(r is Infer) && iok(r, s.rs()) && in_refs(tv(r), s.T().len() as int) && (tv(r) is Tup ==> tv(r)->Tup_0.len() > 0) by { lemma_concludes(&o, &s, i, r); }
  assert forall|s: Surface, f: Surface, r: IType, t: IType| #![trigger s.concludes(&o, i, r), f.visited(&o, i, t)] s.concludes(&o, i, r) && tv(t) == red(s.T(), tv(r)) && iok(t, s.rs()) && f.same_rest(&s) && f.error == s.error && f.T() == s.T().update(i, tv(t)) && gok(&f.grammar) implies f.visited(&o, i, t) by { lemma_typed(&o, &s, &f, i, r, t); } }'''),
        'visit_str_literal': leaf(E + ' is StrLiteral'),
        'visit_syntactic_predicate': leaf(E + ' is NotPredicate || ' + E + ' is AndPredicate'),
        'visit_not_predicate': leaf(E + ' is NotPredicate'),
        'visit_and_predicate': leaf(E + ' is AndPredicate'),
        'visit_type_ascription': leaf(E + ' == TypeAscription($2, $3)'),
        'visit_atom': leaf(E + ' is AnySingleChar || ' + E + ' is CharacterClass'),
        'visit_any_single_char': leaf(E + ' is AnySingleChar'),
        'visit_character_class': leaf(E + ' is CharacterClass'),
        'visit_semantic_action': leaf(E + ' is SemanticAction'),
        'visit_external_non_terminal_symbol': leaf(E + ' is ExternalNonTerminalSymbol'),
        'visit_non_terminal_symbol': dict(attr=ND, spec=PRE + E + ' == NonTerminalSymbol(*$2)' + POST, proof='''proof { let o = *self; let i = $1 as int; lemma_here(&o, i);
  assert forall|s: Surface, r: IType| #![trigger s.rule_done(&o, $2@, r)] #![trigger s.concludes(&o, i, r)] s.rule_done(&o, $2@, r) implies s.concludes(&o, i, r) by { lemma_nonterm(&o, &s, i, r); } }'''),
        'visit_repeat': one(E + ' == ZeroOrMore($2) || ' + E + ' == OneOrMore($2)'),
        'visit_zero_or_more': one(E + ' == ZeroOrMore($2)'),
        'visit_one_or_more': one(E + ' == OneOrMore($2)'),
        'visit_optional': one(E + ' == ZeroOrOne($2)'),
        'visit_zero_or_one': one(E + ' == ZeroOrOne($2)'),
        'visit_spanned_expr': one(E + ' == SpannedExpr($2)'),
        'visit_range_expr': one(E + ' == RangeExpr($2)'),
        'visit_sequence': dict(attr=ND, spec=PRE + E + ' is Sequence, kids(' + E + ') == $2@' + POST, mcalls={'clone': h_copy}, proof=SEQ),
        'visit_choice': dict(attr=ND, spec=PRE + E + ' is Choice, kids(' + E + ') == $2@' + POST, mcalls={'clone': h_copy}, proof=CHOICE),
        'walk_expr': dict(attr=ND, spec=PRE.rstrip(', ') + POST, proof='proof { lemma_here(self, $1 as int); }'),
        'walk_exprs': dict(attr=ND, spec='''requires old(self).sound(), exists|i: int| #[trigger] old(self).here(i) && old(self).T()[i] is Infer && kids(old(self).es()[i]) == $1@
ensures forall|i: int| #[trigger] old(self).here(i) && old(self).T()[i] is Infer && kids(old(self).es()[i]) == $1@ ==> final(self).walked(old(self), i, $1@, $1@.len() as int, r@)''',
            proof='let ghost o = *self; let ghost ks = $1@; let ghost i0 = choose|i: int| #[trigger] o.here(i) && o.T()[i] is Infer && kids(o.es()[i]) == ks; proof { assert forall|i: int| #[trigger] o.here(i) && o.T()[i] is Infer && kids(o.es()[i]) == ks implies o.walked(&o, i, ks, 0, Seq::empty()) by { lemma_walk_start(&o, i, ks); } }',
            loops=[Loop('chain', 'invariant o.sound(), ks == $s@, $i <= ks.len(), o == *old(self), o.here(i0) && o.T()[i0] is Infer && kids(o.es()[i0]) == ks, forall|i: int| #[trigger] o.here(i) && o.T()[i] is Infer && kids(o.es()[i]) == ks ==> self.walked(&o, i, ks, $i as int, $o@)\n decreases $s.len() - $i', it='map.collect', ety='Vec<IType>',
                pre='proof { assert($o@ =~= Seq::empty()); }',
                body='let ghost s0 = *self; let ghost n0 = $i as int; let ghost v0 = $o@; proof { lemma_walk_kid(&o, &s0, i0, ks, n0, v0); }',
                tail='proof { assert($o@ == v0.push($o@.last())); assert forall|i: int| #[trigger] o.here(i) && o.T()[i] is Infer && kids(o.es()[i]) == ks implies self.walked(&o, i, ks, n0 + 1, $o@) by { lemma_walk_next(&o, &s0, self, i, ks, n0, v0, $o@.last()); } }')]),
    }
    astlib.visitor(u, S, 'Surface', 'IType', specs)
    u.fn(S, 'Surface', 'surface', attr=ND, spec='requires old(self).sound(), old(self).p().len() == 0 ensures final(self).surfaced(old(self), old(self).rs().len() as int)', mcalls={'clone': h_copy},
        proof='let ghost o = *self; proof { lemma_open(&o); lemma_stay(&o, 0); reveal(Surface::surfaced); assert(o.surfaced(&o, 0)); }',
        loops=[Loop('for', 'invariant vx_it.seq() == vx_q0, vx_q0 == o.rs(), 0 <= vx_it.index@ <= vx_q0.len(), o.sound(), o.p().len() == 0, self.surfaced(&o, vx_it.index@ as int)', it='vx_it', hoist=True,
            body='let ghost s0 = *self; let ghost k0 = vx_it.index@ as int; proof { reveal(Surface::surfaced); assert($var == o.rs()[k0]); assert(names_rule(s0.rs(), s0.rs()[k0].name@)); }',
            tail='proof { assert forall|r: IType| #[trigger] self.rule_done(&s0, s0.rs()[k0].name@, r) implies self.surfaced(&o, k0 + 1) by { lemma_surfaced(&o, &s0, self, k0, r); } }')])

DEPTH = r'''
pub type ExprIType = ExpressionInfo<IType>;
pub type ExprType = ExpressionInfo<Type>;
pub type TGrammar = Grammar<ExprType>;
impl Clone for Partial<TGrammar> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
// ---- a type that is not known to Oak, somewhere in a type
pub open spec fn ext_in(T: Tys, f: nat, t: Ty) -> Option<bool> decreases f, 0nat {
  if f == 0 { None } else { let h = (f - 1) as nat; match t { Ty::Ext => Some(true), Ty::Opt(c) => ext_in(T, h, T[c]), Ty::List(c) => ext_in(T, h, T[c]), Ty::Tup(k) => ext_any(T, h, k), _ => Some(false) } }
}
pub open spec fn ext_any(T: Tys, f: nat, k: Seq<usize>) -> Option<bool> decreases f, k.len() + 1
{ if k.len() == 0 { Some(false) } else { match ext_any(T, f, k.drop_last()) { Some(false) => ext_in(T, f, T[k.last() as int]), o => o } } }
pub open spec fn unknown(T: Tys, t: Ty, r: bool) -> bool { exists|f: nat| #[trigger] ext_in(T, f, t) == Some(r) }
pub open spec fn unknown_any(T: Tys, k: Seq<usize>, r: bool) -> bool { exists|f: nat| #[trigger] ext_any(T, f, k) == Some(r) }
pub proof fn lemma_ext_in(T: Tys, f: nat, h: nat, t: Ty) requires f <= h, ext_in(T, f, t).is_some() ensures ext_in(T, h, t) == ext_in(T, f, t) decreases f, 0nat
{ let p = (f - 1) as nat; let q = (h - 1) as nat; match t { Ty::Opt(c) => lemma_ext_in(T, p, q, T[c]), Ty::List(c) => lemma_ext_in(T, p, q, T[c]), Ty::Tup(k) => lemma_ext_any(T, p, q, k), _ => {} } }
pub proof fn lemma_ext_any(T: Tys, f: nat, h: nat, k: Seq<usize>) requires f <= h, ext_any(T, f, k).is_some() ensures ext_any(T, h, k) == ext_any(T, f, k) decreases f, k.len() + 1
{ if k.len() > 0 { lemma_ext_any(T, f, h, k.drop_last()); if ext_any(T, f, k.drop_last()) == Some(false) { lemma_ext_in(T, f, h, T[k.last() as int]); } } }
pub proof fn lemma_unknown_plain(T: Tys, t: Ty) ensures t is Ext ==> unknown(T, t, true), !(t is Ext || t is Opt || t is List || t is Tup) ==> unknown(T, t, false) { assert(ext_in(T, 1, t).is_some() ==> unknown(T, t, ext_in(T, 1, t).unwrap())); }
pub proof fn lemma_unknown_down(T: Tys, c: int, r: bool) requires unknown(T, T[c], r) ensures unknown(T, Ty::Opt(c), r), unknown(T, Ty::List(c), r) { let f = choose|f: nat| #[trigger] ext_in(T, f, T[c]) == Some(r); assert(ext_in(T, f + 1, Ty::Opt(c)) == Some(r)); assert(ext_in(T, f + 1, Ty::List(c)) == Some(r)); }
pub proof fn lemma_unknown_tup(T: Tys, k: Seq<usize>, r: bool) requires unknown_any(T, k, r) ensures unknown(T, Ty::Tup(k), r) { let f = choose|f: nat| #[trigger] ext_any(T, f, k) == Some(r); assert(ext_in(T, f + 1, Ty::Tup(k)) == Some(r)); }
pub proof fn lemma_unknown_push(T: Tys, k: Seq<usize>, i: int, r: bool) requires 0 <= i < k.len(), unknown_any(T, k.take(i), false), unknown(T, T[k[i] as int], r) ensures unknown_any(T, k.take(i + 1), r)
{
  let f = choose|f: nat| #[trigger] ext_any(T, f, k.take(i)) == Some(false); let h = choose|h: nat| #[trigger] ext_in(T, h, T[k[i] as int]) == Some(r); let m: nat = if f > h { f } else { h };
  lemma_ext_any(T, f, m, k.take(i)); lemma_ext_in(T, h, m, T[k[i] as int]); assert(k.take(i + 1).drop_last() =~= k.take(i)); assert(ext_any(T, m, k.take(i + 1)) == Some(r));
}
pub proof fn lemma_unknown_stop(T: Tys, k: Seq<usize>, i: int) requires 0 <= i <= k.len(), unknown_any(T, k.take(i), true) ensures unknown_any(T, k, true) decreases k.len() - i
{
  if i == k.len() { assert(k.take(i) =~= k); } else {
    let f = choose|f: nat| #[trigger] ext_any(T, f, k.take(i)) == Some(true); assert(k.take(i + 1).drop_last() =~= k.take(i)); assert(ext_any(T, f, k.take(i + 1)) == Some(true)); lemma_unknown_stop(T, k, i + 1); }
}
// ---- recursive types are resolved
pub open spec fn resolved(g: &IGrammar, t: IType, u: Ty) -> bool { match t { Rec(r) => if poly(r) { u is Inv } else { exists|x: IType| #[trigger] leaves(g, r, x) && tv(x) == u && !(x is Rec) && !(x is Infer) }, _ => u == tv(t) } }
// ---- what a type is to the generated code
pub open spec fn final_ty(t: Ty, u: Type) -> bool { match t { Ty::Inv => u is Unit, Ty::Ext => u is Rust, _ => ty1(u) == t } }
pub open spec fn value_known(t: Ty) -> bool { !(t is Infer) && !(t is Rec) }
impl Depth {
  pub open spec fn g(&self) -> IGrammar { self.surface.grammar }
  // only types, errors and what is handed on change
  pub open spec fn rest_kept(&self, o: &Self) -> bool { self.g().exprs@ == o.g().exprs@ && self.g().rules@ == o.g().rules@ && self.g().exprs_info@.len() == o.g().exprs_info@.len() && self.exprs_info == o.exprs_info && self.surface.p() == o.surface.p() && self.under_unit == o.under_unit && self.under_ty_ascription == o.under_ty_ascription }
}
pub proof fn lemma_fresh(g: &IGrammar) requires shape(g.exprs@, g.rules@), fresh(g) ensures closed(vt(g)), gok(g), vt(g).len() == g.exprs@.len()
{
  let T = vt(g); assert forall|i: int| 0 <= i < T.len() implies nf(T, #[trigger] T[i]) by { assert(T[i] is Infer || T[i] is Rust); }
  assert forall|i: int| 0 <= i < g.exprs_info@.len() implies iok((#[trigger] g.exprs_info@[i]).ty, g.rules@) && in_refs(tv(g.exprs_info@[i].ty), g.exprs_info@.len() as int) by { assert(T[i] is Infer || T[i] is Rust); }
  assert forall|k: int| 0 <= k < g.rules@.len() implies (#[trigger] g.rules@[k]).expr_idx < g.exprs_info@.len() by {}
}
// nothing has a type yet but the last expression, which stands for the type of spans
pub open spec fn fresh(g: &IGrammar) -> bool { let T = vt(g); g.exprs@.len() == g.exprs_info@.len() && T.len() > 0 && T.last() is Rust && forall|i: int| 0 <= i < T.len() - 1 ==> (#[trigger] T[i]) is Infer && g.exprs_info@[i].ty is Infer }
pub open spec fn started(s: &Surface, g: &IGrammar) -> bool { s.grammar == *g && !s.error && s.p().len() == 0 }
// what the inference answers: the types the rules give (s1), the recursive ones resolved (g1), those below what has no value and below ascriptions settled (g2)
pub open spec fn handed(g: &IGrammar, g1: &IGrammar, t: &TGrammar) -> bool {
  t.rules@ == g.rules@ && t.exprs@ == g.exprs@ && t.exprs_info@.len() == vt(g1).len() && (forall|i: int| 0 <= i < t.exprs_info@.len() ==> final_ty(#[trigger] vt(g1)[i], t.exprs_info@[i].ty))
  && forall|k: int| 0 <= k < t.rules@.len() ==> unknown(vt(g1), vt(g1)[(#[trigger] t.rules@[k]).expr_idx as int], false)
}
pub open spec fn mapped(g: &IGrammar, infos: Seq<ExprType>, t: &TGrammar) -> bool { t.rules == g.rules && t.exprs == g.exprs && t.exprs_info@ == infos }
pub open spec fn given(g: &IGrammar, s1: &Surface, t: &TGrammar) -> bool { !s1.error && exists|g1: IGrammar, g2: IGrammar| #[trigger] settled(&s1.grammar, &g1, &g2) && #[trigger] handed(g, &g2, t) }
pub open spec fn settled(s: &IGrammar, g1: &IGrammar, g2: &IGrammar) -> bool { vt(g1).len() == vt(s).len() && (forall|i: int| 0 <= i < vt(s).len() ==> resolved(s, s.exprs_info@[i].ty, #[trigger] vt(g1)[i])) && deepened(s.exprs@, s.rules@, vt(g1), vt(g2)) }
pub open spec fn inferred(g: &IGrammar, r: Partial<TGrammar>) -> bool {
  !(r is Fake) && exists|s0: Surface, s1: Surface| started(&s0, g) && #[trigger] s1.surfaced(&s0, g.rules@.len() as int) && (r is Value ==> given(g, &s1, &r->Value_0))
}
pub open spec fn reduced(s: &Surface, f: &Surface) -> bool { f.es() == s.es() && f.rs() == s.rs() && f.p() == s.p() && f.T().len() == s.T().len() && gok(&f.grammar) && forall|i: int| 0 <= i < s.T().len() ==> resolved(&s.grammar, s.grammar.exprs_info@[i].ty, #[trigger] f.T()[i]) }
pub proof fn lemma_reduced(o: &Surface, g: &IGrammar, s: &Surface, f: &Surface)
  requires started(o, g), shape(g.exprs@, g.rules@), fresh(g), s.surfaced(o, g.rules@.len() as int), reduced(s, f) ensures f.steady()
{
  lemma_started(o, g); let es = o.es(); let rs = o.rs(); let A = s.T(); let B = f.T();
  assert(s.same_rest(o) && s.sound() && ruled(rs, A, rs.len() as int)) by { reveal(Surface::surfaced); }
  assert(grows(o.T(), A) && news(es, rs, o.T(), A, s.error, o.p())) by { reveal(Surface::surfaced); reveal(Surface::stepped); }
  lemma_open(s); assert(closed(A)) by { reveal(Surface::sound); }
  assert forall|i: int| #![trigger A[i]] #![trigger B[i]] 0 <= i < A.len() implies (A[i] == B[i] || A[i] is Rec && !(B[i] is Infer)) && !(B[i] is Rec) && nf(A, B[i]) by {
    let t = s.grammar.exprs_info@[i].ty; assert(A[i] == tv(t)); assert(resolved(&s.grammar, t, B[i])); assert(nf(A, A[i]));
    if t is Rec && !poly(t->Rec_0) { let x = choose|x: IType| #[trigger] leaves(&s.grammar, t->Rec_0, x) && tv(x) == B[i] && !(x is Rec) && !(x is Infer); assert(iok(t, rs)); assert(pok(t->Rec_0.path_set@, rs)); lemma_left(&s.grammar, t->Rec_0, x);
      if !(B[i] is Inv) { let n = choose|n: Seq<char>| #![trigger on_cycle(n)] on_cycle(n) && names_rule(rs, n) && typed(A, rule_expr(rs, n)) && A[rule_expr(rs, n)] == B[i]; assert(nf(A, A[rule_expr(rs, n)])); } }
  }
  assert(closed(B)) by {
    assert(B[B.len() - 1] == A[A.len() - 1]);
    assert forall|i: int| 0 <= i < B.len() implies nf(B, #[trigger] B[i]) by { assert(nf(A, B[i])); match B[i] {
      Ty::Opt(c) => { assert(A[c] == B[c]); }, Ty::List(c) => { assert(A[c] == B[c]); },
      Ty::Tup(k) => { assert forall|m: int| 0 <= m < k.len() implies (#[trigger] k[m]) < B.len() && part(B[k[m] as int]) by { assert(part(A[k[m] as int])); assert(A[k[m] as int] == B[k[m] as int]); } }, _ => {} } }
  }
  assert(f.sound()) by { reveal(Surface::sound); }
  assert(calm(rs, B)) by { reveal(calm); assert forall|k: int| 0 <= k < rs.len() implies typed(B, rule_expr(rs, (#[trigger] rs[k]).name@)) by { assert(typed(A, rule_expr(rs, rs[k].name@))); } }
  lemma_held_new(es, o.T()); lemma_held(es, rs, o.T(), A, s.error, o.p()); lemma_held_keep(es, A, B); reveal(Surface::steady);
}
pub proof fn lemma_started(s: &Surface, g: &IGrammar) requires started(s, g), shape(g.exprs@, g.rules@), fresh(g) ensures s.sound() { reveal(Surface::sound); lemma_fresh(g); }
'''

WALKDOWN = r'''
// ---- the walk from the rules down: what is below something without a value has none, what is ascribed a type has it
// j is i, or is below it
pub open spec fn sub(es: Seq<Expression>, i: int, j: int) -> bool decreases i
{ i >= 0 && (i == j || i < es.len() && exists|k: int| 0 <= k < kids(es[i]).len() && (#[trigger] kids(es[i])[k]) < i && sub(es, kids(es[i])[k] as int, j)) }
pub open spec fn subs(es: Seq<Expression>, ks: Seq<usize>, j: int) -> bool { exists|k: int| 0 <= k < ks.len() && sub(es, (#[trigger] ks[k]) as int, j) }
pub proof fn lemma_sub_self(es: Seq<Expression>, i: int) requires i >= 0 ensures sub(es, i, i) {}
pub proof fn lemma_sub_le(es: Seq<Expression>, i: int, j: int) requires sub(es, i, j) ensures 0 <= j <= i decreases i
{ if i != j { let k = choose|k: int| 0 <= k < kids(es[i]).len() && (#[trigger] kids(es[i])[k]) < i && sub(es, kids(es[i])[k] as int, j); lemma_sub_le(es, kids(es[i])[k] as int, j); } }
pub proof fn lemma_sub_split(es: Seq<Expression>, i: int, j: int) requires sub(es, i, j), i != j ensures subs(es, kids(es[i]), j), 0 <= j < i < es.len()
{ let k = choose|k: int| 0 <= k < kids(es[i]).len() && (#[trigger] kids(es[i])[k]) < i && sub(es, kids(es[i])[k] as int, j); lemma_sub_le(es, kids(es[i])[k] as int, j); }
pub proof fn lemma_sub_kid(es: Seq<Expression>, i: int, k: int, j: int) requires arena(es), 0 <= i < es.len(), 0 <= k < kids(es[i]).len(), sub(es, kids(es[i])[k] as int, j) ensures sub(es, i, j), j < i
{ assert(kids(es[i])[k] < i); lemma_sub_le(es, kids(es[i])[k] as int, j); }
pub proof fn lemma_sub_trans(es: Seq<Expression>, a: int, b: int, c: int) requires sub(es, a, b), sub(es, b, c) ensures sub(es, a, c) decreases a
{
  if a != b {
    let k = choose|k: int| 0 <= k < kids(es[a]).len() && (#[trigger] kids(es[a])[k]) < a && sub(es, kids(es[a])[k] as int, b); lemma_sub_trans(es, kids(es[a])[k] as int, b, c);
    assert(kids(es[a])[k] < a && sub(es, kids(es[a])[k] as int, c));
  }
}
pub proof fn lemma_subs_kid(es: Seq<Expression>, i: int, j: int) requires arena(es), 0 <= i < es.len(), subs(es, kids(es[i]), j) ensures sub(es, i, j), j < i
{ let k = choose|k: int| 0 <= k < kids(es[i]).len() && sub(es, (#[trigger] kids(es[i])[k]) as int, j); lemma_sub_kid(es, i, k, j); }
// every expression is below the one of a rule
pub proof fn lemma_sub_root(es: Seq<Expression>, rs: Seq<Rule>, j: int) requires shape(es, rs), 0 <= j < es.len() - 1 ensures exists|k: int| 0 <= k < rs.len() && sub(es, (#[trigger] rs[k]).expr_idx as int, j) decreases es.len() - j
{
  assert(rooted(es, rs, j));
  if exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).expr_idx == j { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).expr_idx == j; lemma_sub_self(es, j); } else {
    let (i, m) = choose|i: int, m: int| 0 <= i < es.len() - 1 && 0 <= m < kids(es[i]).len() && (#[trigger] kids(es[i])[m]) == j; assert(kids(es[i])[m] < i); lemma_sub_self(es, j); lemma_sub_kid(es, i, m, j);
    lemma_sub_root(es, rs, i); let k = choose|k: int| 0 <= k < rs.len() && sub(es, (#[trigger] rs[k]).expr_idx as int, i); lemma_sub_trans(es, rs[k].expr_idx as int, i, j); assert(sub(es, rs[k].expr_idx as int, j));
  }
}
// no rule's expression is below another expression
pub proof fn lemma_sub_top(es: Seq<Expression>, rs: Seq<Rule>, i: int, k: int) requires shape(es, rs), 0 <= i < es.len() - 1, 0 <= k < rs.len(), sub(es, i, rs[k].expr_idx as int) ensures i == rs[k].expr_idx decreases i
{
  let r = rs[k].expr_idx as int;
  if i != r { let m = choose|m: int| 0 <= m < kids(es[i]).len() && (#[trigger] kids(es[i])[m]) < i && sub(es, kids(es[i])[m] as int, r); lemma_sub_top(es, rs, kids(es[i])[m] as int, k); assert(names_rule(rs, rs[k].name@)); assert(kids(es[i])[m] != rule_expr(rs, rs[k].name@)); }
}
#[verifier::opaque] pub open spec fn units(es: Seq<Expression>, T: Tys, i: int) -> bool { forall|j: int| #[trigger] sub(es, i, j) ==> 0 <= j < T.len() && T[j] is Unit }
#[verifier::opaque] pub open spec fn units_below(es: Seq<Expression>, T: Tys, i: int) -> bool { forall|j: int| #[trigger] sub(es, i, j) && j != i ==> 0 <= j < T.len() && T[j] is Unit }
pub open spec fn unitary(t: Ty) -> bool { t is Inv || t is Unit }
// the expression i has its last type: below nothing there is nothing, an expression under an ascription has its type (or is below nothing itself)
pub open spec fn fine_at(es: Seq<Expression>, T: Tys, j: int) -> bool {
  typed(T, j) && (unitary(T[j]) ==> forall|k: int| 0 <= k < kids(es[j]).len() ==> T[(#[trigger] kids(es[j])[k]) as int] is Unit) && asc_fine(es, T, j)
}
pub open spec fn asc_fine(es: Seq<Expression>, T: Tys, j: int) -> bool { es[j] is TypeAscription ==> unitary(T[j]) || T[j] is Rust && (T[es[j]->TypeAscription_0 as int] is Rust || T[es[j]->TypeAscription_0 as int] is Unit) }
#[verifier::opaque] pub open spec fn done(es: Seq<Expression>, T: Tys, i: int) -> bool { forall|j: int| #[trigger] sub(es, i, j) ==> fine_at(es, T, j) }
#[verifier::opaque] pub open spec fn done_below(es: Seq<Expression>, T: Tys, i: int) -> bool { forall|j: int| #[trigger] sub(es, i, j) && j != i ==> fine_at(es, T, j) }
// from the types A to the types B, nothing changes but below ks: to nothing, with all there is below, or, where it was unknown, to what is ascribed
pub open spec fn turned(es: Seq<Expression>, A: Tys, B: Tys, e: bool, j: int) -> bool { B[j] is Unit && units(es, B, j) || A[j] is Ext && (B[j] is Rust || e && unitary(B[j])) }
#[verifier::opaque] pub open spec fn moved(es: Seq<Expression>, A: Tys, B: Tys, e: bool, ks: Seq<usize>) -> bool {
  A.len() == B.len() && forall|j: int| #![trigger A[j]] #![trigger B[j]] 0 <= j < A.len() && !(A[j] is Infer) ==> B[j] == A[j] || subs(es, ks, j) && turned(es, A, B, e, j)
}
pub proof fn lemma_moved_none(es: Seq<Expression>, A: Tys, B: Tys, e: bool, ks: Seq<usize>) requires grows(A, B) ensures moved(es, A, B, e, ks) { reveal(moved); }
pub proof fn lemma_moved_units(es: Seq<Expression>, A: Tys, B: Tys, e: bool, ks: Seq<usize>, i: int) requires moved(es, A, B, e, ks), units(es, A, i) ensures units(es, B, i)
{ reveal(moved); reveal(units); assert forall|j: int| #[trigger] sub(es, i, j) implies 0 <= j < B.len() && B[j] is Unit by { assert(A[j] is Unit); } }
pub proof fn lemma_moved(es: Seq<Expression>, A: Tys, B: Tys, C: Tys, b: bool, c: bool, k1: Seq<usize>, k2: Seq<usize>, ks: Seq<usize>)
  requires moved(es, A, B, b, k1), moved(es, B, C, c, k2), b ==> c, forall|j: int| subs(es, k1, j) || subs(es, k2, j) ==> #[trigger] subs(es, ks, j)
  ensures moved(es, A, C, c, ks)
{
  assert(A.len() == B.len() && B.len() == C.len()) by { reveal(moved); }
  assert forall|j: int| 0 <= j < A.len() && !(A[j] is Infer) implies C[j] == A[j] || subs(es, ks, j) && turned(es, A, C, c, j) by {
    assert(B[j] == A[j] || subs(es, k1, j) && turned(es, A, B, b, j)) by { reveal(moved); }
    assert(C[j] == B[j] || subs(es, k2, j) && turned(es, B, C, c, j)) by { reveal(moved); }
    assert(subs(es, k1, j) || subs(es, k2, j) ==> subs(es, ks, j));
    if B[j] is Unit && units(es, B, j) { lemma_moved_units(es, B, C, c, k2, j); assert(C[j] is Unit) by { reveal(units); lemma_sub_self(es, j); assert(sub(es, j, j)); } }
  }
  reveal(moved);
}
pub proof fn lemma_moved_wide(es: Seq<Expression>, A: Tys, B: Tys, b: bool, k1: Seq<usize>, ks: Seq<usize>) requires moved(es, A, B, b, k1), forall|j: int| subs(es, k1, j) ==> #[trigger] subs(es, ks, j) ensures moved(es, A, B, b, ks)
{ reveal(moved); assert forall|j: int| 0 <= j < A.len() && !(A[j] is Infer) implies B[j] == A[j] || subs(es, ks, j) && turned(es, A, B, b, j) by { assert(subs(es, k1, j) ==> subs(es, ks, j)); } }
pub proof fn lemma_fine(es: Seq<Expression>, A: Tys, B: Tys, ks: Seq<usize>, j: int) requires arena(es), 0 <= j < es.len(), A.len() == es.len(), moved(es, A, B, false, ks), fine_at(es, A, j) ensures fine_at(es, B, j)
{
  reveal(moved); assert(!(A[j] is Infer));
  if unitary(B[j]) {
    assert forall|k: int| 0 <= k < kids(es[j]).len() implies B[(#[trigger] kids(es[j])[k]) as int] is Unit by {
      let c = kids(es[j])[k] as int; assert(c < j);
      if B[j] == A[j] { assert(A[c] is Unit); } else { reveal(units); lemma_sub_self(es, c); lemma_sub_kid(es, j, k, c); }
    }
  }
  if es[j] is TypeAscription && B[j] is Rust { let c = es[j]->TypeAscription_0 as int; assert(kids(es[j])[0] == c); assert(c < j); assert(asc_fine(es, A, j)); assert(c < A.len() && B[j] == B[j]); if !(unitary(A[j])) { assert(!(A[c] is Infer)); } }
}
pub proof fn lemma_done_moved(es: Seq<Expression>, A: Tys, B: Tys, ks: Seq<usize>, i: int) requires arena(es), 0 <= i < es.len(), A.len() == es.len(), moved(es, A, B, false, ks), done(es, A, i) ensures done(es, B, i)
{ reveal(done); assert forall|j: int| #[trigger] sub(es, i, j) implies fine_at(es, B, j) by { lemma_sub_le(es, i, j); lemma_fine(es, A, B, ks, j); } }
// what is needed to go on below an expression that has a value
pub open spec fn held_at(es: Seq<Expression>, T: Tys, i: int) -> bool {
  typed(T, i) && !unitary(T[i]) ==> match es[i] { NotPredicate(_) => false, AndPredicate(_) => false, TypeAscription(_, a) => tv(a) is Rust && T[i] is Rust, SemanticAction(_, _, _) => true, _ => typed_all(T, kids(es[i])) }
}
#[verifier::opaque] pub open spec fn upheld(es: Seq<Expression>, T: Tys) -> bool { forall|i: int| 0 <= i < es.len() - 1 ==> #[trigger] held_at(es, T, i) }
pub proof fn lemma_held_judged(es: Seq<Expression>, rs: Seq<Rule>, T: Tys, e: bool, p: Seq<Ident>, i: int) requires judged(es, rs, T, e, p, i), asc_ok(es[i]) ensures held_at(es, T, i)
{
  if rule_ty(es, rs, T, e, p, i, T[i]) { } else {
    let (b, n) = choose|b: bool, n: Seq<char>| #![trigger closes(rs, T, b, T[i]), rule_expr(rs, n)] names_rule(rs, n) && i == rule_expr(rs, n) && rule_ty(es, rs, T, e, p, i, Ty::Rec(b)) && closes(rs, T, b, T[i]);
    assert(rule_ty(es, rs, T, e, p, i, Ty::Rec(b)));
  }
}
pub proof fn lemma_held(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys, e: bool, p: Seq<Ident>) requires shape(es, rs), A.len() == es.len(), upheld(es, A), grows(A, B), news(es, rs, A, B, e, p) ensures upheld(es, B)
{
  reveal(upheld);
  assert forall|i: int| 0 <= i < es.len() - 1 implies #[trigger] held_at(es, B, i) by {
    assert(asc_ok(es[i]));
    if A[i] is Infer { if !(B[i] is Infer) { lemma_held_judged(es, rs, B, e, p, i); } } else { assert(held_at(es, A, i)); assert(B[i] == A[i]);
      if typed_all(A, kids(es[i])) { assert forall|k: int| 0 <= k < kids(es[i]).len() implies typed(B, (#[trigger] kids(es[i])[k]) as int) by { assert(typed(A, kids(es[i])[k] as int)); } } }
  }
}
pub proof fn lemma_held_new(es: Seq<Expression>, A: Tys) requires A.len() == es.len(), forall|i: int| 0 <= i < A.len() - 1 ==> (#[trigger] A[i]) is Infer ensures upheld(es, A) { reveal(upheld); }
// the same expressions have types, and no other ones have a value
pub proof fn lemma_held_keep(es: Seq<Expression>, A: Tys, B: Tys) requires upheld(es, A), A.len() == B.len(), A.len() == es.len(),
    forall|i: int| #![trigger A[i]] #![trigger B[i]] 0 <= i < A.len() ==> (A[i] is Infer ==> B[i] is Infer || unitary(B[i])) && (!(A[i] is Infer) ==> !(B[i] is Infer) && (unitary(A[i]) ==> unitary(B[i])) && (A[i] is Rust ==> B[i] is Rust || unitary(B[i])))
  ensures upheld(es, B)
{
  reveal(upheld);
  assert forall|i: int| 0 <= i < es.len() - 1 implies #[trigger] held_at(es, B, i) by { assert(held_at(es, A, i));
    if typed_all(A, kids(es[i])) { assert forall|k: int| 0 <= k < kids(es[i]).len() implies typed(B, (#[trigger] kids(es[i])[k]) as int) by { assert(typed(A, kids(es[i])[k] as int)); } } }
}
pub proof fn lemma_closed_put(A: Tys, i: int, t: Ty) requires closed(A), 0 <= i < A.len() - 1, t is Unit || t is Inv || t is Rust ensures closed(A.update(i, t))
{
  let B = A.update(i, t);
  assert forall|j: int| 0 <= j < B.len() implies nf(B, #[trigger] B[j]) by {
    if j != i { assert(B[j] == A[j]); assert(nf(A, A[j])); match B[j] { Ty::Tup(k) => { assert forall|m: int| 0 <= m < k.len() implies (#[trigger] k[m]) < B.len() && part(B[k[m] as int]) by { assert(part(A[k[m] as int])); } }, _ => {} } }
  }
}
impl Surface {
  // all that holds when the walk of types from the expressions up is over
  #[verifier::opaque] pub open spec fn steady(&self) -> bool { self.sound() && self.p().len() == 0 && calm(self.rs(), self.T()) && upheld(self.es(), self.T()) }
}
pub proof fn lemma_steady(s: &Surface) requires s.steady() ensures s.sound(), s.p().len() == 0, s.T().len() == s.es().len(), s.es().len() == s.grammar.exprs_info@.len(), s.es().len() > 0, s.es().len() <= usize::MAX, arena(s.es()), gok(&s.grammar), no_rec_inside(s.T()), shape(s.es(), s.rs()),
  forall|i: int| 0 <= i < s.es().len() - 1 ==> #[trigger] s.here(i), forall|i: int| 0 <= i < s.es().len() - 1 ==> #[trigger] held_at(s.es(), s.T(), i), forall|i: int| 0 <= i < s.T().len() ==> no_rec(s.T(), #[trigger] s.T()[i]) && in_refs(s.T()[i], s.T().len() as int)
{ reveal(Surface::steady); lemma_open(s); reveal(upheld); reveal(Surface::here); reveal(Surface::sound); lemma_calm(s.rs(), s.T()); assert forall|i: int| 0 <= i < s.T().len() implies no_rec(s.T(), #[trigger] s.T()[i]) && in_refs(s.T()[i], s.T().len() as int) by { lemma_refs(s.T(), s.T()[i]); } }
pub proof fn lemma_put(o: &Surface, f: &Surface, i: int, t: Ty)
  requires o.steady(), 0 <= i < o.es().len() - 1, f.same_rest(o), gok(&f.grammar), f.T() == o.T().update(i, t), t is Unit || t is Inv || t is Rust && o.T()[i] is Ext ensures f.steady()
{
  lemma_steady(o); assert(closed(o.T())) by { reveal(Surface::sound); } lemma_closed_put(o.T(), i, t);
  assert(f.sound()) by { reveal(Surface::sound); }
  assert(calm(f.rs(), f.T())) by { reveal(Surface::steady); lemma_calm_set(o.rs(), o.T(), f.T(), i, t); }
  assert(upheld(f.es(), f.T())) by { reveal(Surface::steady); lemma_held_keep(o.es(), o.T(), f.T()); }
  reveal(Surface::steady);
}
pub proof fn lemma_steady_step(o: &Surface, f: &Surface, i: int, r: IType) requires o.steady(), f.visited(o, i, r) ensures f.steady(), f.same_rest(o), grows(o.T(), f.T()), typed(f.T(), i), o.error ==> f.error
{
  lemma_steady(o); reveal(Surface::visited); reveal(Surface::stepped);
  assert(upheld(f.es(), f.T())) by { reveal(Surface::steady); lemma_held(o.es(), o.rs(), o.T(), f.T(), f.error, o.p()); }
  assert(calm(o.rs(), o.T())) by { reveal(Surface::steady); }
  assert(f.sound()) by { reveal(Surface::sound); }
  reveal(Surface::steady);
}
pub proof fn lemma_same_rust(T: Tys, t: Ty, u: Ty) requires same(T, t, u, true), u is Rust ensures t is Rust { }
impl Depth {
  pub open spec fn es(&self) -> Seq<Expression> { self.surface.es() }
  pub open spec fn rs(&self) -> Seq<Rule> { self.surface.rs() }
  pub open spec fn T(&self) -> Tys { self.surface.T() }
  pub open spec fn err(&self) -> bool { self.surface.error }
  pub open spec fn u(&self) -> bool { self.under_unit }
  pub open spec fn a(&self) -> Option<IType> { self.under_ty_ascription }
  pub open spec fn with(&self, a: Option<IType>) -> Depth { Depth { surface: self.surface, exprs_info: self.exprs_info, under_unit: self.under_unit, under_ty_ascription: a } }
  pub open spec fn kept(&self, o: &Self) -> bool { self.surface.same_rest(&o.surface) && self.exprs_info == o.exprs_info && self.u() == o.u() && self.a() == o.a() && (o.err() ==> self.err()) }
  // something of Rust, or nothing, may be ascribed
  pub open spec fn a_ok(&self) -> bool { match self.a() { Some(a) => unitary(tv(a)) || tv(a) is Rust, None => true } }
  pub open spec fn a_rust(&self) -> bool { self.a() is Some ==> tv(self.a()->0) is Rust }
  #[verifier::opaque] pub open spec fn ready(&self, i: int) -> bool { self.surface.steady() && 0 <= i < self.es().len() - 1 && self.a_ok() && (!self.err() && !self.u() ==> typed(self.T(), i) && self.a_rust()) }
  #[verifier::opaque] pub open spec fn inner(&self, i: int) -> bool { self.surface.steady() && 0 <= i < self.es().len() - 1 && self.a_ok() && (self.u() ==> unitary(self.T()[i])) && (!self.err() && !self.u() ==> typed(self.T(), i) && !unitary(self.T()[i]) && self.a_rust()) }
  #[verifier::opaque] pub open spec fn lined(&self, ks: Seq<usize>) -> bool { self.surface.steady() && (forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]) < self.es().len() - 1) && self.a_ok() && (!self.err() && !self.u() ==> typed_all(self.T(), ks) && self.a_rust()) }
  pub open spec fn moves(&self, o: &Self, ks: Seq<usize>) -> bool { self.surface.steady() && moved(o.es(), o.T(), self.T(), self.err(), ks) }
  // after the expression i was visited
  #[verifier::opaque] pub open spec fn saw(&self, o: &Self, i: int) -> bool {
    self.moves(o, if o.u() || o.a() is Some { seq![i as usize] } else { kids(o.es()[i]) }) && (!self.err() ==> done(o.es(), self.T(), i)) && (o.u() ==> units(o.es(), self.T(), i)) && (!self.err() && !o.u() && o.a() is Some ==> self.T()[i] is Rust)
  }
  pub open spec fn seen(&self, o: &Self, i: int) -> bool { self.kept(o) && self.saw(o, i) }
  // after all there is below the expression i was visited
  #[verifier::opaque] pub open spec fn was_below(&self, o: &Self, i: int) -> bool { self.moves(o, kids(o.es()[i])) && (!self.err() ==> done_below(o.es(), self.T(), i) && asc_fine(o.es(), self.T(), i)) && (o.u() ==> units_below(o.es(), self.T(), i)) }
  pub open spec fn below(&self, o: &Self, i: int) -> bool { self.kept(o) && self.was_below(o, i) }
  // after the first n of ks were visited
  #[verifier::opaque] pub open spec fn went(&self, o: &Self, ks: Seq<usize>, n: int) -> bool { self.moves(o, ks) && (!self.err() ==> forall|k: int| 0 <= k < n ==> done(o.es(), self.T(), (#[trigger] ks[k]) as int)) && (o.u() ==> forall|k: int| 0 <= k < n ==> units(o.es(), self.T(), (#[trigger] ks[k]) as int)) }
  pub open spec fn going(&self, o: &Self, ks: Seq<usize>, n: int) -> bool { self.kept(o) && self.went(o, ks, n) }
  // more has types, and c has one, unless it will be nothing anyway
  #[verifier::opaque] pub open spec fn rose(&self, o: &Self, c: int) -> bool { self.surface.steady() && grows(o.T(), self.T()) && (!o.u() ==> typed(self.T(), c)) }
  pub open spec fn lifted(&self, o: &Self, c: int) -> bool { self.kept(o) && self.rose(o, c) }
  pub open spec fn flagged(&self, o: &Self) -> bool { self.kept(o) && self.surface.grammar == o.surface.grammar }
  // the types the walk below the expression i starts from
  pub open spec fn entered(&self, o: &Self, i: int) -> bool {
    let A = o.T(); let B = self.T();
    self.surface.same_rest(&o.surface) && gok(&self.surface.grammar) && self.exprs_info == o.exprs_info && self.a() == o.a() && (o.err() ==> self.err())
    && if o.u() { self.u() && B == A.update(i, Ty::Unit) && self.err() == o.err() }
      else if unitary(A[i]) && o.a() is None { self.u() && B == A && self.err() == o.err() }
      else if o.a() is None { !self.u() && B == A && self.err() == o.err() }
      else if A[i] is Ext { !self.u() && B == A.update(i, tv(o.a()->0)) && self.err() == o.err() }
      else { !self.u() && B == A && (self.err() || self.err() == o.err() && same(A, A[i], tv(o.a()->0), true)) }
  }
}
pub proof fn lemma_ready(o: &Depth, i: int) requires o.ready(i) ensures o.surface.steady(), 0 <= i < o.es().len() - 1, o.es().len() <= usize::MAX, arena(o.es()), o.T().len() == o.es().len(), gok(&o.surface.grammar), no_rec_inside(o.T()), o.a_ok(), no_rec(o.T(), o.T()[i]), in_refs(o.T()[i], o.T().len() as int) { reveal(Depth::ready); lemma_steady(&o.surface); }
pub proof fn lemma_inner(o: &Depth, i: int) requires o.inner(i) ensures o.surface.steady(), 0 <= i < o.es().len() - 1, o.T().len() == o.es().len(), gok(&o.surface.grammar), no_rec_inside(o.T()), o.a_ok(), arena(o.es()), asc_ok(o.es()[i]) { reveal(Depth::inner); lemma_steady(&o.surface); }
pub proof fn lemma_enter_depth(o: &Depth, s: &Depth, i: int) requires o.ready(i), s.entered(o, i) ensures s.inner(i)
{
  lemma_ready(o, i);
  if o.u() { lemma_put(&o.surface, &s.surface, i, Ty::Unit); } else if o.a() is Some && o.T()[i] is Ext { lemma_put(&o.surface, &s.surface, i, tv(o.a()->0)); } else { lemma_flag(o, s); }
  reveal(Depth::ready); reveal(Depth::inner);
  if !s.err() && !s.u() && o.a() is Some && !(o.T()[i] is Ext) { lemma_same_rust(o.T(), o.T()[i], tv(o.a()->0)); }
}
pub proof fn lemma_with(s: &Depth, f: &Depth) requires f.a() == s.a() ensures s.with(s.a()) == *s, f.with(s.a()) == *f { }
pub proof fn lemma_flag(o: &Depth, s: &Depth) requires o.surface.steady(), s.surface.same_rest(&o.surface), s.T() == o.T(), gok(&s.surface.grammar) ensures s.surface.steady() { reveal(Surface::steady); reveal(Surface::sound); }
pub proof fn lemma_sub_one(es: Seq<Expression>, i: int, j: int) requires 0 <= i <= usize::MAX ensures subs(es, seq![i as usize], j) == sub(es, i, j) { let q = seq![i as usize]; if subs(es, q, j) { let k = choose|k: int| 0 <= k < q.len() && sub(es, (#[trigger] q[k]) as int, j); } else { if sub(es, i, j) { assert(q[0] == i); assert(sub(es, q[0] as int, j)); } } }
pub proof fn lemma_out_depth(o: &Depth, s: &Depth, f1: &Depth, f: &Depth, i: int) requires o.ready(i), s.entered(o, i), f1.below(s, i), f.surface == f1.surface, f.exprs_info == f1.exprs_info, f.a() == f1.a(), f.u() == o.u() ensures f.seen(o, i)
{
  lemma_ready(o, i); lemma_enter_depth(o, s, i); lemma_inner(s, i); reveal(Depth::was_below);
  let es = o.es(); let A = o.T(); let B = s.T(); let C = f.T(); let e = f.err(); let kk = kids(es[i]); let ks = if o.u() || o.a() is Some { seq![i as usize] } else { kk };
  assert(C[i] == B[i] || B[i] is Infer || turned(es, B, C, e, i) && subs(es, kk, i)) by { reveal(moved); }
  if subs(es, kk, i) { lemma_subs_kid(es, i, i); }
  assert(B[i] is Infer || C[i] == B[i]) by { reveal(moved); }
  if o.u() { assert(units(es, C, i)) by { reveal(units); reveal(units_below); assert forall|j: int| #[trigger] sub(es, i, j) implies 0 <= j < C.len() && C[j] is Unit by { } } }
  assert(f.moves(o, ks)) by {
    assert forall|j: int| subs(es, kk, j) implies #[trigger] subs(es, ks, j) by { lemma_subs_kid(es, i, j); lemma_sub_one(es, i, j); }
    lemma_sub_one(es, i, i);
    assert forall|j: int| 0 <= j < A.len() && !(A[j] is Infer) implies C[j] == A[j] || subs(es, ks, j) && turned(es, A, C, e, j) by {
      assert(!(B[j] is Infer)); assert(C[j] == B[j] || subs(es, kk, j) && turned(es, B, C, e, j)) by { reveal(moved); }
      if j != i { assert(B[j] == A[j]); } else { reveal(Depth::ready); }
    }
    assert(moved(es, A, C, e, ks)) by { reveal(moved); }
  }
  if !e {
    reveal(Depth::ready);
    assert(typed(C, i)); 
    assert(unitary(C[i]) ==> s.u()) by { reveal(Depth::inner); }
    if unitary(C[i]) { assert forall|k: int| 0 <= k < kk.len() implies C[(#[trigger] kk[k]) as int] is Unit by { reveal(units_below); assert(kk[k] < i); lemma_sub_self(es, kk[k] as int); lemma_sub_kid(es, i, k, kk[k] as int); } }
    assert(done(es, C, i)) by { reveal(done); reveal(done_below); assert forall|j: int| #[trigger] sub(es, i, j) implies fine_at(es, C, j) by { } }
    if !o.u() && o.a() is Some { if !(A[i] is Ext) { lemma_same_rust(A, A[i], tv(o.a()->0)); } }
  }
  reveal(Depth::saw);
}
// ---- an expression of each kind
pub proof fn lemma_leaf_depth(o: &Depth, i: int) requires o.inner(i), kids(o.es()[i]).len() == 0 ensures o.below(o, i)
{
  lemma_inner(o, i); let es = o.es(); let T = o.T(); lemma_moved_none(es, T, T, o.err(), kids(es[i]));
  assert forall|j: int| #[trigger] sub(es, i, j) implies j == i by { if j != i { lemma_sub_split(es, i, j); } }
  reveal(done_below); reveal(units_below); reveal(Depth::was_below);
}
pub open spec fn onward(e: Expression) -> bool { !(e is TypeAscription) && !(e is SemanticAction) }
pub proof fn lemma_line(o: &Depth, i: int) requires o.inner(i), onward(o.es()[i]) ensures o.lined(kids(o.es()[i]))
{ lemma_inner(o, i); lemma_steady(&o.surface); let ks = kids(o.es()[i]); assert forall|k: int| 0 <= k < ks.len() implies (#[trigger] ks[k]) < o.es().len() - 1 by { assert(kids(o.es()[i])[k] < i); } assert(held_at(o.es(), o.T(), i)); reveal(Depth::inner); reveal(Depth::lined); }
pub proof fn lemma_unline(o: &Depth, f: &Depth, i: int) requires o.inner(i), onward(o.es()[i]), f.going(o, kids(o.es()[i]), kids(o.es()[i]).len() as int) ensures f.below(o, i)
{
  lemma_inner(o, i); let es = o.es(); let T = f.T(); let ks = kids(es[i]); reveal(Depth::went);
  assert forall|j: int| #[trigger] sub(es, i, j) && j != i implies (!f.err() ==> fine_at(es, T, j)) && (o.u() ==> 0 <= j < T.len() && T[j] is Unit) by {
    lemma_sub_split(es, i, j); let k = choose|k: int| 0 <= k < ks.len() && sub(es, (#[trigger] ks[k]) as int, j); reveal(done); reveal(units);
  }
  reveal(done_below); reveal(units_below); reveal(Depth::was_below);
}
pub proof fn lemma_go(o: &Depth, ks: Seq<usize>) requires o.lined(ks) ensures o.going(o, ks, 0), o.surface.steady() { reveal(Depth::lined); reveal(Depth::went); lemma_moved_none(o.es(), o.T(), o.T(), o.err(), ks); }
pub proof fn lemma_go_kid(o: &Depth, s: &Depth, ks: Seq<usize>, n: int) requires o.lined(ks), s.going(o, ks, n), 0 <= n < ks.len() ensures s.ready(ks[n] as int), s.with(None).ready(ks[n] as int), ks[n] < s.T().len()
{ reveal(Depth::lined); reveal(Depth::went); reveal(Depth::ready); lemma_steady(&s.surface); assert(ks[n] < o.es().len() - 1); if !s.err() && !s.u() { assert(typed(o.T(), ks[n] as int)); reveal(moved); assert(typed(s.T(), ks[n] as int)); } }
pub proof fn lemma_go_next(o: &Depth, s: &Depth, f: &Depth, ks: Seq<usize>, n: int, a: Option<IType>) requires o.lined(ks), s.going(o, ks, n), 0 <= n < ks.len(), f.with(a).seen(&s.with(a), ks[n] as int), f.a() == s.a() ensures f.going(o, ks, n + 1)
{
  lemma_go_kid(o, s, ks, n); reveal(Depth::went); lemma_steady(&s.surface); let es = o.es(); let c = ks[n] as int; reveal(Depth::went); reveal(Depth::saw); let A = s.T(); let B = f.T(); let m = if s.u() || a is Some { seq![c as usize] } else { kids(es[c]) };
  assert(moved(es, A, B, f.err(), m)); assert(c < es.len()) by { reveal(Depth::lined); }
  assert forall|j: int| subs(es, ks, j) || subs(es, m, j) implies #[trigger] subs(es, ks, j) by { if subs(es, m, j) { lemma_sub_one(es, c, j); if subs(es, kids(es[c]), j) { lemma_subs_kid(es, c, j); } assert(sub(es, ks[n] as int, j)); } }
  lemma_moved(es, o.T(), A, B, s.err(), f.err(), ks, m, ks);
  if !f.err() { assert forall|k: int| 0 <= k < n + 1 implies done(es, B, (#[trigger] ks[k]) as int) by { if k < n { assert(ks[k] < es.len()) by { reveal(Depth::lined); } lemma_done_moved(es, A, B, m, ks[k] as int); } } }
  if o.u() { assert forall|k: int| 0 <= k < n + 1 implies units(es, B, (#[trigger] ks[k]) as int) by { if k < n { lemma_moved_units(es, A, B, f.err(), m, ks[k] as int); } } }
}
// below an ascription and an action
pub proof fn lemma_turn_in(o: &Depth, s: &Depth, i: int, c: int, a: Option<IType>)
  requires o.inner(i), s.lifted(o, c), match o.es()[i] { TypeAscription(k, t) => c == k && a == Some(t), SemanticAction(k, _, _) => c == k && a is None, _ => false } ensures s.with(a).ready(c)
{ lemma_inner(o, i); lemma_steady(&o.surface); assert(kids(o.es()[i])[0] == c); assert(c < i); assert(held_at(o.es(), o.T(), i)); reveal(Depth::inner); reveal(Depth::rose); reveal(Depth::ready); }
pub proof fn lemma_turn_out(o: &Depth, s: &Depth, f: &Depth, i: int, c: int, a: Option<IType>)
  requires o.inner(i), s.lifted(o, c), match o.es()[i] { TypeAscription(k, t) => c == k && a == Some(t), SemanticAction(k, _, _) => c == k && a is None, _ => false }, f.with(a).seen(&s.with(a), c), f.a() == s.a() ensures f.below(o, i)
{
  lemma_inner(o, i); lemma_steady(&o.surface); let es = o.es(); let kk = kids(es[i]); assert(kk =~= seq![c as usize]); assert(kids(es[i])[0] == c); assert(c < i);
  let A = o.T(); let B = s.T(); let C = f.T(); let e = f.err();
  assert(grows(A, B)) by { reveal(Depth::rose); } lemma_moved_none(es, A, B, s.err(), kk); reveal(Depth::saw);
  let m = if s.u() || a is Some { seq![c as usize] } else { kids(es[c]) }; assert(moved(es, B, C, e, m));
  assert forall|j: int| subs(es, kk, j) || subs(es, m, j) implies #[trigger] subs(es, kk, j) by { if subs(es, m, j) { lemma_sub_one(es, c, j); if subs(es, kids(es[c]), j) { lemma_subs_kid(es, c, j); } } }
  lemma_moved(es, A, B, C, s.err(), e, kk, m, kk);
  assert forall|j: int| #[trigger] sub(es, i, j) && j != i implies (!e ==> fine_at(es, C, j)) && (o.u() ==> 0 <= j < C.len() && C[j] is Unit) by { lemma_sub_split(es, i, j); lemma_sub_one(es, c, j); reveal(done); reveal(units); }
  assert(done_below(es, C, i) || e) by { reveal(done_below); } assert(units_below(es, C, i) || !o.u()) by { reveal(units_below); }
  if !e && es[i] is TypeAscription {
    assert(!o.err()); reveal(Depth::inner);
    assert(C[i] == A[i]) by { reveal(moved); if subs(es, kk, i) { lemma_subs_kid(es, i, i); } }
    if o.u() { assert(C[c] is Unit) by { reveal(units); lemma_sub_self(es, c); } }
    assert(held_at(es, A, i)); 
  }
  reveal(Depth::was_below);
}
pub proof fn lemma_rise(o: &Depth, s: &Depth, i: int) requires o.surface.steady(), s.surface.steady(), s.kept(o), grows(o.T(), s.T()), !o.u() ==> typed(s.T(), i) ensures s.lifted(o, i) { reveal(Depth::rose); }
pub proof fn lemma_lift(o: &Depth, s: &Depth, t: &Depth, i: int) requires o.surface.steady(), s.flagged(o), t.lifted(s, i) ensures t.lifted(o, i) { reveal(Depth::rose); }
// after the walk down from the first n rules
impl Depth {
  pub open spec fn roots(&self, o: &Self) -> bool { forall|k: int| 0 <= k < o.rs().len() ==> self.T()[(#[trigger] o.rs()[k]).expr_idx as int] == o.T()[o.rs()[k].expr_idx as int] }
  #[verifier::opaque] pub open spec fn deep(&self, o: &Self, n: int) -> bool {
    self.kept(o) && self.surface.steady() && self.roots(o) && (exists|ks: Seq<usize>| #[trigger] moved(o.es(), o.T(), self.T(), self.err(), ks)) && (!self.err() ==> forall|k: int| 0 <= k < n ==> done(o.es(), self.T(), (#[trigger] o.rs()[k]).expr_idx as int))
  }
}
pub proof fn lemma_deep_start(o: &Depth) requires o.surface.steady() ensures o.deep(o, 0) { lemma_moved_none(o.es(), o.T(), o.T(), o.err(), Seq::empty()); reveal(Depth::deep); }
pub proof fn lemma_deep_rule(o: &Depth, s: &Depth, n: int) requires o.surface.steady(), s.deep(o, n), 0 <= n < o.rs().len(), !o.u(), o.a() is None ensures s.ready(o.rs()[n].expr_idx as int)
{ lemma_steady(&o.surface); reveal(Depth::deep); reveal(Depth::ready); let x = o.rs()[n].name@; assert(names_rule(o.rs(), x)); assert(calm(s.rs(), s.T())) by { reveal(Surface::steady); } lemma_calm_rule(s.rs(), s.T(), x); }
pub proof fn lemma_deep_next(o: &Depth, s: &Depth, f: &Depth, n: int) requires o.surface.steady(), s.deep(o, n), 0 <= n < o.rs().len(), !o.u(), o.a() is None, f.seen(s, o.rs()[n].expr_idx as int) ensures f.deep(o, n + 1)
{
  lemma_steady(&o.surface); lemma_deep_rule(o, s, n); lemma_ready(s, o.rs()[n].expr_idx as int); reveal(Depth::deep); reveal(Depth::saw); let es = o.es(); let A = o.T(); let B = s.T(); let C = f.T(); let c = o.rs()[n].expr_idx as int; let m = kids(es[c]);
  let k1 = choose|ks: Seq<usize>| #[trigger] moved(es, A, B, s.err(), ks); let ks = k1 + m;
  assert(moved(es, B, C, f.err(), m));
  assert forall|j: int| subs(es, k1, j) || subs(es, m, j) implies #[trigger] subs(es, ks, j) by {
    if subs(es, k1, j) { let k = choose|k: int| 0 <= k < k1.len() && sub(es, (#[trigger] k1[k]) as int, j); assert(ks[k] == k1[k]); }
    else { let k = choose|k: int| 0 <= k < m.len() && sub(es, (#[trigger] m[k]) as int, j); assert(ks[k + k1.len()] == m[k]); } }
  lemma_moved(es, A, B, C, s.err(), f.err(), k1, m, ks);
  assert forall|k: int| 0 <= k < o.rs().len() implies C[(#[trigger] o.rs()[k]).expr_idx as int] == A[o.rs()[k].expr_idx as int] by {
    let r = o.rs()[k].expr_idx as int; assert(B[r] == A[r]); assert(names_rule(o.rs(), o.rs()[k].name@)); assert(calm(s.rs(), s.T())) by { reveal(Surface::steady); } lemma_calm_rule(s.rs(), s.T(), o.rs()[k].name@); assert(typed(B, r));
    if subs(es, m, r) { lemma_subs_kid(es, c, r); lemma_sub_top(es, o.rs(), c, k); }
    reveal(moved);
  }
  if !f.err() { assert forall|k: int| 0 <= k < n + 1 implies done(es, C, (#[trigger] o.rs()[k]).expr_idx as int) by { if k < n { lemma_done_moved(es, B, C, m, o.rs()[k].expr_idx as int); } } }
}
// every expression has its last type; those of rules keep theirs
pub open spec fn deepened(es: Seq<Expression>, rs: Seq<Rule>, A: Tys, B: Tys) -> bool {
  A.len() == B.len() && (forall|i: int| 0 <= i < B.len() ==> value_known(#[trigger] B[i])) && (forall|i: int| 0 <= i < es.len() - 1 ==> #[trigger] fine_at(es, B, i)) && (exists|ks: Seq<usize>| #[trigger] moved(es, A, B, false, ks))
  && forall|k: int| 0 <= k < rs.len() ==> B[(#[trigger] rs[k]).expr_idx as int] == A[rs[k].expr_idx as int]
}
pub proof fn lemma_deep_end(o: &Depth, s: &Depth) requires o.surface.steady(), s.deep(o, o.rs().len() as int) ensures s.kept(o), gok(&s.surface.grammar), !s.err() ==> deepened(o.es(), o.rs(), o.T(), s.T())
{
  lemma_steady(&o.surface); reveal(Depth::deep); lemma_steady(&s.surface);
  if !s.err() {
    let es = o.es(); let T = s.T();
    assert forall|i: int| 0 <= i < es.len() - 1 implies #[trigger] fine_at(es, T, i) by { lemma_sub_root(es, o.rs(), i); let k = choose|k: int| 0 <= k < o.rs().len() && sub(es, (#[trigger] o.rs()[k]).expr_idx as int, i); assert(done(es, T, o.rs()[k].expr_idx as int)); reveal(done); }
    assert(calm(s.rs(), T)) by { reveal(Surface::steady); } lemma_calm(s.rs(), T);
    assert(T[T.len() - 1] is Rust) by { reveal(Surface::sound); }
    assert forall|i: int| 0 <= i < T.len() implies value_known(#[trigger] T[i]) by { if i < es.len() - 1 { assert(fine_at(es, T, i)); } }
  }
}
'''

def depth(u):
    G = 'gok($1), in_refs(tv(*self), vt($1).len() as int)'
    u.struct(D, 'Depth')
    u.raw(DEPTH)
    u.raw(WALKDOWN)
    u.fn(AST, 'IType', 'contains_external', attr=ND, spec='requires gok($1), in_refs(tv(*self), vt($1).len() as int) ensures unknown(vt($1), tv(*self), r)', proof='proof { lemma_unknown_plain(vt($1), tv(*self)); }')
    u.fn(AST, 'Type', 'contains_external', attr=ND, spec='requires gok($1), in_refs(ty1(*self), vt($1).len() as int) ensures unknown(vt($1), ty1(*self), r)',
        proof='''let ghost T = vt($1); let ghost K = match ty1(*self) { Ty::Tup(k) => k, _ => Seq::empty() }; proof { lemma_in($1); lemma_unknown_plain(T, ty1(*self)); assert forall|c: int, r: bool| #![trigger unknown(T, T[c], r)] unknown(T, T[c], r) implies unknown(T, Ty::Opt(c), r) && unknown(T, Ty::List(c), r) by { lemma_unknown_down(T, c, r); } }''',
        loops=[Loop('chain', 'invariant T == vt($1), gok($1), $s@ == K, ty1(*self) == Ty::Tup(K), $i <= $s@.len(), $o@.len() == $i, forall|k: int| 0 <= k < $s@.len() ==> (#[trigger] $s@[k]) < T.len(), forall|k: int| 0 <= k < $i ==> tv(#[trigger] $o@[k]) == T[$s@[k] as int]\n decreases $s.len() - $i', it='map.collect', ety='Vec<IType>'),
               Loop('chain', 'invariant T == vt($1), gok($1), in_all(T), ty1(*self) == Ty::Tup(K), $s@.len() == K.len(), $i <= $s@.len(), forall|k: int| 0 <= k < K.len() ==> (#[trigger] K[k]) < T.len(), forall|k: int| 0 <= k < K.len() ==> tv(#[trigger] $s@[k]) == T[K[k] as int], $go == !$o, $o ==> unknown_any(T, K, true), !$o ==> unknown_any(T, K.take($i as int), false)\n decreases $s.len() - $i', it='any', clone='IType::clone',
                   pre='proof { assert(K.take(0) =~= Seq::<usize>::empty()); assert(ext_any(T, 0, K.take(0)) == Some(false)); }',
                   body='let ghost i0 = $i as int; proof { assert(tv($s@[i0]) == T[K[i0] as int]); assert(in_refs(T[K[i0] as int], T.len() as int)); }',
                   tail='proof { lemma_unknown_push(T, K, i0, $o); if $o { lemma_unknown_stop(T, K, i0 + 1); } }', after='proof { assert(K.take(K.len() as int) =~= K); lemma_unknown_tup(T, K, $o); }')])
    u.fn(AST, 'ExpressionInfo', 'new', spec='ensures r.span == $1, r.ty == $2')
    u.fn(D, 'Depth', 'new', spec='ensures started(&r.surface, &$1), r.exprs_info@.len() == 0, !r.under_unit, r.under_ty_ascription is None')
    u.fn(D, 'Depth', 'type_of', spec='requires $1 < vt(&self.g()).len() ensures r == self.g().exprs_info@[$1 as int].ty, tv(r) == vt(&self.g())[$1 as int]')
    u.fn(D, 'Depth', 'reduce_all_rec', spec='''requires gok(&old(self).g()) ensures final(self).rest_kept(old(self)), gok(&final(self).g()), final(self).surface.error == old(self).surface.error,
  forall|i: int| 0 <= i < vt(&old(self).g()).len() ==> resolved(&old(self).g(), old(self).g().exprs_info@[i].ty, #[trigger] vt(&final(self).g())[i])''',
        proof='let ghost o = *self; let ghost E = o.g().exprs_info@; proof { lemma_in(&o.g()); }',
        loops=[Loop('chain', 'invariant *self == o, $s@ == E, E == o.g().exprs_info@, $i <= E.len(), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $o@[k]) == E[k].ty\n decreases $s.len() - $i', it='map.collect', ety='Vec<IType>'),
               Loop('chain', 'invariant *self == o, gok(&o.g()), E == o.g().exprs_info@, in_all(vt(&o.g())), $s@.len() == E.len(), forall|k: int| 0 <= k < E.len() ==> (#[trigger] $s@[k]) == E[k].ty, $i <= E.len(), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> resolved(&o.g(), E[k].ty, tv(#[trigger] $o@[k])) && iok($o@[k], o.g().rules@) && in_refs(tv($o@[k]), E.len() as int)\n decreases $s.len() - $i', it='map.collect', ety='Vec<IType>', clone='IType::clone',
                   body='let ghost i0 = $i as int; proof { assert($s@[i0] == E[i0].ty); assert(iok(E[i0].ty, o.g().rules@)); }',
                   tail='proof { assert($o@[i0] == $o@.last()); assert(resolved(&o.g(), E[i0].ty, tv($o@[i0]))); }'),
               Loop('for', '''invariant o.g().exprs_info@ == E, self.rest_kept(&o), self.surface.error == o.surface.error, gok(&o.g()), $b@.len() == E.len(), self.g().exprs_info@.len() == E.len(), $i <= E.len(), forall|k: int| 0 <= k < E.len() ==> resolved(&o.g(), E[k].ty, tv(#[trigger] $b@[k])) && iok($b@[k], o.g().rules@) && in_refs(tv($b@[k]), E.len() as int),
   forall|k: int| 0 <= k < $i ==> (#[trigger] self.g().exprs_info@[k]).ty == $b@[k], forall|k: int| $i <= k < E.len() ==> (#[trigger] self.g().exprs_info@[k]) == E[k]\n decreases E.len() - $i''', clone=True)])
    u.fn(D, 'Depth', 'reduce_all_invisible', spec='''requires forall|i: int| 0 <= i < vt(&old(self).g()).len() ==> value_known(#[trigger] vt(&old(self).g())[i]), old(self).exprs_info@.len() == 0
ensures final(self).surface == old(self).surface, final(self).exprs_info@.len() == vt(&old(self).g()).len(), forall|i: int| 0 <= i < vt(&old(self).g()).len() ==> final_ty(#[trigger] vt(&old(self).g())[i], final(self).exprs_info@[i].ty)''', mcalls={'clone': h_copy},
        loops=[Loop('for', '''invariant vx_it.seq() == vx_q0, vx_q0 == self.g().exprs_info@, self.surface == old(self).surface, 0 <= vx_it.index@ <= vx_q0.len(), self.exprs_info@.len() == vx_it.index@, forall|i: int| 0 <= i < vx_q0.len() ==> value_known(#[trigger] vt(&self.g())[i]),
  forall|i: int| 0 <= i < vx_it.index@ ==> final_ty(#[trigger] vt(&self.g())[i], self.exprs_info@[i].ty)''', it='vx_it', hoist=True, body='let ghost i0 = vx_it.index@ as int; let ghost d0 = self.exprs_info@; proof { assert(vt(&self.g())[i0] == tv(vx_q0[i0].ty)); }', tail='proof { assert(self.exprs_info@ == d0.push(self.exprs_info@.last())); }')])
    u.fn(D, 'Depth', 'check_all_rules_have_type', spec='''requires gok(&old(self).g())
ensures final(self).g() == old(self).g(), final(self).rest_kept(old(self)), old(self).surface.error ==> final(self).surface.error, !final(self).surface.error ==> forall|k: int| 0 <= k < old(self).g().rules@.len() ==> unknown(vt(&old(self).g()), vt(&old(self).g())[(#[trigger] old(self).g().rules@[k]).expr_idx as int], false),
  final(self).surface.error ==> old(self).surface.error || exists|k: int| 0 <= k < old(self).g().rules@.len() && unknown(vt(&old(self).g()), vt(&old(self).g())[(#[trigger] old(self).g().rules@[k]).expr_idx as int], true)''', mcalls={'clone': h_copy},
        proof='proof { lemma_in(&self.g()); }',
        loops=[Loop('for', '''invariant vx_it.seq() == vx_q0, vx_q0 == old(self).g().rules@, gok(&old(self).g()), in_all(vt(&old(self).g())), 0 <= vx_it.index@ <= vx_q0.len(), self.g() == old(self).g(), self.rest_kept(old(self)), old(self).surface.error ==> self.surface.error,
  !self.surface.error ==> forall|k: int| 0 <= k < vx_it.index@ ==> unknown(vt(&old(self).g()), vt(&old(self).g())[(#[trigger] vx_q0[k]).expr_idx as int], false), self.surface.error ==> old(self).surface.error || exists|k: int| 0 <= k < vx_q0.len() && unknown(vt(&old(self).g()), vt(&old(self).g())[(#[trigger] vx_q0[k]).expr_idx as int], true)''', it='vx_it', hoist=True,
            body='proof { assert($var == vx_q0[vx_it.index@ as int]); assert(in_refs(vt(&old(self).g())[$var.expr_idx as int], vt(&old(self).g()).len() as int)); }')])
    # from the analysed grammar to the types of its expressions
    u.fn(AST, 'ExprIType', 'infer', spec='ensures r.ty is Infer, r.span == $1')
    u.fn(AST, 'IGrammar', 'alloc_span_ty_expr', spec='''requires old(self).exprs@.len() == old(self).exprs_info@.len()
ensures final(self).rules == old(self).rules, final(self).exprs@ == old(self).exprs@.push(SpannedExpr(0)), final(self).exprs_info@.drop_last() == old(self).exprs_info@, final(self).exprs_info@.len() == old(self).exprs_info@.len() + 1, tv(final(self).exprs_info@.last().ty) is Rust, (forall|i: int| 0 <= i < old(self).exprs_info@.len() ==> (#[trigger] old(self).exprs_info@[i]).ty is Infer) ==> fresh(final(self))''', mcalls={'clone': lambda em, n: em.e(n.x)})
    u.fn(AST, 'IGrammar', 'from', spec=FROM_SPEC,
        loops=[Loop('chain', 'invariant $s@ == A, $i <= A.len(), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $o@[k]).ty is Infer\n decreases $s.len() - $i', it='map.collect', ety='Vec<ExprIType>')], proof='let ghost A = $1.exprs_info@;')
    u.fn(AST, 'RecSet', 'keep_only_polymorphic_paths', spec='ensures forall|rs: Seq<Rule>| #[trigger] pok(r.path_set@, rs) || !pok(self.path_set@, rs)',
        loops=[Loop('chain', 'invariant $i <= $s@.len(), forall|k: int| 0 <= k < $o@.len() ==> exists|j: int| 0 <= j < $s@.len() && #[trigger] $s@[j] == #[trigger] $o@[k]\n decreases $s.len() - $i', it='filter.collect', ety='Vec<RecPath>', clone='RecPath::clone', pre='let ghost A = $s@;',
            body='let ghost i0 = $i as int; let ghost o0 = $o@;', tail='proof { assert forall|k: int| 0 <= k < $o@.len() implies exists|j: int| 0 <= j < $s@.len() && #[trigger] $s@[j] == #[trigger] $o@[k] by { if k < o0.len() { assert(o0[k] == $o@[k]); } else { assert($s@[i0] == $o@[k]); } } }',
            after='proof { assert forall|rs: Seq<Rule>| #[trigger] pok($o@, rs) || !pok(A, rs) by { if pok(A, rs) { assert forall|k: int| 0 <= k < $o@.len() implies path_ok(#[trigger] $o@[k], rs) by { let j = choose|j: int| 0 <= j < A.len() && #[trigger] A[j] == $o@[k]; assert(path_ok(A[j], rs)); } } } }')])
    u.fn(D, 'Depth', 'warn_recursive_type', spec='requires gok(&old(self).g()) ensures *final(self) == *old(self)',
        loops=[Loop('for', 'invariant *self == *old(self), gok(&self.g()), vx_it.seq().len() == self.g().rules@.len(), 0 <= vx_it.index@ <= vx_it.seq().len(), forall|k: int| 0 <= k < vx_it.seq().len() ==> *(#[trigger] vx_it.seq()[k]) == self.g().rules@[k], pok(rec_set.path_set@, self.g().rules@)', it='vx_it',
                 body='proof { let k = vx_it.index@ as int; assert(*$var == self.g().rules@[k]); assert(iok(self.g().exprs_info@[$var.expr_idx as int].ty, self.g().rules@)); }'),
               Loop('for', 'invariant *self == *old(self), vx_it.seq() == vx_q1, 0 <= vx_it.index@ <= vx_q1.len(), pok(vx_q1, self.g().rules@)', it='vx_it', hoist=True, body='proof { assert(path_ok(vx_q1[vx_it.index@ as int], self.g().rules@)); assert(names_rule(self.g().rules@, $var.path@[0]@)); }')])
    u.fn(D, 'Depth', 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.es().len() ensures r == self.es()[$1 as int]')
    u.fn(D, 'Depth', 'surface_expr', spec='''requires old(self).surface.steady(), $1 < old(self).es().len() - 1 ensures final(self).lifted(old(self), $1 as int)''', proof='''proof { let o = *self; let i = $1 as int; lemma_steady(&o.surface); assert(o.surface.here(i));
  assert forall|s: Depth, r: IType| #![trigger s.surface.visited(&o.surface, i, r), s.lifted(&o, i)] s.surface.visited(&o.surface, i, r) && s.exprs_info == o.exprs_info && s.u() == o.u() && s.a() == o.a() implies s.lifted(&o, i) by { lemma_steady_step(&o.surface, &s.surface, i, r); lemma_rise(&o, &s, i); } }''')
    u.fn(D, 'Depth', 'error_if_not_match_ty_ascription', spec='''requires old(self).surface.steady(), $1 < old(self).es().len(), in_refs(tv($2), old(self).T().len() as int), in_refs(tv($3), old(self).T().len() as int), no_rec(old(self).T(), tv($2)), no_rec(old(self).T(), tv($3))
ensures final(self).flagged(old(self)), final(self).err() || final(self).err() == old(self).err() && same(old(self).T(), tv($2), tv($3), true), final(self).err() ==> old(self).err() || same(old(self).T(), tv($2), tv($3), false)''', proof='proof { lemma_steady(&self.surface); }')
    DPRE = 'requires old(self).inner($1 as int), '
    DPOST = '\nensures final(self).below(old(self), $1 as int)'
    E = 'old(self).es()[$1 as int]'
    def leaf(what):
        return dict(spec=DPRE + what + DPOST, proof='proof { let o = *self; lemma_inner(&o, $1 as int); lemma_leaf_depth(&o, $1 as int); }')
    ONE = '''proof { let o = *self; let i = $1 as int; let ks = kids(o.es()[i]); lemma_inner(&o, i); lemma_line(&o, i); assert(ks =~= seq![$2]); lemma_go(&o, ks); lemma_go_kid(&o, &o, ks, 0);
  assert forall|f: Depth| #![trigger f.seen(&o, $2 as int)] #![trigger f.below(&o, i)] f.seen(&o, $2 as int) implies f.below(&o, i) by { lemma_with(&o, &f); lemma_go_next(&o, &o, &f, ks, 0, o.a()); lemma_unline(&o, &f, i); } }'''
    def one(what):
        return dict(attr=ND, spec=DPRE + what + DPOST, proof=ONE)
    MANY = '''proof { let o = *self; let i = $1 as int; let ks = $2@; lemma_inner(&o, i); lemma_line(&o, i);
  assert forall|f: Depth| #![trigger f.going(&o, ks, ks.len() as int)] #![trigger f.below(&o, i)] f.going(&o, ks, ks.len() as int) implies f.below(&o, i) by { lemma_unline(&o, &f, i); } }'''
    TURN = '''proof { let o = *self; let i = $1 as int; let c = $2 as int; lemma_inner(&o, i); assert(kids(o.es()[i])[0] == c); lemma_steady(&o.surface); let a: Option<IType> = %s;
  assert forall|s: Depth| #![trigger s.flagged(&o)] s.flagged(&o) implies s.surface.steady() by { lemma_flag(&o, &s); }
  assert forall|s: Depth, t: Depth| #![trigger t.lifted(&s, c), s.flagged(&o)] s.flagged(&o) && t.lifted(&s, c) implies t.lifted(&o, c) by { lemma_lift(&o, &s, &t, c); }
  assert forall|s: Depth| #![trigger s.lifted(&o, c)] #![trigger s.with(a)] s.lifted(&o, c) || s.flagged(&o) && o.u() implies s.with(a).ready(c) && s.lifted(&o, c) by { if !s.lifted(&o, c) { lemma_flag(&o, &s); lemma_rise(&o, &s, c); } lemma_turn_in(&o, &s, i, c, a); }
  assert forall|s: Depth, f: Depth| #![trigger f.with(a).seen(&s.with(a), c)] (s.lifted(&o, c) || s.flagged(&o) && o.u()) && f.with(a).seen(&s.with(a), c) && f.a() == s.a() implies f.below(&o, i) by { if !s.lifted(&o, c) { lemma_flag(&o, &s); lemma_rise(&o, &s, c); } lemma_turn_out(&o, &s, &f, i, c, a); } }'''
    specs = {
        'visit_expr': dict(attr=ND, mcalls={'clone': h_copy}, spec='requires old(self).ready($1 as int) ensures final(self).seen(old(self), $1 as int)', proof='''proof { let o = *self; let i = $1 as int; lemma_ready(&o, i);
  assert forall|s: Depth| #![trigger s.inner(i)] s.entered(&o, i) implies s.inner(i) by { lemma_enter_depth(&o, &s, i); }
  assert forall|s: Depth, f1: Depth, f: Depth| #![trigger f1.below(&s, i), f.seen(&o, i)] s.entered(&o, i) && f1.below(&s, i) && f.surface == f1.surface && f.exprs_info == f1.exprs_info && f.a() == f1.a() && f.u() == o.u() implies f.seen(&o, i) by { lemma_out_depth(&o, &s, &f1, &f, i); } }'''),
        'visit_expr_switch_ascription': dict(attr=ND, mcalls={'clone': h_copy}, spec='requires old(self).with($2).ready($1 as int) ensures final(self).with($2).seen(&old(self).with($2), $1 as int), final(self).a() == old(self).a()'),
        'visit_sequence': dict(attr=ND, spec=DPRE + E + ' is Sequence, kids(' + E + ') == $2@' + DPOST, proof='let ghost o = *self; let ghost ks = $2@; ' + MANY.replace('let o = *self; ', '').replace('let ks = $2@; ', '').replace('lemma_line(&o, i);', 'lemma_line(&o, i); lemma_go(&o, ks);'),
            loops=[Loop('for', 'invariant vx_it.seq() == ks, 0 <= vx_it.index@ <= ks.len(), o.lined(ks), self.going(&o, ks, vx_it.index@ as int)', it='vx_it',
                body='let ghost s0 = *self; let ghost k0 = vx_it.index@ as int; proof { assert($var == ks[k0]); lemma_go_kid(&o, &s0, ks, k0); }',
                tail='proof { let n: Option<IType> = None; if self.with(n).seen(&s0.with(n), ks[k0] as int) && self.a() == s0.a() { lemma_go_next(&o, &s0, self, ks, k0, n); } else { lemma_with(&s0, self); lemma_go_next(&o, &s0, self, ks, k0, s0.a()); } }')]),
        'visit_choice': dict(attr=ND, spec=DPRE + E + ' is Choice, kids(' + E + ') == $2@' + DPOST, proof=MANY),
        'visit_type_ascription': dict(attr=ND, mcalls={'clone': h_copy}, spec=DPRE + E + ' == TypeAscription($2, $3)' + DPOST, proof=TURN % 'Some($3)'),
        'visit_semantic_action': dict(attr=ND, spec=DPRE + E + ' is SemanticAction, ' + E + '->SemanticAction_0 == $2' + DPOST, proof=TURN % 'None'),
        'walk_expr': dict(attr=ND, spec=DPRE.rstrip(', ') + DPOST, proof='proof { lemma_inner(self, $1 as int); }'),
        'walk_exprs': dict(attr=ND, spec='requires old(self).lined($1@) ensures final(self).going(old(self), $1@, $1@.len() as int)', proof='let ghost o = *self; let ghost ks = $1@; proof { lemma_go(&o, ks); }',
            loops=[Loop('chain', 'invariant o.lined(ks), ks == $s@, $i <= ks.len(), self.going(&o, ks, $i as int)\n decreases $s.len() - $i', it='map.collect', ety='Vec<()>',
                body='let ghost s0 = *self; let ghost n0 = $i as int; proof { lemma_go_kid(&o, &s0, ks, n0); }',
                tail='proof { lemma_with(&s0, self); lemma_go_next(&o, &s0, self, ks, n0, s0.a()); }')]),
        'visit_str_literal': leaf(E + ' is StrLiteral'), 'visit_atom': leaf(E + ' is AnySingleChar || ' + E + ' is CharacterClass'), 'visit_any_single_char': leaf(E + ' is AnySingleChar'), 'visit_character_class': leaf(E + ' is CharacterClass'),
        'visit_external_non_terminal_symbol': leaf(E + ' is ExternalNonTerminalSymbol'), 'visit_non_terminal_symbol': leaf(E + ' is NonTerminalSymbol'),
        'visit_repeat': one(E + ' == ZeroOrMore($2) || ' + E + ' == OneOrMore($2)'), 'visit_zero_or_more': one(E + ' == ZeroOrMore($2)'), 'visit_one_or_more': one(E + ' == OneOrMore($2)'), 'visit_optional': one(E + ' == ZeroOrOne($2)'), 'visit_zero_or_one': one(E + ' == ZeroOrOne($2)'),
        'visit_spanned_expr': one(E + ' == SpannedExpr($2)'), 'visit_range_expr': one(E + ' == RangeExpr($2)'),
        'visit_syntactic_predicate': one(E + ' == NotPredicate($2) || ' + E + ' == AndPredicate($2)'), 'visit_not_predicate': one(E + ' == NotPredicate($2)'), 'visit_and_predicate': one(E + ' == AndPredicate($2)'),
    }
    sw = specs.pop('visit_expr_switch_ascription')
    u.fn(D, 'Depth', 'visit_expr_switch_ascription', **sw)
    astlib.visitor(u, D, 'Depth', '()', specs, default_val='()')
    u.fn(D, 'Depth', 'depth', attr=ND, mcalls={'clone': h_copy}, spec='''requires old(self).surface.steady(), !old(self).u(), old(self).a() is None
ensures old(self).surface.steady(), final(self).kept(old(self)), gok(&final(self).surface.grammar), !final(self).err() ==> deepened(old(self).es(), old(self).rs(), old(self).T(), final(self).T())''',
        proof='let ghost o = *self; proof { lemma_deep_start(&o); assert forall|s: Depth| #[trigger] s.deep(&o, o.rs().len() as int) implies s.kept(&o) && gok(&s.surface.grammar) && (!s.err() ==> deepened(o.es(), o.rs(), o.T(), s.T())) by { lemma_deep_end(&o, &s); } }',
        loops=[Loop('for', 'invariant vx_it.seq() == vx_q0, vx_q0 == o.rs(), 0 <= vx_it.index@ <= vx_q0.len(), o.surface.steady(), !o.u(), o.a() is None, self.deep(&o, vx_it.index@ as int)', it='vx_it', hoist=True,
            body='let ghost s0 = *self; let ghost k0 = vx_it.index@ as int; proof { assert($var == o.rs()[k0]); lemma_deep_rule(&o, &s0, k0); }',
            tail='proof { lemma_deep_next(&o, &s0, self, k0); }')])
    u.fn(AST, 'IGrammar', 'map_exprs_info', spec='ensures mapped(&self, $1@, &r)')
    u.fn(D, 'Depth', 'infer', spec=INFER_SPEC,
        proof='''proof { assert forall|s: Surface| #[trigger] started(&s, &$1) implies s.sound() by { lemma_started(&s, &$1); }
  assert forall|s: Surface, o: Surface, n: int| #[trigger] s.surfaced(&o, n) implies gok(&s.grammar) && s.same_rest(&o) by { reveal(Surface::surfaced); lemma_open(&s); }
  let g = &$1; let n = g.rules@.len() as int;
  assert forall|s0: Surface, s: Surface, f: Surface| #![trigger s.surfaced(&s0, n), f.steady()] started(&s0, g) && s.surfaced(&s0, n) && reduced(&s, &f) implies f.steady() by { lemma_reduced(&s0, g, &s, &f); }
  assert forall|g1: IGrammar, infos: Seq<ExprType>, t: TGrammar| #[trigger] mapped(&g1, infos, &t) && g1.rules@ == g.rules@ && g1.exprs@ == g.exprs@ && infos.len() == vt(&g1).len() && (forall|i: int| 0 <= i < infos.len() ==> final_ty(#[trigger] vt(&g1)[i], infos[i].ty)) && (forall|k: int| 0 <= k < g1.rules@.len() ==> unknown(vt(&g1), vt(&g1)[(#[trigger] g1.rules@[k]).expr_idx as int], false)) implies handed(g, &g1, &t) by {}
  assert forall|s0: Surface, s1: Surface, s2: Surface, g2: IGrammar, infos: Seq<ExprType>, t: TGrammar| #![trigger s1.surfaced(&s0, n), s2.steady(), mapped(&g2, infos, &t)] started(&s0, g) && s1.surfaced(&s0, n) && !s1.error && reduced(&s1, &s2) && deepened(s2.es(), s2.rs(), s2.T(), vt(&g2)) && handed(g, &g2, &t) implies inferred(g, Partial::Value(t)) by {
    assert(settled(&s1.grammar, &s2.grammar, &g2)); assert(given(g, &s1, &t)); } }''')

FROM_SPEC = 'requires $1.exprs@.len() == $1.exprs_info@.len() ensures r.rules == $1.rules, r.exprs@ == $1.exprs@.push(SpannedExpr(0)), fresh(&r), r.exprs.len() == r.exprs@.len()'
INFER_SPEC = 'requires shape($1.exprs@, $1.rules@), fresh(&$1) ensures inferred(&$1, r)'

def unit():
    u = Unit('surface')
    ityping.base(u)
    u.raw(STUB)
    u.raw(ityping.REWRITE)
    u.raw(SPEC)
    u.raw(LEMMAS)
    u.trust_all = True
    ityping.rewriting(u)
    u.trust_all = False
    u.calls['print_debug'] = lambda em, n: 'vx_print()'
    u.macros['println'] = lambda em, n: 'vx_print()'
    u.mcalls.update(debug=h_debug, extend=h_extend_chain, emit=h_emit_var, error=h_error, span_note=h_span_note, unstable=h_unstable)
    surface(u)
    depth(u)
    return u
