"""Contracts of src/liboak/back/{continuation,context}.rs and back/compiler/*.rs (C19, C20, C21, C22, C24): the code that an
expression of *any* grammar is compiled to does what the expression means.

A quoted template is read as the piece of Rust it is (lib/quoted.py): `run(n, c, s, e)` is what the code c does from the
parse state s in an environment e (marks, flags, counters, values by their names), calls and loops being limited to n.
The meaning of an expression is `peg(g, p, n, i, s)`, any function with the equations of `meaning` (one per kind of
expression, written from the documentation); nothing is assumed of it beyond them."""
import re
from vx import *
import astlib, wellformed, ityping, quoted, charclass
B = 'src/liboak/back/'
D = B + 'compiler/'
CTX, CON, NAM = B + 'context.rs', B + 'continuation.rs', B + 'name_factory.rs'
GR = 'src/liboak/middle/typing/ast.rs'
AST = astlib.AST

SPEC = r'''
// ---- what is reported: the farthest position at which a terminal failed, and what was expected there (C05)
pub struct Far { pub at: nat, pub what: Set<Seq<char>> }
pub open spec fn farther(f: Far, i: nat, x: Seq<char>) -> Far {
  if i > f.at { Far { at: i, what: Set::empty().insert(x) } } else if i == f.at { Far { at: i, what: f.what.insert(x) } } else { f }
}
// ---- values
pub ghost enum Val { Unit, Char(char), Tup(Seq<Val>), List(Seq<Val>), No, So(Box<Val>), Mark(nat), Flag(bool), Count(int), Range(nat, nat), Span(nat, nat), Act(SynExpr, Seq<Val>), Named(SynExpr), Boxed(Box<Val>), Odd }
pub open spec fn truth(v: Val) -> bool { match v { Val::Flag(b) => b, _ => false } }
pub open spec fn number(v: Val) -> int { match v { Val::Count(k) => k, _ => 0 } }
pub open spec fn range_of(a: Val, b: Val) -> Val { match (a, b) { (Val::Mark(x), Val::Mark(y)) => Val::Range(x, y), _ => Val::Odd } }
pub open spec fn span_of(a: Val) -> Val { match a { Val::Range(x, y) => Val::Span(x, y), _ => Val::Odd } }
pub open spec fn some_of(a: Val) -> Val { Val::So(Box::new(a)) }
pub open spec fn boxed(a: Val) -> Val { Val::Boxed(Box::new(a)) }
pub open spec fn pushed(a: Val, v: Val) -> Val { match a { Val::List(l) => Val::List(l.push(v)), _ => Val::Odd } }
pub open spec fn tup(vs: Seq<Val>) -> Val { if vs.len() == 1 { vs[0] } else if vs.len() == 0 { Val::Unit } else { Val::Tup(vs) } }
pub open spec fn untup(v: Val, n: nat) -> Seq<Val> { if n == 1 { seq![v] } else if n == 0 { Seq::empty() } else { match v { Val::Tup(vs) => if vs.len() == n { vs } else { Seq::new(n, |k: int| Val::Odd) }, _ => Seq::new(n, |k: int| Val::Odd) } } }
// ---- parse states (C05, C06), the text being read (C01); a failed state has no position
pub uninterp spec fn text() -> Seq<char>;
pub ghost struct St { pub ok: bool, pub at: nat, pub far: Far, pub data: Option<Val> }
pub open spec fn ready(s: St) -> bool { s.ok && s.data is None }
pub open spec fn starts(i: nat, p: Seq<char>) -> bool { i + p.len() <= text().len() && text().subrange(i as int, (i + p.len()) as int) == p }
pub open spec fn moved(s: St, n: nat) -> St { St { at: s.at + n, ..s } }
pub open spec fn failed(f: Far) -> St { St { ok: false, at: 0, far: f, data: None } }
pub open spec fn erred(s: St, x: Seq<char>) -> St { failed(farther(s.far, s.at, x)) }
pub open spec fn successful(s: St, v: Val) -> St { St { ok: true, data: Some(v), ..s } }
pub open spec fn restored(s: St, m: Val) -> St { St { ok: true, at: match m { Val::Mark(p) => p, _ => 0 }, far: s.far, data: None } }
pub open spec fn extracted(s: St) -> St { St { data: None, ..s } }
// ---- environments
pub type Env = spec_fn(Seq<char>) -> Val;
pub open spec fn set(e: Env, x: Seq<char>, v: Val) -> Env { |y: Seq<char>| if y == x { v } else { e(y) } }
pub open spec fn bound(e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>) -> Env { |y: Seq<char>| if xs.contains(y) { vs[xs.index_of(y)] } else { e(y) } }
// the environment f after a scope that was entered in e and had the names xs of its own
pub open spec fn unbound(f: Env, e: Env, xs: Seq<Seq<char>>) -> Env { |y: Seq<char>| if xs.contains(y) { e(y) } else { f(y) } }
pub ghost struct Rs { pub s: St, pub e: Env }
pub ghost struct Fl { pub go: bool, pub s: St, pub e: Env }
pub open spec fn iterate(k: nat, f: spec_fn(St, Env) -> Option<Fl>, s: St, e: Env) -> Option<Fl> decreases k
{ if k == 0 { None } else { match f(s, e) { None => None, Some(r) => if r.go { iterate((k - 1) as nat, f, r.s, r.e) } else { Some(r) } } } }
// ---- code
pub uninterp spec fn run(n: nat, c: SynExpr, s: St, e: Env) -> Option<Rs>;
pub uninterp spec fn value(c: SynExpr, s: St, e: Env) -> Val;
pub uninterp spec fn step(n: nat, c: SynStmt, s: St, e: Env) -> Option<Rs>;
pub uninterp spec fn holds(e: SynExpr, x: Seq<char>, c: char) -> bool;      // the answer of a condition on the character c named x (unit charclass)
pub uninterp spec fn pat_names(p: SynPat) -> Seq<Seq<char>>;
pub uninterp spec fn pat_parts(p: SynPat, v: Val) -> Seq<Val>;
pub ghost struct Done { pub ok: bool, pub at: nat, pub far: Far, pub data: Val }
pub uninterp spec fn called(n: nat, f: SynPath, at: nat, far: Far) -> Option<Done>;     // what the function of a rule, or a user's, answers
pub open spec fn call(n: nat, f: SynPath, s: St) -> Option<St> { match called(n, f, s.at, s.far) { None => None, Some(d) => Some(if d.ok { St { ok: true, at: d.at, far: d.far, data: Some(d.data) } } else { failed(d.far) }) } }
pub uninterp spec fn applied(f: SynExpr, vs: Seq<Val>) -> Val;
impl SynExpr {
  pub open spec fn vx_run(self, n: nat, s: St, e: Env) -> Option<Rs> { run(n, self, s, e) }
  pub open spec fn vx_val(self, s: St, e: Env) -> Val { value(self, s, e) }
}
impl SynStmt { pub open spec fn vx_step(self, n: nat, s: St, e: Env) -> Option<Rs> { step(n, self, s, e) } }
impl SynPath { pub open spec fn vx_call(self, n: nat, s: St) -> Option<St> { call(n, self, s) } }
impl Ident {
  pub open spec fn vx_name(self) -> Seq<char> { self@ }
  pub open spec fn vx_val(self, s: St, e: Env) -> Val { e(self@) }
  pub open spec fn vx_names(self) -> Seq<Seq<char>> { seq![self@] }
  pub open spec fn vx_parts(self, v: Val) -> Seq<Val> { seq![v] }
}
impl SynPat {
  pub open spec fn vx_names(self) -> Seq<Seq<char>> { pat_names(self) }
  pub open spec fn vx_parts(self, v: Val) -> Seq<Val> { pat_parts(self, v) }
}
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; }
impl VxText for str { open spec fn vx_text(&self) -> Seq<char> { self@ } }
pub trait VxNum { spec fn vx_val(&self, s: St, e: Env) -> Val; }
impl VxNum for usize { open spec fn vx_val(&self, s: St, e: Env) -> Val { Val::Count(*self as int) } }
#[verifier::external_body] pub fn vx_quote(Ghost(p): Ghost<spec_fn(nat, St, Env) -> Option<Rs>>) -> (r: SynExpr) ensures forall|n: nat, s: St, e: Env| #[trigger] run(n, r, s, e) == p(n, s, e) { unimplemented!() }
#[verifier::external_body] pub fn vx_quote_value(Ghost(p): Ghost<spec_fn(St, Env) -> Val>) -> (r: SynExpr) ensures forall|s: St, e: Env| #[trigger] value(r, s, e) == p(s, e) { unimplemented!() }
#[verifier::external_body] pub fn vx_quote_stmt(Ghost(p): Ghost<spec_fn(nat, St, Env) -> Option<Rs>>) -> (r: SynStmt) ensures forall|n: nat, s: St, e: Env| #[trigger] step(n, r, s, e) == p(n, s, e) { unimplemented!() }
#[verifier::external_body] pub fn vx_pat_any() -> (r: SynPat) ensures pat_names(r) == Seq::<Seq<char>>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_pat_one(x: &Ident) -> (r: SynPat) ensures pat_names(r) == seq![x@], forall|v: Val| #[trigger] pat_parts(r, v) == seq![v] { unimplemented!() }

// ---- the outcome of an expression: a ready state and the values, or a failed state
pub ghost struct Out { pub s: St, pub v: Seq<Val> }
pub type Outs = spec_fn(nat, St) -> Option<Out>;
pub open spec fn good(s: St, v: Seq<Val>) -> Option<Out> { Some(Out { s, v }) }
pub open spec fn bad(f: Far) -> Option<Out> { Some(Out { s: failed(f), v: Seq::empty() }) }
// from there on: the success continuation with the values under their names, or failure
pub open spec fn fin(n: nat, succ: SynExpr, o: Option<Out>, xs: Seq<Seq<char>>, e: Env) -> Option<Rs> {
  match o { None => None, Some(o) => if o.s.ok { match run(n, succ, o.s, bound(e, xs, o.v)) { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, e, xs) }) } } else { Some(Rs { s: o.s, e }) } }
}
pub open spec fn does(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == fin(n, succ, o(n, s), xs, e) }
pub open spec fn failing(c: SynExpr) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, c, s, e) == Some(Rs { s: failed(s.far), e }) }
pub open spec fn put(r: Option<Rs>, x: Seq<char>, v: Val) -> Option<Rs> { match r { None => None, Some(r) => Some(Rs { s: r.s, e: set(r.e, x, v) }) } }
// the code neither reads nor changes x
#[verifier::opaque] pub open spec fn blind(c: SynExpr, x: Seq<char>) -> bool { forall|n: nat, s: St, e: Env, v: Val| ready(s) ==> #[trigger] run(n, c, s, set(e, x, v)) == put(run(n, c, s, e), x, v) }
pub open spec fn fresh(c: SynExpr, f: NameFactory) -> bool { forall|x: Seq<char>| !made(f, x) ==> #[trigger] blind(c, x) }
pub open spec fn sound(o: Outs, w: nat) -> bool { forall|n: nat, s: St| ready(s) ==> match #[trigger] o(n, s) { None => true, Some(o) => if o.s.ok { ready(o.s) && o.v.len() == w } else { o.s == failed(o.s.far) } } }

// ---- names (unit names): those a factory has made
#[verifier::external_body] pub struct NameFactory { x: std::marker::PhantomData<u8> }
pub uninterp spec fn made(f: NameFactory, x: Seq<char>) -> bool;
pub open spec fn grows(a: NameFactory, b: NameFactory) -> bool { forall|x: Seq<char>| made(a, x) ==> #[trigger] made(b, x) }
pub open spec fn texts(s: Seq<Ident>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn lastn(s: Seq<Seq<char>>, w: nat) -> Seq<Seq<char>> { s.subrange(s.len() - w, s.len() as int) }
pub open spec fn cok(c: Context) -> bool { texts(c.free_variables@).no_duplicates() && forall|i: int| 0 <= i < c.free_variables@.len() ==> made(c.name_factory, (#[trigger] c.free_variables@[i])@) }
// before and after the compilation of an expression that has w values
pub open spec fn pre(c: Context, k: Continuation, w: nat) -> bool { cok(c) && c.free_variables@.len() >= w && failing(k.failure) && fresh(k.success, c.name_factory) }
pub open spec fn post(a: Context, b: Context, w: nat) -> bool { cok(b) && b.grammar == a.grammar && b.free_variables@ =~= a.free_variables@.take(a.free_variables@.len() - w) && grows(a.name_factory, b.name_factory) }
pub open spec fn vars(c: Context, w: nat) -> Seq<Seq<char>> { lastn(texts(c.free_variables@), w) }
'''

LEMMAS = r'''
pub proof fn lemma_set_same(e: Env, x: Seq<char>) ensures set(e, x, e(x)) == e { assert(set(e, x, e(x)) =~= e); }
pub proof fn lemma_set_set(e: Env, x: Seq<char>, v: Val, w: Val) ensures set(set(e, x, v), x, w) == set(e, x, w) { assert(set(set(e, x, v), x, w) =~= set(e, x, w)); }
pub proof fn lemma_bound_none(e: Env, f: Env) ensures forall|vs: Seq<Val>| #[trigger] bound(e, Seq::empty(), vs) == e, unbound(f, e, Seq::empty()) == f { assert forall|vs: Seq<Val>| #[trigger] bound(e, Seq::empty(), vs) == e by { assert(bound(e, Seq::empty(), vs) =~= e); } assert(unbound(f, e, Seq::empty()) =~= f); }
pub proof fn lemma_bound_one(e: Env, x: Seq<char>, v: Val) ensures bound(e, seq![x], seq![v]) == set(e, x, v) { assert(seq![x][0] == x); assert forall|y: Seq<char>| seq![x].contains(y) implies y == x && seq![x].index_of(y) == 0 by { let k = seq![x].index_of(y); } assert(seq![x].contains(x)); assert(bound(e, seq![x], seq![v]) =~= set(e, x, v)); }
pub proof fn lemma_bound_set(e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>, x: Seq<char>, v: Val) requires !xs.contains(x) ensures bound(set(e, x, v), xs, vs) == set(bound(e, xs, vs), x, v) { assert(bound(set(e, x, v), xs, vs) =~= set(bound(e, xs, vs), x, v)); }
pub proof fn lemma_unbound_set(f: Env, e: Env, xs: Seq<Seq<char>>, x: Seq<char>, v: Val) requires !xs.contains(x) ensures unbound(set(f, x, v), set(e, x, v), xs) == set(unbound(f, e, xs), x, v) { assert(unbound(set(f, x, v), set(e, x, v), xs) =~= set(unbound(f, e, xs), x, v)); }
// code that is blind to x keeps it: a binding around it shows neither inside nor outside
pub proof fn lemma_blind(c: SynExpr, x: Seq<char>, n: nat, s: St, e: Env, v: Val) requires blind(c, x), ready(s)
  ensures run(n, c, s, set(e, x, v)) == put(run(n, c, s, e), x, v), run(n, c, s, e) is Some ==> (run(n, c, s, e).unwrap().e)(x) == e(x) && unbound(set(run(n, c, s, e).unwrap().e, x, v), e, seq![x]) == run(n, c, s, e).unwrap().e
{
  reveal(blind); lemma_set_same(e, x);
  assert(run(n, c, s, set(e, x, e(x))) == put(run(n, c, s, e), x, e(x)));
  if run(n, c, s, e) is Some { let f = run(n, c, s, e).unwrap().e; assert(f == set(f, x, e(x))); assert(f(x) == e(x)); assert(seq![x][0] == x); assert forall|y: Seq<char>| seq![x].contains(y) implies y == x by { let k = seq![x].index_of(y); } assert(seq![x].contains(x)); assert(unbound(set(f, x, v), e, seq![x]) =~= f); }
}
// the same, within a scope that was entered in e0
pub proof fn lemma_blind_in(c: SynExpr, x: Seq<char>, n: nat, s: St, e: Env, e0: Env, v: Val) requires blind(c, x), ready(s), e(x) == e0(x)
  ensures run(n, c, s, set(e, x, v)) == put(run(n, c, s, e), x, v), run(n, c, s, e) is Some ==> unbound(set(run(n, c, s, e).unwrap().e, x, v), e0, seq![x]) == run(n, c, s, e).unwrap().e
{ lemma_blind(c, x, n, s, e, v); lemma_bound_one_all(e, x); if let Some(z) = run(n, c, s, e) { assert(unbound(set(z.e, x, v), e0, seq![x]) =~= z.e); } }
pub proof fn lemma_vars(c: Context) ensures vars(c, 0) == Seq::<Seq<char>>::empty(), c.free_variables@.len() > 0 ==> vars(c, 1) == seq![c.free_variables@.last()@] && texts(c.free_variables@.drop_last()).no_duplicates() == texts(c.free_variables@.drop_last()).no_duplicates()
{ assert(vars(c, 0) =~= Seq::<Seq<char>>::empty()); if c.free_variables@.len() > 0 { assert(vars(c, 1) =~= seq![c.free_variables@.last()@]); } }
pub proof fn lemma_vars_made(c: Context, w: nat) requires cok(c), w <= c.free_variables@.len() ensures vars(c, w).len() == w, vars(c, w).no_duplicates(), forall|x: Seq<char>| #[trigger] vars(c, w).contains(x) ==> made(c.name_factory, x)
{
  let xs = vars(c, w); let ys = texts(c.free_variables@); let d = ys.len() - w;
  assert forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() && i != j implies xs[i] != xs[j] by { assert(xs[i] == ys[i + d]); assert(xs[j] == ys[j + d]); }
  assert forall|x: Seq<char>| #[trigger] xs.contains(x) implies made(c.name_factory, x) by { let k = xs.index_of(x); assert(xs[k] == ys[k + d]); assert(c.free_variables@[k + d]@ == x); }
}
pub proof fn lemma_does_same(r: SynExpr, succ: SynExpr, o: Outs, q: Outs, xs: Seq<Seq<char>>) requires does(r, succ, o, xs), forall|n: nat, s: St| ready(s) ==> o(n, s) == #[trigger] q(n, s) ensures does(r, succ, q, xs)
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, q(n, s), xs, e) by { assert(q(n, s) == o(n, s)); } }
pub proof fn lemma_cok(a: Context, b: Context, w: nat) requires cok(a), w <= a.free_variables@.len(), b.free_variables@ =~= a.free_variables@.take(a.free_variables@.len() - w), grows(a.name_factory, b.name_factory) ensures cok(b)
{
  let x = texts(a.free_variables@); let y = texts(b.free_variables@);
  assert forall|i: int, j: int| 0 <= i < y.len() && 0 <= j < y.len() && i != j implies y[i] != y[j] by { assert(x[i] == y[i]); assert(x[j] == y[j]); }
  assert forall|i: int| 0 <= i < b.free_variables@.len() implies made(b.name_factory, (#[trigger] b.free_variables@[i])@) by { assert(a.free_variables@[i] == b.free_variables@[i]); }
}
pub proof fn lemma_bound_one_all(e: Env, x: Seq<char>) ensures forall|v: Val| #[trigger] bound(e, seq![x], seq![v]) == set(e, x, v), seq![x].contains(x), forall|y: Seq<char>| #[trigger] seq![x].contains(y) ==> y == x
{ assert forall|v: Val| #[trigger] bound(e, seq![x], seq![v]) == set(e, x, v) by { lemma_bound_one(e, x, v); } assert(seq![x][0] == x); }
pub proof fn lemma_swap(e: Env, x: Seq<char>, v: Val, y: Seq<char>, w: Val) requires x != y ensures set(set(e, x, v), y, w) == set(set(e, y, w), x, v) { assert(set(set(e, x, v), y, w) =~= set(set(e, y, w), x, v)); }
// a scope with the name m, and in it one with the name x, around code that is blind to m
pub proof fn lemma_scopes(c: SynExpr, m: Seq<char>, w: Val, x: Seq<char>, v: Val, n: nat, s: St, e: Env)
  requires blind(c, m), ready(s), m != x
  ensures match run(n, c, s, set(e, x, v)) { None => run(n, c, s, set(set(e, m, w), x, v)) is None,
    Some(z) => match run(n, c, s, set(set(e, m, w), x, v)) { None => false, Some(q) => q.s == z.s && unbound(unbound(q.e, set(e, m, w), seq![x]), e, seq![m]) == unbound(z.e, e, seq![x]) } }
{
  lemma_swap(e, x, v, m, w); lemma_blind(c, m, n, s, set(e, x, v), w); lemma_bound_one_all(e, x); lemma_bound_one_all(e, m);
  if let Some(z) = run(n, c, s, set(e, x, v)) { let q = run(n, c, s, set(set(e, m, w), x, v)).unwrap();
    assert(unbound(unbound(q.e, set(e, m, w), seq![x]), e, seq![m]) =~= unbound(z.e, e, seq![x])); }
}
// the same, the code being blind to x too
pub proof fn lemma_scopes_blind(c: SynExpr, m: Seq<char>, w: Val, x: Seq<char>, v: Val, n: nat, s: St, e: Env)
  requires blind(c, m), blind(c, x), ready(s), m != x
  ensures match run(n, c, s, e) { None => run(n, c, s, set(set(e, m, w), x, v)) is None,
    Some(z) => match run(n, c, s, set(set(e, m, w), x, v)) { None => false, Some(q) => q.s == z.s && unbound(unbound(q.e, set(e, m, w), seq![x]), e, seq![m]) == z.e } }
{
  lemma_scopes(c, m, w, x, v, n, s, e); lemma_blind(c, x, n, s, e, v); lemma_bound_one_all(e, x); lemma_bound_one_all(e, m);
  if let Some(z) = run(n, c, s, e) { assert(unbound(set(z.e, x, v), e, seq![x]) =~= z.e); }
}
pub proof fn lemma_unbound_none(e: Env, m: Seq<char>, w: Val) ensures unbound(set(e, m, w), e, seq![m]) == e { lemma_bound_one_all(e, m); assert(unbound(set(e, m, w), e, seq![m]) =~= e); }
pub proof fn lemma_fresh(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, a: NameFactory, b: NameFactory, w: nat)
  requires does(r, succ, o, xs), fresh(succ, a), grows(a, b), sound(o, w), forall|x: Seq<char>| xs.contains(x) ==> made(b, x) ensures fresh(r, b)
{
  assert forall|x: Seq<char>| !made(b, x) implies #[trigger] blind(r, x) by {
    reveal(blind); assert(blind(succ, x));
    assert forall|n: nat, s: St, e: Env, v: Val| ready(s) implies #[trigger] run(n, r, s, set(e, x, v)) == put(run(n, r, s, e), x, v) by {
      assert(run(n, r, s, e) == fin(n, succ, o(n, s), xs, e));
      if let Some(q) = o(n, s) { if q.s.ok {
        lemma_bound_set(e, xs, q.v, x, v); lemma_blind(succ, x, n, q.s, bound(e, xs, q.v), v);
        if let Some(z) = run(n, succ, q.s, bound(e, xs, q.v)) { lemma_unbound_set(z.e, e, xs, x, v); }
      } }
    }
  }
}
'''
STUB = r'''
#[verifier::external_body] pub struct SynStmt { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynPat { x: std::marker::PhantomData<u8> }
pub type TGrammar = Grammar<ExpressionInfo<Type>>;
pub type ExprType = ExpressionInfo<Type>;
pub use Type::*;
// a copy equals the original (assumed of the derived Clone of these types)
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
''' + ''.join('impl VxClone for %s { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }\n' % t for t in ('Rule', 'SynExpr', 'SynPath', 'SynStmt', 'SynPat', 'SynType', 'Ident', 'Vec<usize>', 'Vec<Ident>', 'Vec<(Ident, SynType)>', 'String', 'usize')) + ''''''
VARS = 'proof { lemma_vars(*$1); }'
# the holes of the templates, in the order in which the proofs count them ($h0, $h1, ..)
HOLES = {
    ('StrLiteralCompiler', 'compile_expr'): [['lit', 'success', 'failure']],
    (None, 'ignore_value'): [[]],
    (None, 'bind_value'): [['var']],
    ('AnySingleCharCompiler', 'compile_expr'): [['pattern', 'success', 'failure']],
    ('CharacterClassCompiler', 'compile_expr'): [['mark', 'var', 'condition', 'success', 'classes_desc_str', 'failure']],
    ('NonTerminalCompiler', 'recognizer'): [['id']],
    ('NonTerminalCompiler', 'parser'): [['id']],
    ('Context', 'compile_recognizer_expr'): [[], []],
    ('SyntacticPredicateCompiler', 'compile'): [[], [], ['mark', 'expr', 'success_case', 'failure_case']],
    (None, 'tuple_value'): [['vars_names']],
    ('OptionalCompiler', 'value_constructor'): [['result_var', 'result_value']],
    ('RepeatCompiler', 'value_constructor'): [['result_var', 'result_value']],
    ('Context', 'value_constructor'): [[]],
    ('OptionalCompiler', 'compile'): [['mark', 'body', 'success']],
    ('OptionalCompiler', 'compile_parser'): [[], ['result_var', 'optional_expr']],
    ('RepeatCompiler', 'compile'): [['mark', 'counter', 'body', 'cardinality_min', 'failure', 'success'], ['mark', 'body', 'success']],
    ('RepeatCompiler', 'compile_parser'): [[], ['result_var', 'repeat_expr']],
    ('Continuation', 'compile_and_wrap'): [['before_success', 'success']],
    ('Context', 'parse_state_ty'): [['stream_ty']],
    ('Context', 'state_param'): [['mut_kw', 'ps_ty']],
    ('Context', 'closure_params'): [['var', 'ty'], ['var'], ['var', 'stream_ty']],
    ('Context', 'closure_args'): [[], ['var'], ['var'], ['var']],
    ('Context', 'success_as_closure'): [['params', 'closure_name', 'success'], ['args', 'closure_name']],
    ('ChoiceCompiler', 'compile_expr'): [[], ['b'], [], ['branch_failed', 'mark', 'branch', 'accu'], ['mark', 'branch_failed', 'first', 'choice']],
    (None, 'tuple_pattern'): [['vars_names']],
    ('NonTerminalRecognizerCompiler', 'compile_expr'): [['recognizer_fn', 'success', 'failure']],
    ('NonTerminalParserCompiler', 'compile_expr'): [['parser_fn', 'vars', 'success', 'failure']],
    ('Context', 'function'): [['name', 'generics', 'state_param', 'stream_ty', 'ty', 'closures', 'body']],
    ('Context', 'into_recognizer_function'): [[]],
    ('Context', 'into_parser_alias'): [['id'], ['recognizer_fn'], []],
    ('RuleCompiler', 'compile_recognizer'): [[], []],
    ('RuleCompiler', 'compile_parser'): [['vars'], []],
    ('SemanticActionCompiler', 'compile_expr'): [['var'], ['action'], ['args', 'action'], ['action_call'], ['result', 'boxed_action_call', 'success']],
    ('SpannedExprCompiler', 'compile_expr'): [['lo_sp'], ['result_expr'], ['result', 'result_expr', 'success'], ['lo_sp', 'spanned_expr']],
}
DUMP = {}
class Quotes:
    """proofs about the code of the n-th template of a function ($q: the code, $h0..: its holes)"""
    def __init__(self):
        self.at = {}
    def pick(self, em, holes):
        """the kind and the proof of this template: the one written for it in turn, unless its holes say it is another"""
        at = self.at.get((em.f.ty, em.f.name), [])
        known = HOLES.get((em.f.ty, em.f.name), [])
        used = em.__dict__.setdefault('picked', set())
        k = em.quotes - 1
        if k < len(known) and (k in used or set(known[k]) != set(holes)):
            k = next((j for j in range(len(at)) if j not in used and j < len(known) and set(known[j]) == set(holes)), k)
        used.add(k)
        DUMP.setdefault((em.f.ty, em.f.name), []).append(holes)
        return (at[k] if k < len(at) else ('code', '')) + (known[k] if k < len(known) else [],)
    def __call__(self, em, n):
        body = em.src[n.body_s:n.body_e].strip()
        f = em.f
        em.quotes = getattr(em, 'quotes', 0) + 1
        kind, proof, names = self.pick(em, quoted.prepare(body)[1])
        em.u.assumed.add('quote: the expression of a template is the template with its holes filled in (its text, restated by lib/quoted.py)')
        d = quoted.Denote(body)
        v = 'vx_q%d' % em.quotes
        if kind == 'code':
            t = 'vx_quote(Ghost(|vx_n: nat, vx_s: St, vx_e: Env| -> Option<Rs> { %s }))' % d.as_code()
        elif kind == 'value':
            t = 'vx_quote_value(Ghost(|vx_s: St, vx_e: Env| -> Val { %s }))' % d.as_value()
        elif kind == 'stmt':
            t = 'vx_quote_stmt(Ghost(|vx_n: nat, vx_s: St, vx_e: Env| -> Option<Rs> { %s }))' % d.as_stmt()
        elif kind == 'path':
            m = re.match(r'#(\w+)$', body)
            if m is None:
                raise Unsupported('path of a template')
            t = 'vx_path_of(&%s)' % m.group(1)
        elif kind == 'type':
            t = 'vx_some_type()'
        elif kind == 'pat':
            m = re.match(r'#(\w+)$', body)
            mt = re.match(r'\(\s*#\(\s*#(\w+)\s*\)\s*,\s*\*\s*\)$', body)
            t = 'vx_pat_any()' if body == '_' else 'vx_pat_one(&%s)' % m.group(1) if m else 'vx_pat_tuple(&%s)' % mt.group(1) if mt else None
            if t is None:
                raise Unsupported('pattern of a template')
        else:
            t = kind(em, d, body)
        if not proof:
            return t
        proof = proof.replace('$q', v)
        hole = lambda k: names[k] if k < len(names) and names[k] in d.holes else d.holes[k]
        proof = re.sub(r'\$h(\d)', lambda m: hole(int(m.group(1))), proof)
        return '({ let %s = %s; proof { %s } %s })' % (v, t, em.f.place(proof), v)

CONT = 'Continuation'
MAP_SUCCESS = 'self.success=f(self.success,self.failure.clone());self'
def h_map_success(em, n):
    """`c.map_success(|s, f| body)`: the body of map_success, its parameter being this closure"""
    FF, im, f = em.u.lookup(CON, CONT, 'map_success')
    if re.sub(r'\s+', '', FF.src[f.body.s + 1:f.body.e - 1]) != MAP_SUCCESS:
        raise Unsupported('Continuation::map_success')
    c = n.args[0]
    if c.kind != 'closure' or len(c.params) != 2:
        raise Unsupported('map_success of a function')
    a, b = (q.pat for q in c.params)
    em.fresh += 1
    k = em.fresh
    la = 'let %s = vx_a%d;' % (em.e(a), k) if a.kind == 'pat_ident' else ''
    lb = 'let %s = vx_b%d.vx_clone();' % (em.e(b), k) if b.kind == 'pat_ident' else ''
    return '({ let Continuation { success: vx_a%d, failure: vx_b%d } = %s; %s %s let vx_c%d = %s; Continuation { success: vx_c%d, failure: vx_b%d } })' % (k, k, em.e(n.x), la, lb, k, em.e(c.body), k, k)

FNPTR = {}
EXPR_PATH = re.compile(r'(^|::)Expr::Path$')
def node_hook(em, n):
    seen = em.__dict__.setdefault('as_path', set())
    if id(n) in seen:      # `match action { Expr::Path(p) => .. }`: what the action looks like
        seen.discard(id(n))
        return 'vx_as_path(&%s)' % em.e(n.x if n.kind == 'ref' else n)
    if n.kind == 'match' and any(a.pat.kind == 'pat_tstruct' and EXPR_PATH.search(a.pat.path) for a in n.arms):
        seen.add(id(n.x))
        return None
    if n.kind == 'letcond' and n.pat.kind == 'pat_tstruct' and EXPR_PATH.search(n.pat.path):
        seen.add(id(n.x))
        return None
    if n.kind == 'pat_tstruct' and EXPR_PATH.search(n.path) and len(n.items) == 1:
        return 'Some(%s)' % em.e(n.items[0])
    if n.kind == 'assign' and n.op == '+=' and em.src[n.l.s:n.l.e] == 'self.num_combinators_compiled':
        em.u.assumed.add('the number of combinators of a rule is less than 2^64')
        return '%s = vx_more(%s, %s)' % (em.e(n.l), em.e(n.l), em.e(n.r))
    if n.kind == 'mcall' and n.name == 'expr_by_index' and len(n.args) == 1:
        return 'vx_expr_at(%s, %s)' % (em.e(n.x), em.e(n.args[0]))
    if n.kind == 'binary' and n.op in ('==', '!=') and re.search(r'(^|::)Unit$', em.src[n.r.s:n.r.e].strip()):
        return '(%svx_is_unit(&%s))' % ('' if n.op == '==' else '!', em.e(n.l))
    if n.kind == 'call' and n.f.kind == 'paren':
        return '(%s).vx_call(%s)' % (em.e(n.f.x), ', '.join(em.e(a) for a in n.args))
    if n.kind == 'call' and n.f.kind == 'path' and n.f.text in FNPTR:
        return '%s(%s)' % (n.f.text, ', '.join(em.e(a) for a in n.args))
    if n.kind == 'call' and n.f.kind == 'path' and n.f.text == 'compiler':
        return 'compiler.vx_call(%s)' % ', '.join(em.e(a) for a in n.args)
    if n.kind == 'path' and n.text in VALFN:
        return VALFN[n.text]
    if n.kind == 'call' and n.f.kind == 'path' and n.f.text == 'value_constructor' and em.f.name == 'value_constructor':
        return 'value_constructor.vx_call(%s)' % ', '.join(em.e(a) for a in n.args)
    if n.kind == 'index' and em.src[n.x.s:n.x.e] == 'self.grammar':
        return '(&%s.exprs_info[%s])' % (em.e(n.x), em.e(n.ix))
    if n.kind == 'macro' and n.name == 'vec' and not em.src[n.body_s:n.body_e].strip():
        return 'Vec::new()'
    if n.kind == 'path' and n.text in FNPTR:
        return '%s::%s' % (FNPTR[n.text], n.text)
    return ityping.node_hook(em, n)

def clones(em, n):
    em.u.drops.add('x.clone(): the copy equals x (derived Clone of syn and plain types)')
    return '%s.vx_clone()' % em.e(n.x) if not n.args else None

def unit():
    u = Unit('compilers')
    q = Quotes()
    astlib.ast(u)
    FNPTR.clear()
    u.text_sub += [(r'\bsyn::Stmt\b', 'SynStmt'), (r'\bsyn::Pat\b', 'SynPat'), (r'\bBox<dyn CompileExpr>', 'VxBox')]
    u.no_use |= {'quote', 'format_ident'}
    u.raw(astlib.DIAG)
    u.enum(GR, 'Type', derive='')
    u.struct(GR, 'ExpressionInfo')
    u.raw(STUB)
    u.raw(astlib.STRUCT)
    u.raw(SPEC)
    u.raw(LEMMAS)
    u.struct(CON, 'Continuation')
    u.struct(CTX, 'Context')
    u.raw(SPEC_OUT)
    u.raw(PEGSPEC)
    structs(u)
    u.raw(BOX)
    u.raw(KEEP)
    u.raw(MEAN)
    u.raw(MEANS)
    u.macros['parse_quote'] = q
    u.mcalls['map_success'] = h_map_success
    u.node_hook = node_hook
    u.fn(CON, CONT, 'new', spec='ensures r.success == $1, r.failure == $2')
    u.fn(CON, CONT, 'unwrap_success', spec='ensures r == self.success')
    u.fn(CON, CONT, 'unwrap', spec='ensures r.0 == self.success, r.1 == self.failure')
    # ---- names (proved in unit names)
    u.trust_all = True
    NEXT = 'ensures !made(old(self).name_factory, r@), made(final(self).name_factory, r@), grows(old(self).name_factory, final(self).name_factory), final(self).free_variables == old(self).free_variables, final(self).grammar == old(self).grammar'
    for fn in ('next_mark_name', 'next_branch_failed_name', 'next_counter_name'):
        u.fn(CTX, 'Context', fn, spec=NEXT)
    u.fn(CTX, 'Context', 'next_free_var', spec='requires old(self).free_variables@.len() > 0 ensures r == old(self).free_variables@.last(), final(self).free_variables@ == old(self).free_variables@.drop_last(), final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar, cok(*old(self)) ==> cok(*final(self)) && made(final(self).name_factory, r@)')
    u.trust_all = False
    u.mcalls.update(clone=clones)
    terminals(u, q)
    makers(u, q)
    heart(u, q)
    sequence(u, q)
    predicates(u, q)
    values(u, q)
    optional(u, q)
    repeat(u, q)
    choice(u, q)
    rules(u, q)
    funcs(u, q)
    actions(u, q)
    u.trust_all = True
    for f, S in COMPILERS:
        if not u.is_contracted(S, CE):
            u.fn(D + f + '.rs', S, CE, trait='CompileExpr', spec=contract(S))
    u.trust_all = False
    return u

def ptr(u, user, alias, fns):
    """a type of function pointers, as the enumeration of the functions it is used for"""
    name = 'Vx' + alias
    for f in fns:
        FNPTR[f] = name
    u.text_sub.append((r'\b%s\b(?!::)' % alias, name))
    u.raw('#[derive(Clone, Copy)] pub enum %s { %s }\n' % (name, ', '.join(fns)))
    return name

SPEC_OUT = r'''
pub open spec fn within(v: CharacterInterval, c: char) -> bool { v.lo as int <= c as int <= v.hi as int }
pub open spec fn in_class(s: Seq<CharacterInterval>, c: char) -> bool { exists|k: int| 0 <= k < s.len() && within(#[trigger] s[k], c) }
impl VxDisplay for CharacterClassExpr { uninterp spec fn display(&self) -> Seq<char>; }
impl VxClone for CharacterClassExpr { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub open spec fn class_out(p: bool, k: CharacterClassExpr, n: nat, s: St) -> Option<Out> { if s.at < text().len() && in_class(k.intervals@, text()[s.at as int]) { good(moved(s, 1), if p { seq![Val::Char(text()[s.at as int])] } else { Seq::empty() }) } else { bad(farther(s.far, s.at, k.display())) } }
// names without a number are never made (lemma_plain of unit names)
pub open spec fn plain(x: Seq<char>) -> bool { forall|k: int| 0 <= k < x.len() ==> !('0' <= #[trigger] x[k] <= '9') }
#[verifier::external_body] pub proof fn lemma_plain(f: NameFactory, x: Seq<char>) requires plain(x) ensures !made(f, x) {}
#[verifier::external_body] pub fn vx_ident(s: String) -> (r: Ident) ensures r@ == s@ { unimplemented!() }

pub open spec fn lit_out(l: Seq<char>, n: nat, s: St) -> Option<Out> { if starts(s.at, l) { good(moved(s, l.len()), Seq::empty()) } else { bad(farther(s.far, s.at, l)) } }
pub open spec fn any_out(p: bool, n: nat, s: St) -> Option<Out> { if s.at < text().len() { good(moved(s, 1), if p { seq![Val::Char(text()[s.at as int])] } else { Seq::empty() }) } else { bad(farther(s.far, s.at, "<character>"@)) } }
pub open spec fn width1(p: bool) -> nat { if p { 1 } else { 0 } }
'''
def h_box(em, n):
    return '(%s).vx_box()' % em.e(n.args[0])

def structs(u):
    """the structures of the compilers, and `Box<dyn CompileExpr>` as the enumeration of those that implement it"""
    ptr(u, 'AnySingleCharCompiler', 'MatchPatternFn', ['ignore_value', 'bind_value'])
    ptr(u, 'CharacterClassCompiler', 'VarInPatternFn', ['bind_x_var', 'bind_var'])
    ptr(u, '', 'ExprCompilerFn', ['recognizer_compiler', 'parser_compiler'])
    u.enum(D + 'mod.rs', 'CompilerKind')
    u.enum(D + 'syntactic_predicate.rs', 'Kind')
    for f, S in COMPILERS:
        u.struct(D + f + '.rs', S)
    u.raw('pub enum VxBox { %s }\n' % ', '.join('%s(%s)' % (S, S) for f, S in COMPILERS))
    u.raw('pub trait VxIntoBox: Sized { spec fn boxed(self) -> VxBox; fn vx_box(self) -> (r: VxBox) ensures r == self.boxed(); }\n' + ''.join('impl VxIntoBox for %s { open spec fn boxed(self) -> VxBox { VxBox::%s(self) } fn vx_box(self) -> (r: VxBox) { VxBox::%s(self) } }\n' % (S, S, S) for f, S in COMPILERS))
    u.calls['Box::new'] = h_box

CE = 'compile_expr'
def contract(S, c='$1', k='$2', box=None, dec=True):
    g, b = 'old(%s).grammar' % c, box or 'VxBox::%s(*self)' % S
    w = 'wide(%s, %s)' % (g, b)
    return 'requires gok({g}), wf({g}, {b}), pre(*old({c}), {k}, {w}) ensures post(*old({c}), *final({c}), {w}), does(r, {k}.success, bouts({g}, {b}), vars(*old({c}), {w})){d}'.format(d=' decreases rank(%s), 0int' % b if S and dec else '', g=g, b=b, w=w, c=c, k=k)

START = 'let ghost vx_old = *$1; let ghost vx_box = VxBox::%s(*self);' + VARS
def terminals(u, q):
    S = 'StrLiteralCompiler'
    f = D + 'str_literal.rs'
    q.at[S, CE] = [('code', 'assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == fin(n, $h1, bouts(vx_old.grammar, vx_box)(n, s), Seq::empty(), e) by { lemma_bound_none(e, e); if let Some(z) = run(n, $h1, moved(s, self.literal@.len()), e) { lemma_bound_none(e, z.e); } }')]
    for n in ('recognizer', 'parser'):
        u.fn(f, S, n, spec='ensures r.literal == $1')
    u.fn(f, S, CE, trait='CompileExpr', proof=START % S, spec=contract(S))
    S = 'AnySingleCharCompiler'
    f = D + 'any_single_char.rs'
    n = FNPTR['ignore_value']
    q.at[None, 'ignore_value'] = q.at[None, 'bind_value'] = [('pat', '')]
    BIND = 'requires cok(*old($1)), old($1).free_variables@.len() >= width1(%(p)s) ensures post(*old($1), *final($1), width1(%(p)s)), pat_names(r) == vars(*old($1), width1(%(p)s)), forall|v: Val| #[trigger] pat_parts(r, v) == seq![v] || !(%(p)s)'
    q.at[None, 'bind_value'] = [('pat', 'lemma_cok(vx_old, *$1, 1);')]
    u.fn(f, None, 'ignore_value', spec=BIND % dict(p='false'), proof=VARS)
    u.fn(f, None, 'bind_value', spec=BIND % dict(p='true'), proof='let ghost vx_old = *$1;' + VARS)
    u.raw('impl %s { pub fn vx_call<\'a>(self, c: &mut Context<\'a>) -> (r: SynPat) %s { match self { %s::ignore_value => ignore_value(c), %s::bind_value => bind_value(c) } } }\n' % (n, BIND.replace('$1', 'c') % dict(p='self is bind_value'), n, n))
    for x, y in (('recognizer', 'ignore_value'), ('parser', 'bind_value')):
        u.fn(f, S, x, spec='ensures r.matched_pattern is %s' % y)
    q.at[S, CE] = [('code', '''let p = self.matched_pattern is bind_value; let xs = vars(vx_old, width1(p)); assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == fin(n, $h1, bouts(vx_old.grammar, vx_box)(n, s), xs, e) by {
  lemma_bound_none(e, e);
  if s.at < text().len() { if p { } else { if let Some(z) = run(n, $h1, moved(s, 1), e) { lemma_bound_none(e, z.e); } } } }''')]
    u.fn(f, S, CE, trait='CompileExpr', proof=START % S, spec=contract(S))

    S = 'CharacterClassCompiler'
    f = D + 'character_class.rs'
    n = FNPTR['bind_var']
    u.macros['format_ident'] = lambda em, n: 'vx_ident(%s)' % em.format(em.src[n.body_s:n.body_e])
    BV = 'requires cok(*old($1)), old($1).free_variables@.len() >= width1(%(p)s) ensures post(*old($1), *final($1), width1(%(p)s)), %(p)s ==> vars(*old($1), 1) == seq![r@] && made(old($1).name_factory, r@), !(%(p)s) ==> forall|f: NameFactory| !#[trigger] made(f, r@)'
    u.fn(f, None, 'bind_x_var', spec=BV % dict(p='false'), proof=VARS + """ proof { reveal_strlit("x"); assert forall|f: NameFactory| !#[trigger] made(f, "x"@) by { lemma_plain(f, "x"@); } assert(Seq::<char>::empty() + "x"@ =~= "x"@); }""")
    u.fn(f, None, 'bind_var', spec=BV % dict(p='true'), proof=VARS + ' proof { let a = *$1; assert forall|b: Context| b.grammar == a.grammar && b.name_factory == a.name_factory && b.free_variables@ == a.free_variables@.drop_last() implies #[trigger] cok(b) by { lemma_cok(a, b, 1); } }')
    u.raw('impl %s { pub fn vx_call<\'a>(self, c: &mut Context<\'a>) -> (r: Ident) %s { match self { %s::bind_x_var => bind_x_var(c), %s::bind_var => bind_var(c) } } }\n' % (n, BV.replace('$1', 'c') % dict(p='self is bind_var'), n, n))
    u.trust_all = True
    u.fn(f, S, 'compile_condition', spec='requires self.classes.intervals@.len() > 0 ensures forall|c: char| #[trigger] holds(r, $1@, c) == in_class(self.classes.intervals@, c)')
    u.trust_all = False
    for x, y in (('recognizer', 'bind_x_var'), ('parser', 'bind_var')):
        u.fn(f, S, x, spec='ensures r.classes == $1, r.bounded_var is %s' % y)
    q.at[S, CE] = [('code', """let p = self.bounded_var is bind_var; let xs = vars(vx_old, width1(p)); let m = $h0@; let x = $h1@;
assert(blind($h3, m));
if !p { assert(blind($h3, x)); } assert(m != x);
assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == fin(n, $h3, bouts(vx_old.grammar, vx_box)(n, s), xs, e) by {
  let w = Val::Mark(s.at); let e1 = set(e, m, w); lemma_bound_none(e, e); lemma_bound_one_all(e, x); lemma_bound_one_all(e1, x); lemma_unbound_none(e, m, w); lemma_set_same(e, m);
  if s.at < text().len() { let c = Val::Char(text()[s.at as int]); let s1 = moved(s, 1);
    if p { lemma_scopes($h3, m, w, x, c, n, s1, e); } else { lemma_scopes_blind($h3, m, w, x, c, n, s1, e); if let Some(z) = run(n, $h3, s1, e) { lemma_bound_none(e, z.e); } } }
}""")]
    u.fn(f, S, CE, trait='CompileExpr', proof=START % S, spec=contract(S))

def makers(u, q):
    """how the compilers are made"""
    for f, S, names in (('sequence', 'SequenceCompiler', 'seq'), ('choice', 'ChoiceCompiler', 'choices')):
        for x in ('recognizer', 'parser'):
            u.fn(D + f + '.rs', S, x, spec='ensures r.%s == $1, r.compiler is %s_compiler' % (names, x))
    for x, k in (('recognizer', 'Recognizer'), ('parser', 'Parser')):
        u.fn(D + 'repeat.rs', 'RepeatCompiler', x, spec='ensures r.expr_idx == $1, r.cardinality_min == $2, r.compiler_kind is %s' % k)
        u.fn(D + 'optional.rs', 'OptionalCompiler', x, spec='ensures r.expr_idx == $1, r.compiler_kind is %s' % k)
    u.fn(D + 'syntactic_predicate.rs', 'SyntacticPredicateCompiler', 'recognizer', spec='ensures r.expr_idx == $1, r.kind == $2')
    N = 'NonTerminalCompiler'
    u.raw('pub struct NonTerminalCompiler;\n')
    q.at[N, 'recognizer'] = q.at[N, 'parser'] = [('path', '')]
    u.fn(D + 'non_terminal.rs', N, 'recognizer', spec='ensures r.path == path_of($1@)')
    u.fn(D + 'non_terminal.rs', N, 'parser', spec='ensures r.path == path_of($1@), r.this_idx == $2')
    u.fn(D + 'non_terminal.rs', N, 'external_recognizer', spec='ensures r.path == $1')
    u.fn(D + 'non_terminal.rs', N, 'external_parser', spec='ensures r.path == $1, r.this_idx == $2')
    u.fn(D + 'semantic_action.rs', 'SemanticActionCompiler', 'parser', spec='ensures r.expr_idx == $1, r.boxed == $2, r.action == $3')
    u.fn(D + 'spanned_expr.rs', 'SpannedExprCompiler', 'parser', spec='ensures r.expr_idx == $1, r.is_ranged == $2')

KEEP = r'''
// ---- code that goes no further than to keep the values under a name: `state`, `{ x = Some(v); state }`, `{ x.push(v); state }`
pub ghost enum Keep { No, So(Seq<char>), Push(Seq<char>) }
pub open spec fn kept(k: Keep, e: Env, v: Val) -> Env { match k { Keep::No => e, Keep::So(x) => set(e, x, some_of(v)), Keep::Push(x) => set(e, x, pushed(e(x), v)) } }
pub open spec fn keeper(k: Keep, xs: Seq<Seq<char>>) -> bool { match k { Keep::No => true, Keep::So(x) => !xs.contains(x), Keep::Push(x) => !xs.contains(x) } }
pub open spec fn env_vals(e: Env, xs: Seq<Seq<char>>) -> Seq<Val> { Seq::new(xs.len(), |k: int| e(xs[k])) }
pub open spec fn keeps(c: SynExpr, xs: Seq<Seq<char>>, k: Keep) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, c, s, e) == Some(Rs { s, e: kept(k, e, tup(env_vals(e, xs))) }) }
// the code r, alone, does what o says, and changes nothing else
pub open spec fn end(o: Option<Out>, k: Keep, e: Env) -> Option<Rs> { match o { None => None, Some(o) => Some(Rs { s: o.s, e: if o.s.ok { kept(k, e, tup(o.v)) } else { e } }) } }
pub open spec fn alone(r: SynExpr, o: Outs, k: Keep) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == end(o(n, s), k, e) }
pub open spec fn keeping(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>) -> bool { forall|k: Keep| #[trigger] keeps(succ, xs, k) && keeper(k, xs) ==> alone(r, o, k) }
pub proof fn lemma_env_vals(e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>) requires xs.no_duplicates(), xs.len() == vs.len() ensures env_vals(bound(e, xs, vs), xs) == vs
{ assert forall|k: int| 0 <= k < xs.len() implies bound(e, xs, vs)(#[trigger] xs[k]) == vs[k] by { assert(xs.contains(xs[k])); assert(xs[xs.index_of(xs[k])] == xs[k]); } assert(env_vals(bound(e, xs, vs), xs) =~= vs); }
pub proof fn lemma_keeping(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>) requires does(r, succ, o, xs), sound(o, xs.len()), xs.no_duplicates() ensures keeping(r, succ, o, xs)
{
  assert forall|k: Keep| #[trigger] keeps(succ, xs, k) && keeper(k, xs) implies alone(r, o, k) by {
    assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == end(o(n, s), k, e) by {
      assert(run(n, r, s, e) == fin(n, succ, o(n, s), xs, e));
      if let Some(q) = o(n, s) { if q.s.ok {
        let f = bound(e, xs, q.v); lemma_env_vals(e, xs, q.v); assert(run(n, succ, q.s, f) == Some(Rs { s: q.s, e: kept(k, f, tup(q.v)) }));
        match k { Keep::No => {}, Keep::So(x) => { assert(f(x) == e(x)); }, Keep::Push(x) => { assert(f(x) == e(x)); } }
        assert(unbound(kept(k, f, tup(q.v)), e, xs) =~= kept(k, e, tup(q.v)));
      } }
    }
  }
}
pub proof fn lemma_stops(k: SynExpr, f: NameFactory) requires keeps(k, Seq::empty(), Keep::No) ensures fresh(k, f) { reveal(blind); }
pub proof fn lemma_failing(k: SynExpr, f: NameFactory) requires failing(k) ensures fresh(k, f) { reveal(blind); }
'''
COMBINE = r'''
// the last a + b free variables: a of what is left after the last b were taken, then these
pub proof fn lemma_vars_split(c: Context, m: Context, a: nat, b: nat) requires a + b <= c.free_variables@.len(), m.free_variables@ =~= c.free_variables@.take(c.free_variables@.len() - b) ensures vars(c, a + b) == vars(m, a) + vars(c, b)
{ assert(vars(c, a + b) =~= vars(m, a) + vars(c, b)); }
pub proof fn lemma_bound_bound(e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>, ys: Seq<Seq<char>>, ws: Seq<Val>) requires xs.len() == vs.len(), ys.len() == ws.len(), (xs + ys).no_duplicates() ensures bound(bound(e, xs, vs), ys, ws) == bound(e, xs + ys, vs + ws)
{
  let zs = xs + ys;
  assert forall|y: Seq<char>| bound(bound(e, xs, vs), ys, ws)(y) == #[trigger] bound(e, zs, vs + ws)(y) by {
    if ys.contains(y) { let k = ys.index_of(y); assert(zs[xs.len() + k] == y); assert(zs.index_of(y) == xs.len() + k) by { assert(zs[zs.index_of(y)] == y); } }
    else if xs.contains(y) { let k = xs.index_of(y); assert(zs[k] == y); assert(zs.index_of(y) == k) by { assert(zs[zs.index_of(y)] == y); } }
    else if zs.contains(y) { let k = zs.index_of(y); if k < xs.len() { assert(xs[k] == y); } else { assert(ys[k - xs.len()] == y); } }
  }
  assert(bound(bound(e, xs, vs), ys, ws) =~= bound(e, zs, vs + ws));
}
pub proof fn lemma_unbound_unbound(f: Env, e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>, ys: Seq<Seq<char>>) requires (xs + ys).no_duplicates() ensures unbound(unbound(f, bound(e, xs, vs), ys), e, xs) == unbound(f, e, xs + ys)
{
  let zs = xs + ys;
  assert forall|y: Seq<char>| unbound(unbound(f, bound(e, xs, vs), ys), e, xs)(y) == #[trigger] unbound(f, e, zs)(y) by {
    if xs.contains(y) { let k = xs.index_of(y); assert(zs[k] == y); }
    else if ys.contains(y) { let k = ys.index_of(y); assert(zs[xs.len() + k] == y); }
    else if zs.contains(y) { let k = zs.index_of(y); if k < xs.len() { assert(xs[k] == y); } else { assert(ys[k - xs.len()] == y); } }
  }
  assert(unbound(unbound(f, bound(e, xs, vs), ys), e, xs) =~= unbound(f, e, zs));
}
pub proof fn lemma_unbound_bound(e: Env, xs: Seq<Seq<char>>, vs: Seq<Val>) ensures unbound(bound(e, xs, vs), e, xs) == e { assert(unbound(bound(e, xs, vs), e, xs) =~= e); }
// one expression after the other
pub proof fn lemma_after(r: SynExpr, mid: SynExpr, succ: SynExpr, a: Outs, b: Outs, o: Outs, xs: Seq<Seq<char>>, ys: Seq<Seq<char>>)
  requires does(r, mid, a, xs), does(mid, succ, b, ys), sound(a, xs.len()), sound(b, ys.len()), (xs + ys).no_duplicates(),
    forall|n: nat, s: St| ready(s) ==> #[trigger] o(n, s) == (match a(n, s) { None => None, Some(x) => if x.s.ok { then(b(n, x.s), x.v) } else { Some(x) } })
  ensures does(r, succ, o, xs + ys)
{
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, o(n, s), xs + ys, e) by {
    assert(o(n, s) == o(n, s));
    if let Some(x) = a(n, s) { if x.s.ok {
      let e1 = bound(e, xs, x.v);
      assert(run(n, mid, x.s, e1) == fin(n, succ, b(n, x.s), ys, e1));
      if let Some(y) = b(n, x.s) {
        if y.s.ok {
          lemma_bound_bound(e, xs, x.v, ys, y.v);
          if let Some(z) = run(n, succ, y.s, bound(e1, ys, y.v)) { lemma_unbound_unbound(z.e, e, xs, x.v, ys); }
        } else { lemma_unbound_bound(e, xs, x.v); }
      }
    } }
  }
}
pub proof fn lemma_does_none(k: SynExpr, o: Outs) requires forall|n: nat, s: St| ready(s) ==> #[trigger] o(n, s) == good(s, Seq::empty()) ensures does(k, k, o, Seq::empty())
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, k, s, e) == fin(n, k, o(n, s), Seq::empty(), e) by { lemma_bound_none(e, e); assert(o(n, s) == o(n, s)); if let Some(z) = run(n, k, s, e) { lemma_bound_none(e, z.e); } } }
pub open spec fn seq_outs(g: &TGrammar, p: bool, js: Seq<usize>) -> Outs { |n: nat, s: St| peg_seq(g, p, n, size(g), js, s) }
// the expressions js, the last of a sequence, are compiled: k is the code to go on with before them
#[verifier::opaque] pub open spec fn tail_done(a: Context, b: Context, k0: Continuation, k: Continuation, p: bool, js: Seq<usize>) -> bool {
  let w = total(a.grammar, p, js);
  w <= a.free_variables@.len() && post(a, b, w) && k.failure == k0.failure && does(k.success, k0.success, seq_outs(a.grammar, p, js), vars(a, w)) && fresh(k.success, b.name_factory)
}
pub proof fn lemma_tail_none(a: Context, k0: Continuation, p: bool) requires cok(a), fresh(k0.success, a.name_factory) ensures tail_done(a, a, k0, k0, p, Seq::empty())
{ reveal(tail_done); lemma_does_none(k0.success, seq_outs(a.grammar, p, Seq::empty())); lemma_vars(a); assert(a.free_variables@.take(a.free_variables@.len() - 0) =~= a.free_variables@); }
pub proof fn lemma_total_split(g: &TGrammar, p: bool, js: Seq<usize>, i: int) requires 0 <= i <= js.len() ensures total(g, p, js.skip(i)) <= total(g, p, js), i < js.len() ==> total(g, p, js.skip(i)) == wd(g, p, js[i] as int) + total(g, p, js.skip(i + 1)) decreases i
{ if i < js.len() { assert(js.skip(i).drop_first() =~= js.skip(i + 1)); } if i > 0 { lemma_total_split(g, p, js, i - 1); assert(js.skip(i - 1).drop_first() =~= js.skip(i)); } else { assert(js.skip(0) =~= js); } }
pub proof fn lemma_tail_step(a: Context, b: Context, c: Context, k0: Continuation, k: Continuation, l: Continuation, p: bool, all: Seq<usize>, i: int)
  requires gok(a.grammar), cok(a), total(a.grammar, p, all) <= a.free_variables@.len(), in_g(a.grammar, all), 0 <= i < all.len(), tail_done(a, b, k0, k, p, all.skip(i + 1)), compiled(b, c, l.success, k.success, p, all[i] as int), l.failure == k.failure
  ensures tail_done(a, c, k0, l, p, all.skip(i))
{
  reveal(tail_done); let g = a.grammar; let js = all.skip(i); let ks = all.skip(i + 1); lemma_total_split(g, p, all, i); assert(js.drop_first() =~= ks); assert(js[0] == all[i]);
  let w = total(g, p, ks); let v = wd(g, p, all[i] as int);
  lemma_vars_split(a, b, v, w); lemma_vars_made(a, v + w); lemma_vars_made(b, v); lemma_vars_made(a, w);
  let x = outs(g, p, all[i] as int); let y = seq_outs(g, p, ks); let o = seq_outs(g, p, js);
  lemma_peg_outs(g, p, all[i] as int); 
  assert(in_g(g, ks)) by { assert forall|k: int| 0 <= k < ks.len() implies (#[trigger] ks[k]) < size(g) by { assert(ks[k] == all[k + i + 1]); } }
  lemma_seq_outs(g, p, ks);
  lemma_after(l.success, k.success, k0.success, x, y, o, vars(b, v), vars(a, w));
  assert(c.free_variables@ =~= a.free_variables@.take(a.free_variables@.len() - (v + w)));
}
pub proof fn lemma_seq_outs(g: &TGrammar, p: bool, js: Seq<usize>) requires gok(g), in_g(g, js) ensures sound(seq_outs(g, p, js), total(g, p, js))
{ let f = seq_outs(g, p, js); assert forall|n: nat, s: St| ready(s) implies match #[trigger] f(n, s) { None => true, Some(o) => if o.s.ok { ready(o.s) && o.v.len() == total(g, p, js) } else { o.s == failed(o.s.far) } } by { lemma_seq_sound(g, p, n, size(g), js, s); } }
'''
def sequence(u, q):
    u.raw(COMBINE)
    S = 'SequenceCompiler'
    INV = 'invariant gok(vx_old.grammar), cok(vx_old), total(vx_old.grammar, is_p(self.compiler), self.seq@) <= vx_old.free_variables@.len(), in_g(vx_old.grammar, self.seq@), failing(vx_k.failure), $s@ == self.seq@, $i <= $s@.len(), tail_done(vx_old, *$1, vx_k, $o, is_p(self.compiler), self.seq@.skip($s@.len() - $i))\n decreases $s@.len() - $i'
    u.fn(D + 'sequence.rs', S, CE, trait='CompileExpr', proof='let ghost vx_k = $2; ' + START % S, spec=contract(S), loops=[Loop('chain', INV, it='rev.fold',
        pre='proof { assert(self.seq@.skip($s@.len() as int) =~= Seq::<usize>::empty()); lemma_tail_none(vx_old, vx_k, is_p(self.compiler)); }',
        body='let ghost vx_c0 = *$1; let ghost vx_k0 = $o; proof { reveal(tail_done); lemma_total_split(vx_old.grammar, is_p(self.compiler), self.seq@, $s@.len() - 1 - $i); lemma_sup(self.seq@); }',
        tail='proof { lemma_tail_step(vx_old, vx_c0, *$1, vx_k, vx_k0, $o, is_p(self.compiler), self.seq@, $s@.len() - 1 - $i); }',
        after='proof { reveal(tail_done); assert(self.seq@.skip(0) =~= self.seq@); lemma_does_same($o.success, vx_k.success, seq_outs(vx_old.grammar, is_p(self.compiler), self.seq@), bouts(vx_old.grammar, vx_box), vars(vx_old, wide(vx_old.grammar, vx_box))); }')])

PRED = '''
pub open spec fn pred_run(n: nat, a: SynExpr, b: SynExpr, o: Option<Out>, s: St, e: Env) -> Option<Rs> { match o { None => None, Some(o) => run(n, if o.s.ok { a } else { b }, St { ok: true, at: s.at, far: o.s.far, data: None }, e) } }
pub open spec fn predicates(r: SynExpr, a: SynExpr, b: SynExpr, o: Outs) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == pred_run(n, a, b, o(n, s), s, e) }
pub proof fn lemma_pred(r: SynExpr, succ: SynExpr, fail: SynExpr, not: bool, o: Outs, q: Outs) requires predicates(r, if not { fail } else { succ }, if not { succ } else { fail }, o), failing(fail), sound(o, 0), forall|n: nat, s: St| ready(s) ==> #[trigger] q(n, s) == pred_of(not, o(n, s), s) ensures does(r, succ, q, Seq::empty())
{
  let a = if not { fail } else { succ }; let b = if not { succ } else { fail };
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, q(n, s), Seq::empty(), e) by {
    assert(run(n, r, s, e) == pred_run(n, a, b, o(n, s), s, e)); assert(q(n, s) == pred_of(not, o(n, s), s));
    if let Some(x) = o(n, s) { let t = St { ok: true, at: s.at, far: x.s.far, data: None }; lemma_bound_none(e, e); assert(run(n, fail, t, e) == Some(Rs { s: failed(t.far), e })); if let Some(z) = run(n, succ, t, e) { lemma_bound_none(e, z.e); } }
  }
}
'''
def predicates(u, q):
    u.raw(PRED)
    STOP = ('code', 'if keeps($q, Seq::empty(), Keep::No) { lemma_stops($q, %s.name_factory); }')      # of `state`, whichever of the two it is
    q.at['Context', 'compile_recognizer_expr'] = [(STOP[0], STOP[1] % 'self')] * 2
    u.fn(CTX, 'Context', 'compile_recognizer_expr', spec='requires gok(old(self).grammar), $1 < size(old(self).grammar), cok(*old(self)) ensures post(*old(self), *final(self), 0), alone(r, outs(old(self).grammar, false, $1 as int), Keep::No), fresh(r, final(self).name_factory) decreases $1, 5int', proof='proof { lemma_vars(*self); }')
    S = 'SyntacticPredicateCompiler'
    q.at[S, 'compile'] = [(STOP[0], STOP[1] % '$1' + ' lemma_vars(*$1);')] * 2 + [('code', """let m = $h0@; let o = outs(vx_old.grammar, false, self.expr_idx as int);
assert(blind($h2, m)); assert(blind($h3, m)); lemma_peg_outs(vx_old.grammar, false, self.expr_idx as int);
assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == pred_run(n, $h2, $h3, o(n, s), s, e) by { let w = Val::Mark(s.at); lemma_unbound_none(e, m, w); 
  assert(run(n, $h1, s, set(e, m, w)) == end(o(n, s), Keep::No, set(e, m, w)));
  if let Some(x) = o(n, s) { let t = St { ok: true, at: s.at, far: x.s.far, data: None }; let c = if x.s.ok { $h2 } else { $h3 }; lemma_blind(c, m, n, t, e, w); } }""")]
    u.fn(D + 'syntactic_predicate.rs', S, 'compile', spec='requires gok(old($1).grammar), self.expr_idx < size(old($1).grammar), cok(*old($1)), fresh($2, old($1).name_factory), fresh($3, old($1).name_factory) ensures post(*old($1), *final($1), 0), predicates(r, $2, $3, outs(old($1).grammar, false, self.expr_idx as int)) decreases self.expr_idx, 6int', proof='let ghost vx_old = *$1;' + VARS)
    u.fn(D + 'syntactic_predicate.rs', S, CE, trait='CompileExpr', proof=START % S + """ let ghost vx_k = $2; proof { let g = vx_old.grammar; let o = outs(g, false, self.expr_idx as int); lemma_failing($2.failure, $1.name_factory); lemma_peg_outs(g, false, self.expr_idx as int);
let nt = self.kind is Not; let b = bouts(g, vx_box); let sc = vx_k.success; let fl = vx_k.failure;
if nt { assert forall|x: SynExpr| #[trigger] predicates(x, fl, sc, o) implies does(x, sc, b, Seq::empty()) by { lemma_pred(x, sc, fl, true, o, b); } } else { assert forall|x: SynExpr| #[trigger] predicates(x, sc, fl, o) implies does(x, sc, b, Seq::empty()) by { lemma_pred(x, sc, fl, false, o, b); } } }""", spec=contract(S))

VALUES = r'''
pub trait VxVals { spec fn vx_vals(&self, s: St, e: Env) -> Seq<Val>; }
impl VxVals for Vec<Ident> { open spec fn vx_vals(&self, s: St, e: Env) -> Seq<Val> { env_vals(e, texts(self@)) } }
impl VxVals for Vec<SynExpr> { open spec fn vx_vals(&self, s: St, e: Env) -> Seq<Val> { Seq::new(self@.len(), |k: int| value(self@[k], s, e)) } }
pub open spec fn tuple_of(v: SynExpr, xs: Seq<Seq<char>>) -> bool { forall|s: St, e: Env| #[trigger] value(v, s, e) == tup(env_vals(e, xs)) }
pub open spec fn all_made(f: NameFactory, xs: Seq<Seq<char>>) -> bool { forall|x: Seq<char>| #[trigger] xs.contains(x) ==> made(f, x) }
pub open spec fn keep_made(f: NameFactory, k: Keep) -> bool { match k { Keep::No => true, Keep::So(x) => made(f, x), Keep::Push(x) => made(f, x) } }
pub proof fn lemma_keeps_fresh(c: SynExpr, xs: Seq<Seq<char>>, k: Keep, f: NameFactory) requires keeps(c, xs, k), all_made(f, xs), keep_made(f, k) ensures fresh(c, f)
{
  assert forall|y: Seq<char>| !made(f, y) implies #[trigger] blind(c, y) by {
    reveal(blind);
    assert forall|n: nat, s: St, e: Env, v: Val| ready(s) implies #[trigger] run(n, c, s, set(e, y, v)) == put(run(n, c, s, e), y, v) by {
      assert(!xs.contains(y)); let a = env_vals(set(e, y, v), xs); let b = env_vals(e, xs);
      assert forall|i: int| 0 <= i < xs.len() implies a[i] == b[i] by { assert(xs.contains(xs[i])); } assert(a =~= b);
      assert(run(n, c, s, e) == Some(Rs { s, e: kept(k, e, tup(b)) }));
      assert(kept(k, set(e, y, v), tup(a)) =~= set(kept(k, e, tup(b)), y, v));
    }
  }
}
// the code of a value constructor: (its name, the code of the value) -> keeps the value
pub open spec fn keeper_of(r: SynExpr, x: Seq<char>, v: SynExpr, k: Keep) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, r, s, e) == Some(Rs { s, e: kept(k, e, value(v, s, e)) }) }
pub proof fn lemma_keeper_of(r: SynExpr, x: Seq<char>, v: SynExpr, k: Keep) requires keeper_of(r, x, v, k), keep_made_of(k, x)
  ensures forall|xs: Seq<Seq<char>>| #[trigger] tuple_of(v, xs) ==> keeps(r, xs, k), forall|xs: Seq<Seq<char>>, f: NameFactory| tuple_of(v, xs) && made(f, x) && #[trigger] all_made(f, xs) ==> fresh(r, f)
{
  assert forall|xs: Seq<Seq<char>>| #[trigger] tuple_of(v, xs) implies keeps(r, xs, k) by { assert forall|n: nat, s: St, e: Env| #[trigger] run(n, r, s, e) == Some(Rs { s, e: kept(k, e, tup(env_vals(e, xs))) }) by { assert(value(v, s, e) == tup(env_vals(e, xs))); } }
  assert forall|xs: Seq<Seq<char>>, f: NameFactory| tuple_of(v, xs) && made(f, x) && #[trigger] all_made(f, xs) implies fresh(r, f) by { assert(keeps(r, xs, k)); lemma_keeps_fresh(r, xs, k, f); }
}
pub open spec fn keep_made_of(k: Keep, x: Seq<char>) -> bool { match k { Keep::No => true, Keep::So(y) => y == x, Keep::Push(y) => y == x } }
pub proof fn lemma_vars_all(c: Context) ensures vars(c, c.free_variables@.len()) == texts(c.free_variables@) { assert(vars(c, c.free_variables@.len()) =~= texts(c.free_variables@)); }
pub open spec fn scope_of(s: Scope, c: Context) -> bool { s.free_variables@ == c.free_variables@ && s.mut_ref_free_variables@ == c.mut_ref_free_variables@ }
// code that leaves a ready state or a failed one
pub open spec fn tidy(c: SynExpr) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> match #[trigger] run(n, c, s, e) { None => true, Some(r) => if r.s.ok { ready(r.s) } else { r.s == failed(r.s.far) } } }
pub proof fn lemma_tidy(r: SynExpr, o: Outs, k: Keep, w: nat) requires alone(r, o, k), sound(o, w) ensures tidy(r) { }
pub open spec fn back_to(s: St, f: Far) -> St { St { ok: true, at: s.at, far: f, data: None } }
'''
OPTIONAL = r'''
// go on with succ, after the expression, or from where it started when it fails
pub open spec fn opt_end(n: nat, succ: SynExpr, o: Option<Out>, k: Keep, s: St, e: Env) -> Option<Rs> { match o { None => None, Some(o) => if o.s.ok { run(n, succ, o.s, kept(k, e, tup(o.v))) } else { run(n, succ, back_to(s, o.s.far), e) } } }
pub open spec fn opts(r: SynExpr, succ: SynExpr, o: Outs, k: Keep) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == opt_end(n, succ, o(n, s), k, s, e) }
pub proof fn lemma_opts_rec(r: SynExpr, succ: SynExpr, o: Outs, q: Outs) requires opts(r, succ, o, Keep::No), forall|n: nat, s: St| ready(s) ==> #[trigger] q(n, s) == opt_of(false, o(n, s), s) ensures does(r, succ, q, Seq::empty())
{
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, q(n, s), Seq::empty(), e) by {
    assert(run(n, r, s, e) == opt_end(n, succ, o(n, s), Keep::No, s, e)); assert(q(n, s) == opt_of(false, o(n, s), s)); lemma_bound_none(e, e);
    if let Some(x) = o(n, s) { if let Some(z) = run(n, succ, x.s, e) { lemma_bound_none(e, z.e); } if let Some(z) = run(n, succ, back_to(s, x.s.far), e) { lemma_bound_none(e, z.e); } }
  }
}
// the value is kept under the name x
pub proof fn lemma_opts_par(n: nat, r: SynExpr, succ: SynExpr, o: Outs, q: Outs, x: Seq<char>, s: St, e: Env) requires opts(r, succ, o, Keep::So(x)), ready(s), q(n, s) == opt_of(true, o(n, s), s)
  ensures fin(n, succ, q(n, s), seq![x], e) == (match run(n, r, s, set(e, x, Val::No)) { None => None, Some(z) => Some(Rs { s: z.s, e: unbound(z.e, e, seq![x]) }) })
{
  let e1 = set(e, x, Val::No); assert(run(n, r, s, e1) == opt_end(n, succ, o(n, s), Keep::So(x), s, e1)); lemma_bound_one_all(e, x);
  if let Some(y) = o(n, s) { lemma_set_set(e, x, Val::No, some_of(tup(y.v))); }
}
'''
def values(u, q):
    u.raw(VALUES)
    q.at[None, 'tuple_value'] = [('value', '')]
    u.fn(D + 'value.rs', None, 'tuple_value', spec='ensures tuple_of(r, texts($1@))')
    for S, n in (('OptionalCompiler', 'So'), ('RepeatCompiler', 'Push')):
        q.at[S, 'value_constructor'] = [('code', 'lemma_keeper_of($q, $1@, $2, Keep::%s($1@));' % n)]
        u.fn(D + ('optional.rs' if n == 'So' else 'repeat.rs'), S, 'value_constructor', spec=VC % ('Keep::%s($1@)' % n))
    VALFN.clear()
    VALFN.update({'%s::value_constructor' % S: 'VxValueFn::%s' % S for S in ('OptionalCompiler', 'RepeatCompiler')})
    u.raw('''pub enum VxValueFn { OptionalCompiler, RepeatCompiler }
pub open spec fn keep_of(f: VxValueFn, x: Seq<char>) -> Keep { match f { VxValueFn::OptionalCompiler => Keep::So(x), VxValueFn::RepeatCompiler => Keep::Push(x) } }
impl VxValueFn { pub fn vx_call(self, a: Ident, b: SynExpr) -> (r: SynExpr) %s { match self { VxValueFn::OptionalCompiler => OptionalCompiler::value_constructor(a, b), VxValueFn::RepeatCompiler => RepeatCompiler::value_constructor(a, b) } } }
''' % (VC.replace('$1', 'a').replace('$2', 'b') % 'keep_of(self, a@)'))
    # ---- scopes
    u.struct(CTX, 'Scope')
    KEEP = 'final(self).free_variables == old(self).free_variables, final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar'
    u.trust_all = True
    u.raw('impl NameFactory { #[verifier::external_body] pub fn fresh_vars(&mut self, n: usize) -> (r: Vec<Ident>) ensures r@.len() == n, texts(r@).no_duplicates(), grows(*old(self), *final(self)), forall|x: Seq<char>| #[trigger] texts(r@).contains(x) ==> !made(*old(self), x) && made(*final(self), x), forall|i: int| 0 <= i < r@.len() ==> made(*final(self), (#[trigger] r@[i])@) { unimplemented!() } }')
    u.trust_all = False
    u.fn(GR, 'Type', 'cardinality', spec='ensures r as nat == card(*self)')
    u.fn(GR, 'ExprType', 'type_cardinality', spec='ensures r as nat == card(self.ty)')
    u.fn(CTX, 'Context', 'expr_cardinality', spec='requires gok(self.grammar), $1 < size(self.grammar) ensures r as nat == card(ty_of(self.grammar, $1 as int))')
    u.fn(CTX, 'Context', 'free_variables', spec='ensures r@ == self.free_variables@')
    u.fn(CTX, 'Context', 'push_mut_ref_fv', spec='ensures %s, final(self).mut_ref_free_variables@.len() > 0' % KEEP)
    u.fn(CTX, 'Scope', 'new', spec='ensures r.free_variables == $2, r.mut_ref_free_variables == $3')
    u.fn(CTX, 'Context', 'save_scope', spec='ensures scope_of(r, *self)')
    u.fn(CTX, 'Context', 'restore_scope', spec='ensures scope_of($1, *final(self)), final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar')
    u.fn(CTX, 'Context', 'open_scope', spec='requires gok(old(self).grammar), $1 < size(old(self).grammar), cok(*old(self)) ensures scope_of(r, *old(self)), final(self).grammar == old(self).grammar, grows(old(self).name_factory, final(self).name_factory), cok(*final(self)), final(self).free_variables@.len() == wd(final(self).grammar, true, $1 as int), all_made(final(self).name_factory, texts(final(self).free_variables@)), vars(*final(self), wd(final(self).grammar, true, $1 as int)) == texts(final(self).free_variables@), forall|x: Seq<char>| made(old(self).name_factory, x) ==> !#[trigger] texts(final(self).free_variables@).contains(x)', proof='proof { assert forall|c: Context| #[trigger] vars(c, c.free_variables@.len()) == texts(c.free_variables@) by { lemma_vars_all(c); } }')
    u.fn(CTX, 'Context', 'close_scope', spec='requires old(self).free_variables@.len() == 0 ensures scope_of($1, *final(self)), final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar')
    q.at['Context', 'value_constructor'] = [('code', '')]
    u.fn(CTX, 'Context', 'value_constructor', subst=[(r'\bF\b', 'VxValueFn')], generics='', nowhere=True, spec='requires gok(old(self).grammar), $1 < size(old(self).grammar), cok(*old(self)), old(self).free_variables@.len() > 0 ensures post(*old(self), *final(self), 1), vars(*old(self), 1) == seq![r.1@], alone(r.0, outs(old(self).grammar, true, $1 as int), keep_of($3, r.1@)), made(final(self).name_factory, r.1@), fresh(r.0, final(self).name_factory) decreases $1, 5int', proof='let ghost vx_old = *self; proof { lemma_vars(*self); }')

def optional(u, q):
    u.raw(OPTIONAL)
    S = 'OptionalCompiler'
    f = D + 'optional.rs'
    q.at[S, 'compile'] = [('code', '''let m = $h0@; assert(blind($h1, m)); assert(blind($h2, m));
assert forall|o: Outs, k: Keep| #[trigger] alone($h1, o, k) implies opts($q, $h2, o, k) by { assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == opt_end(n, $h2, o(n, s), k, s, e) by {
  let w = Val::Mark(s.at); lemma_unbound_none(e, m, w); lemma_blind($h1, m, n, s, e, w); assert(run(n, $h1, s, e) == end(o(n, s), k, e));
  if let Some(x) = o(n, s) { let e2 = if x.s.ok { kept(k, e, tup(x.v)) } else { e }; if x.s.ok { lemma_blind_in($h2, m, n, x.s, e2, e, w); } else { lemma_blind_in($h2, m, n, back_to(s, x.s.far), e2, e, w); } } } }''')]
    u.fn(f, S, 'compile', spec='requires cok(*old($1)), tidy($3), fresh($3, old($1).name_factory), fresh($2.success, old($1).name_factory) ensures post(*old($1), *final($1), 0), forall|o: Outs, k: Keep| #[trigger] alone($3, o, k) ==> opts(r, $2.success, o, k)', proof=VARS)
    PRE = START % S + """ let ghost vx_k = $2; let ghost vx_o = outs(vx_old.grammar, %s, self.expr_idx as int); let ghost vx_b = bouts(vx_old.grammar, vx_box); proof { lemma_peg_outs(vx_old.grammar, %s, self.expr_idx as int); assert forall|x: SynExpr, k: Keep| #[trigger] alone(x, vx_o, k) implies tidy(x) by { lemma_tidy(x, vx_o, k, wd(vx_old.grammar, %s, self.expr_idx as int)); } %s }"""
    C = contract(S, dec=False)
    u.fn(f, S, 'compile_recognizer', spec=C.replace('requires ', 'requires !kind_p(self.compiler_kind), ') + ' decreases self.expr_idx, 6int', proof=PRE % ('false', 'false', 'false', 'assert forall|x: SynExpr| #[trigger] opts(x, vx_k.success, vx_o, Keep::No) implies does(x, vx_k.success, vx_b, Seq::empty()) by { lemma_opts_rec(x, vx_k.success, vx_o, vx_b); }'))
    q.at[S, 'compile_parser'] = [('type', ''), ('code', '''let x = $h0@; assert(opts($h1, vx_k.success, vx_o, Keep::So(x)));
assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == fin(n, vx_k.success, vx_b(n, s), seq![x], e) by { lemma_opts_par(n, $h1, vx_k.success, vx_o, vx_b, x, s, e); }''')]
    u.fn(f, S, 'compile_parser', spec=C.replace('requires ', 'requires kind_p(self.compiler_kind), ') + ' decreases self.expr_idx, 6int', proof=PRE % ('true', 'true', 'true', ''))
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S))

REPEAT = r'''
// the environment within the loop: where the last round ended, how many rounds there were
pub open spec fn marks(e: Env, m: Seq<char>, p: nat, c: Option<Seq<char>>, j: int) -> Env { match c { None => set(e, m, Val::Mark(p)), Some(c) => set(set(e, m, Val::Mark(p)), c, Val::Count(j)) } }
pub open spec fn names2(m: Seq<char>, c: Option<Seq<char>>) -> Seq<Seq<char>> { match c { None => seq![m], Some(c) => seq![m, c] } }
pub open spec fn with_marks(r: Option<Rs>, m: Seq<char>, p: nat, c: Option<Seq<char>>, j: int) -> Option<Rs> { match r { None => None, Some(r) => Some(Rs { s: r.s, e: marks(r.e, m, p, c, j) }) } }
pub open spec fn blind2(k: SynExpr, m: Seq<char>, c: Option<Seq<char>>) -> bool { blind(k, m) && match c { None => true, Some(c) => blind(k, c) && c != m } }
pub proof fn lemma_blind_marks(k: SynExpr, m: Seq<char>, c: Option<Seq<char>>) requires blind2(k, m, c)
  ensures forall|n: nat, s: St, e: Env, p: nat, j: int| ready(s) ==> #[trigger] run(n, k, s, marks(e, m, p, c, j)) == with_marks(run(n, k, s, e), m, p, c, j)
{
  assert forall|n: nat, s: St, e: Env, p: nat, j: int| ready(s) implies #[trigger] run(n, k, s, marks(e, m, p, c, j)) == with_marks(run(n, k, s, e), m, p, c, j) by {
    reveal(blind); assert(run(n, k, s, set(e, m, Val::Mark(p))) == put(run(n, k, s, e), m, Val::Mark(p)));
    if let Some(c) = c { let e1 = set(e, m, Val::Mark(p)); assert(run(n, k, s, set(e1, c, Val::Count(j))) == put(run(n, k, s, e1), c, Val::Count(j))); }
  }
}
pub proof fn lemma_marks(m: Seq<char>, c: Option<Seq<char>>) requires c is Some ==> c.unwrap() != m
  ensures forall|e: Env, p: nat, j: int, q: nat| #[trigger] set(marks(e, m, p, c, j), m, Val::Mark(q)) == marks(e, m, q, c, j), c is Some ==> forall|e: Env, p: nat, j: int, i: int| #[trigger] set(marks(e, m, p, c, j), c.unwrap(), Val::Count(i)) == marks(e, m, p, c, i),
    forall|e: Env, p: nat, j: int| #[trigger] marks(e, m, p, c, j)(m) == Val::Mark(p) && (c is Some ==> marks(e, m, p, c, j)(c.unwrap()) == Val::Count(j)),
    forall|e: Env, p: nat| #[trigger] set(e, m, Val::Mark(p)) == marks(e, m, p, None, 0), c is Some ==> forall|e: Env, p: nat, j: int| #[trigger] set(set(e, m, Val::Mark(p)), c.unwrap(), Val::Count(j)) == marks(e, m, p, c, j)
{
  assert forall|e: Env, p: nat, j: int, q: nat| #[trigger] set(marks(e, m, p, c, j), m, Val::Mark(q)) == marks(e, m, q, c, j) by { assert(set(marks(e, m, p, c, j), m, Val::Mark(q)) =~= marks(e, m, q, c, j)); }
  if c is Some { assert forall|e: Env, p: nat, j: int, i: int| #[trigger] set(marks(e, m, p, c, j), c.unwrap(), Val::Count(i)) == marks(e, m, p, c, i) by { assert(set(marks(e, m, p, c, j), c.unwrap(), Val::Count(i)) =~= marks(e, m, p, c, i)); } }
}
// greedy: rounds until the expression fails
pub ghost struct Rn { pub s: St, pub c: nat, pub e: Env }
pub open spec fn rounds(n: nat, k: nat, o: Outs, kp: Keep, s: St, e: Env) -> Option<Rn> decreases k {
  if k == 0 { None } else { match o(n, s) { None => None, Some(x) => if x.s.ok { match rounds(n, (k - 1) as nat, o, kp, x.s, kept(kp, e, tup(x.v))) { None => None, Some(r) => Some(Rn { c: r.c + 1, ..r }) } } else { Some(Rn { s: back_to(s, x.s.far), c: 0, e }) } } }
}
pub open spec fn tidy_outs(o: Outs) -> bool { forall|n: nat, s: St| ready(s) ==> match #[trigger] o(n, s) { None => true, Some(x) => if x.s.ok { ready(x.s) } else { x.s == failed(x.s.far) } } }
pub open spec fn round(n: nat, o: Outs, kp: Keep, m: Seq<char>, c: Option<Seq<char>>, s: St, e: Env, j: int) -> Option<Fl> { match o(n, s) { None => None, Some(x) => if x.s.ok { Some(Fl { go: true, s: x.s, e: marks(kept(kp, e, tup(x.v)), m, x.s.at, c, j + 1) }) } else { Some(Fl { go: false, s: x.s, e: marks(e, m, s.at, c, j) }) } } }
pub open spec fn rounder(f: spec_fn(St, Env) -> Option<Fl>, n: nat, o: Outs, kp: Keep, m: Seq<char>, c: Option<Seq<char>>) -> bool { forall|s: St, e: Env, j: int| ready(s) ==> #[trigger] f(s, marks(e, m, s.at, c, j)) == round(n, o, kp, m, c, s, e, j) }
pub open spec fn after(r: Option<Rn>, m: Seq<char>, c: Option<Seq<char>>, j: int) -> Option<Fl> { match r { None => None, Some(r) => Some(Fl { go: false, s: failed(r.s.far), e: marks(r.e, m, r.s.at, c, j + r.c) }) } }
pub proof fn lemma_iterate(f: spec_fn(St, Env) -> Option<Fl>, n: nat, k: nat, o: Outs, kp: Keep, m: Seq<char>, c: Option<Seq<char>>, s: St, e: Env, j: int) requires rounder(f, n, o, kp, m, c), tidy_outs(o), ready(s)
  ensures iterate(k, f, s, marks(e, m, s.at, c, j)) == after(rounds(n, k, o, kp, s, e), m, c, j) decreases k
{
  if k > 0 { assert(f(s, marks(e, m, s.at, c, j)) == round(n, o, kp, m, c, s, e, j));
    if let Some(x) = o(n, s) { if x.s.ok { lemma_iterate(f, n, (k - 1) as nat, o, kp, m, c, x.s, kept(kp, e, tup(x.v)), j + 1); } } }
}
pub proof fn lemma_iterates(n: nat, o: Outs, kp: Keep, m: Seq<char>, c: Option<Seq<char>>) requires tidy_outs(o)
  ensures forall|f: spec_fn(St, Env) -> Option<Fl>, s: St, e: Env, j: int| ready(s) && rounder(f, n, o, kp, m, c) ==> #[trigger] iterate(n, f, s, marks(e, m, s.at, c, j)) == after(rounds(n, n, o, kp, s, e), m, c, j)
{ assert forall|f: spec_fn(St, Env) -> Option<Fl>, s: St, e: Env, j: int| ready(s) && rounder(f, n, o, kp, m, c) implies #[trigger] iterate(n, f, s, marks(e, m, s.at, c, j)) == after(rounds(n, n, o, kp, s, e), m, c, j) by { lemma_iterate(f, n, n, o, kp, m, c, s, e, j); } }
pub open spec fn keep_not(k: Keep, x: Seq<char>) -> bool { match k { Keep::No => true, Keep::So(y) => y != x, Keep::Push(y) => y != x } }
pub proof fn lemma_rounds(n: nat, k: nat, o: Outs, kp: Keep, s: St, e: Env, x: Seq<char>) requires tidy_outs(o), ready(s), keep_not(kp, x) ensures match rounds(n, k, o, kp, s, e) { None => true, Some(r) => ready(r.s) && (r.e)(x) == e(x) } decreases k
{ if k > 0 { if let Some(y) = o(n, s) { if y.s.ok { lemma_rounds(n, (k - 1) as nat, o, kp, y.s, kept(kp, e, tup(y.v)), x); } } } }
// go on after the rounds, or fail when there were not enough
pub open spec fn rep_end(n: nat, succ: SynExpr, min: int, r: Option<Rn>) -> Option<Rs> { match r { None => None, Some(r) => if r.c < min { Some(Rs { s: failed(r.s.far), e: r.e }) } else { run(n, succ, r.s, r.e) } } }
pub open spec fn reps(r: SynExpr, succ: SynExpr, min: int, o: Outs, kp: Keep) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == rep_end(n, succ, min, rounds(n, n, o, kp, s, e)) }
pub open spec fn out2(r: Option<Rs>, e: Env, xs: Seq<Seq<char>>) -> Option<Rs> { match r { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, e, xs) }) } }
// the scope of the mark and the counter shows outside in nothing
pub proof fn lemma_leave(n: nat, succ: SynExpr, fail: SynExpr, min: int, o: Outs, kp: Keep, m: Seq<char>, c: Option<Seq<char>>, s: St, e: Env)
  requires blind2(succ, m, c), failing(fail), tidy_outs(o), ready(s), keep_not(kp, m), c is Some ==> keep_not(kp, c.unwrap())
  ensures match rounds(n, n, o, kp, s, e) { None => true, Some(r) => ready(r.s) && { let f = marks(r.e, m, r.s.at, c, r.c as int); (r.c < min ==> out2(run(n, fail, failed(r.s.far), f), e, names2(m, c)) == rep_end(n, succ, min, Some(r))) && (r.c >= min ==> out2(run(n, succ, r.s, f), e, names2(m, c)) == rep_end(n, succ, min, Some(r))) } }
{
  lemma_rounds(n, n, o, kp, s, e, m); if let Some(c) = c { lemma_rounds(n, n, o, kp, s, e, c); }
  if let Some(r) = rounds(n, n, o, kp, s, e) {
    let f = marks(r.e, m, r.s.at, c, r.c as int); let xs = names2(m, c); lemma_blind_marks(succ, m, c); lemma_blind(succ, m, n, r.s, r.e, Val::Mark(0)); if let Some(c) = c { lemma_blind(succ, c, n, r.s, r.e, Val::Mark(0)); assert(xs[1] == c); }
    assert(xs[0] == m); assert(xs.contains(m)); if let Some(c) = c { assert(xs.contains(c)); } assert forall|y: Seq<char>| #[trigger] xs.contains(y) implies y == m || c == Some(y) by { let i = xs.index_of(y); }
    assert(unbound(f, e, xs) =~= r.e);
    assert(run(n, fail, failed(r.s.far), f) == Some(Rs { s: failed(r.s.far), e: f }));
    assert(run(n, succ, r.s, f) == with_marks(run(n, succ, r.s, r.e), m, r.s.at, c, r.c as int));
    if let Some(z) = run(n, succ, r.s, r.e) { assert(unbound(marks(z.e, m, r.s.at, c, r.c as int), e, xs) =~= z.e); }
  }
}
pub proof fn lemma_rounds_repo(g: &TGrammar, p: bool, i: int, n: nat, k: nat, kp: Keep, s: St, e: Env, vs: Seq<Val>) requires gok(g), 0 <= i < size(g), ready(s), match kp { Keep::No => true, Keep::So(x) => false, Keep::Push(x) => e(x) == Val::List(vs) }
  ensures match (rounds(n, k, outs(g, p, i), kp, s, e), repo(g, p, i, n, k, s, vs)) { (None, None) => true, (Some(r), Some(q)) => ready(r.s) && r.s == q.s && r.c == q.c && r.e == (match kp { Keep::Push(x) => set(e, x, Val::List(q.v)), _ => e }), _ => false } decreases k
{
  if k > 0 { lemma_peg_sound(g, p, n, i, s); 
    if let Some(x) = peg(g, p, n, i, s) { let e1 = kept(kp, e, tup(x.v)); if x.s.ok { lemma_rounds_repo(g, p, i, n, (k - 1) as nat, kp, x.s, e1, vs.push(tup(x.v))); 
      if let Keep::Push(y) = kp { if let Some(q) = repo(g, p, i, n, (k - 1) as nat, x.s, vs.push(tup(x.v))) { assert(set(e1, y, Val::List(q.v)) =~= set(e, y, Val::List(q.v))); } } } 
      else { if let Keep::Push(y) = kp { lemma_set_same(e, y); } } } }
}
pub open spec fn rep_outs(g: &TGrammar, p: bool, i: int, min: int) -> Outs { |n: nat, s: St| rep_out(p, min, repo(g, p, i, n, n, s, Seq::empty())) }
pub proof fn lemma_reps_rec(g: &TGrammar, i: int, r: SynExpr, succ: SynExpr, min: int) requires gok(g), 0 <= i < size(g), reps(r, succ, min, outs(g, false, i), Keep::No) ensures does(r, succ, rep_outs(g, false, i, min), Seq::empty())
{
  let o = rep_outs(g, false, i, min);
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, o(n, s), Seq::empty(), e) by {
    assert(run(n, r, s, e) == rep_end(n, succ, min, rounds(n, n, outs(g, false, i), Keep::No, s, e))); lemma_rounds_repo(g, false, i, n, n, Keep::No, s, e, Seq::empty()); lemma_bound_none(e, e);
    if let Some(q) = repo(g, false, i, n, n, s, Seq::empty()) { if let Some(z) = run(n, succ, q.s, e) { lemma_bound_none(e, z.e); } }
  }
}
pub proof fn lemma_reps_par(g: &TGrammar, i: int, n: nat, r: SynExpr, succ: SynExpr, min: int, x: Seq<char>, s: St, e: Env) requires gok(g), 0 <= i < size(g), reps(r, succ, min, outs(g, true, i), Keep::Push(x)), ready(s)
  ensures fin(n, succ, rep_outs(g, true, i, min)(n, s), seq![x], e) == out2(run(n, r, s, set(e, x, Val::List(Seq::empty()))), e, seq![x])
{
  let e1 = set(e, x, Val::List(Seq::empty())); assert(run(n, r, s, e1) == rep_end(n, succ, min, rounds(n, n, outs(g, true, i), Keep::Push(x), s, e1))); lemma_rounds_repo(g, true, i, n, n, Keep::Push(x), s, e1, Seq::empty()); lemma_bound_one_all(e, x);
  if let Some(q) = repo(g, true, i, n, n, s, Seq::empty()) { lemma_set_set(e, x, Val::List(Seq::empty()), Val::List(q.v)); lemma_unbound_none(e, x, Val::List(q.v)); }
}
'''
def repeat(u, q):
    u.raw(REPEAT)
    S = 'RepeatCompiler'
    f = D + 'repeat.rs'
    P = '''let m = $h0@; let c: Option<Seq<char>> = %(c)s; let succ = %(succ)s; let fail = %(fail)s; let body = %(body)s;
assert(blind(body, m)); assert(blind(succ, m)); %(more)s
lemma_marks(m, c); lemma_blind_marks(body, m, c);
assert forall|o: Outs, k: Keep| #[trigger] alone(body, o, k) && keep_made(vx_f, k) implies reps($q, succ, self.cardinality_min as int, o, k) by {
  assert(tidy_outs(o)) by { let e0 = |y: Seq<char>| Val::Unit; assert forall|n: nat, s: St| ready(s) implies match #[trigger] o(n, s) { None => true, Some(x) => if x.s.ok { ready(x.s) } else { x.s == failed(x.s.far) } } by { assert(run(n, body, s, e0) == end(o(n, s), k, e0)); } }
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == rep_end(n, succ, self.cardinality_min as int, rounds(n, n, o, k, s, e)) by {
    lemma_iterates(n, o, k, m, c); lemma_leave(n, succ, fail, self.cardinality_min as int, o, k, m, c, s, e);
    assert forall|f: spec_fn(St, Env) -> Option<Fl>| (forall|s: St, e: Env, j: int| ready(s) ==> #[trigger] f(s, marks(e, m, s.at, c, j)) == round(n, o, k, m, c, s, e, j)) implies #[trigger] rounder(f, n, o, k, m, c) by { }
    let e1 = marks(e, m, s.at, c, 0);
  } }'''
    q.at[S, 'compile'] = [('code', P % dict(c='Some($h1@)', body='$h2', fail='$h4', succ='$h5', more='let c1 = $h1@; assert(blind(body, c1)); assert(blind(succ, c1));')), ('code', P % dict(c='None', body='$h1', succ='$h2', fail='vx_k.failure', more=''))]
    u.fn(f, S, 'compile', spec='requires cok(*old($1)), tidy($3), failing($2.failure), fresh($3, old($1).name_factory), fresh($2.success, old($1).name_factory) ensures post(*old($1), *final($1), 0), forall|o: Outs, k: Keep| #[trigger] alone($3, o, k) && keep_made(old($1).name_factory, k) ==> reps(r, $2.success, self.cardinality_min as int, o, k)', proof='let ghost vx_f = $1.name_factory; let ghost vx_k = $2;' + VARS)
    PRE = START % S + """ let ghost vx_k = $2; let ghost vx_g = vx_old.grammar; let ghost vx_i = self.expr_idx as int; let ghost vx_min = self.cardinality_min as int; let ghost vx_o = outs(vx_g, %s, vx_i); let ghost vx_b = rep_outs(vx_g, %s, vx_i, vx_min); proof { lemma_peg_outs(vx_g, %s, vx_i); assert(vx_b =~= bouts(vx_g, vx_box)); assert forall|x: SynExpr, k: Keep| #[trigger] alone(x, vx_o, k) implies tidy(x) by { lemma_tidy(x, vx_o, k, wd(vx_g, %s, vx_i)); } %s }"""
    C = contract(S, dec=False)
    u.fn(f, S, 'compile_recognizer', spec=C.replace('requires ', 'requires !kind_p(self.compiler_kind), ') + ' decreases self.expr_idx, 6int', proof=PRE % (('false',) * 4 + ('assert forall|x: SynExpr| #[trigger] reps(x, vx_k.success, vx_min, vx_o, Keep::No) implies does(x, vx_k.success, vx_b, Seq::empty()) by { lemma_reps_rec(vx_g, vx_i, x, vx_k.success, vx_min); }',)))
    q.at[S, 'compile_parser'] = [('type', ''), ('code', '''let x = $h0@; assert(reps($h1, vx_k.success, vx_min, vx_o, Keep::Push(x)));
assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, $q, s, e) == fin(n, vx_k.success, vx_b(n, s), seq![x], e) by { lemma_reps_par(vx_g, vx_i, n, $h1, vx_k.success, vx_min, x, s, e); }''')]
    u.fn(f, S, 'compile_parser', spec=C.replace('requires ', 'requires kind_p(self.compiler_kind), ') + ' decreases self.expr_idx, 6int', proof=PRE % (('true',) * 4 + ('',)))
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S))

CHOICE = r"""
// ---- alternatives: the flag b tells the code after a branch whether it failed, the mark m where it started
pub open spec fn flagged(c: SynStmt, b: Seq<char>) -> bool { forall|n: nat, s: St, e: Env| #[trigger] step(n, c, s, e) == Some(Rs { s, e: set(e, b, Val::Flag(false)) }) }
pub open spec fn wraps(c: SynExpr, before: SynStmt, succ: SynExpr) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, c, s, e) == (match step(n, before, s, e) { None => None, Some(r) => run(n, succ, r.s, r.e) }) }
pub proof fn lemma_wraps(c: SynExpr, before: SynStmt, succ: SynExpr, b: Seq<char>, f: NameFactory) requires wraps(c, before, succ), flagged(before, b), fresh(succ, f), made(f, b) ensures fresh(c, f)
{
  assert forall|x: Seq<char>| !made(f, x) implies #[trigger] blind(c, x) by { assert(blind(succ, x)); reveal(blind);
    assert forall|n: nat, s: St, e: Env, v: Val| ready(s) implies #[trigger] run(n, c, s, set(e, x, v)) == put(run(n, c, s, e), x, v) by {
      assert(step(n, before, s, e) == Some(Rs { s, e: set(e, b, Val::Flag(false)) })); assert(step(n, before, s, set(e, x, v)) == Some(Rs { s, e: set(set(e, x, v), b, Val::Flag(false)) }));
      lemma_swap(e, x, v, b, Val::Flag(false)); } }
}
pub open spec fn flags(e: Env, m: Seq<char>, p: nat, b: Seq<char>, f: bool) -> Env { set(set(e, m, Val::Mark(p)), b, Val::Flag(f)) }
pub open spec fn idle(c: SynExpr) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, c, s, e) == Some(Rs { s, e }) }
// a branch: like `does`, but it puts the flag down before it goes on (the last one leaves it)
pub open spec fn fin_flag(n: nat, succ: SynExpr, o: Option<Out>, xs: Seq<Seq<char>>, e: Env, b: Seq<char>, last: bool) -> Option<Rs> {
  match o { None => None, Some(o) => if o.s.ok { match run(n, succ, o.s, if last { bound(e, xs, o.v) } else { set(bound(e, xs, o.v), b, Val::Flag(false)) }) { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, e, xs) }) } } else { Some(Rs { s: o.s, e }) } }
}
pub open spec fn branch(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, b: Seq<char>, last: bool) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == fin_flag(n, succ, o(n, s), xs, e, b, last) }
pub proof fn lemma_branch_last(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, b: Seq<char>) requires does(r, succ, o, xs) ensures branch(r, succ, o, xs, b, true) { }
pub proof fn lemma_branch(r: SynExpr, c: SynExpr, before: SynStmt, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, b: Seq<char>) requires does(r, c, o, xs), wraps(c, before, succ), flagged(before, b) ensures branch(r, succ, o, xs, b, false)
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin_flag(n, succ, o(n, s), xs, e, b, false) by { assert(run(n, r, s, e) == fin(n, c, o(n, s), xs, e)); if let Some(x) = o(n, s) { let f = bound(e, xs, x.v); assert(step(n, before, x.s, f) == Some(Rs { s: x.s, e: set(f, b, Val::Flag(false)) })); } } }
pub open spec fn unflag(r: Option<Rs>, e: Env, m: Seq<char>, b: Seq<char>) -> Option<Rs> { match r { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, e, seq![m, b]) }) } }
pub proof fn lemma_two(q: Seq<Seq<char>>, m: Seq<char>, b: Seq<char>) requires q == seq![m, b] ensures forall|y: Seq<char>| #[trigger] q.contains(y) <==> (y == m || y == b) { assert(q[0] == m); assert(q[1] == b); assert forall|y: Seq<char>| #[trigger] q.contains(y) implies (y == m || y == b) by { let k = q.index_of(y); } }
pub proof fn lemma_unflag(e: Env, m: Seq<char>, p: nat, b: Seq<char>, f: bool) ensures unbound(flags(e, m, p, b, f), e, seq![m, b]) == e { lemma_two(seq![m, b], m, b); assert(unbound(flags(e, m, p, b, f), e, seq![m, b]) =~= e); }
pub proof fn lemma_branch_run(r: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, m: Seq<char>, p: nat, b: Seq<char>, last: bool, n: nat, s: St, e: Env)
  requires branch(r, succ, o, xs, b, last), ready(s), blind(succ, m), blind(succ, b), !xs.contains(m), !xs.contains(b), m != b, sound(o, xs.len())
  ensures match o(n, s) { None => run(n, r, s, flags(e, m, p, b, true)) is None, Some(x) => if !x.s.ok { run(n, r, s, flags(e, m, p, b, true)) == Some(Rs { s: x.s, e: flags(e, m, p, b, true) }) } else {
    match (run(n, succ, x.s, bound(e, xs, x.v)), run(n, r, s, flags(e, m, p, b, true))) { (None, None) => true, (Some(z), Some(q)) => q.s == z.s && (last || !truth((q.e)(b))) && unbound(q.e, e, seq![m, b]) == unbound(z.e, e, xs), _ => false } } }
{
  let e1 = flags(e, m, p, b, true);
  assert(run(n, r, s, e1) == fin_flag(n, succ, o(n, s), xs, e1, b, last));
  if let Some(x) = o(n, s) { if x.s.ok {
    let f = bound(e, xs, x.v); let w = Val::Mark(p); let v = Val::Flag(last);
    lemma_bound_set(e, xs, x.v, m, w); lemma_bound_set(set(e, m, w), xs, x.v, b, Val::Flag(true)); lemma_set_set(set(f, m, w), b, Val::Flag(true), v);
    lemma_blind(succ, m, n, x.s, f, w); lemma_blind(succ, b, n, x.s, f, v); lemma_blind(succ, b, n, x.s, set(f, m, w), v); lemma_two(seq![m, b], m, b);
    if let Some(z) = run(n, succ, x.s, f) { let h = set(set(z.e, m, w), b, v); assert(run(n, succ, x.s, set(set(f, m, w), b, v)) == Some(Rs { s: z.s, e: h }));
      assert(f(m) == e(m)); assert(f(b) == e(b)); assert(unbound(h, e1, xs)(b) == v);
      assert(unbound(unbound(h, e1, xs), e, seq![m, b]) =~= unbound(z.e, e, xs)); }
  } }
}
// what follows a branch: nothing when the flag is down; otherwise the other branches, from the mark on
#[verifier::opaque] pub open spec fn skips(acc: SynExpr, b: Seq<char>) -> bool { forall|n: nat, s: St, e: Env| !truth(e(b)) ==> #[trigger] run(n, acc, s, e) == Some(Rs { s, e }) }
#[verifier::opaque] pub open spec fn others(acc: SynExpr, succ: SynExpr, o: Outs, xs: Seq<Seq<char>>, m: Seq<char>, b: Seq<char>) -> bool {
  forall|n: nat, t: St, e: Env, p: nat| t == failed(t.far) ==> unflag(#[trigger] run(n, acc, t, flags(e, m, p, b, true)), e, m, b) == fin(n, succ, o(n, St { ok: true, at: p, far: t.far, data: None }), xs, e)
}
pub open spec fn retry(q: SynExpr, r: SynExpr, acc: SynExpr, m: Seq<char>, b: Seq<char>) -> bool { forall|n: nat, s: St, e: Env| !s.ok && s.data is None || !truth(e(b)) ==> #[trigger] run(n, q, s, e) == (if truth(e(b)) { match run(n, r, restored(s, e(m)), e) { None => None, Some(z) => run(n, acc, z.s, z.e) } } else { Some(Rs { s, e }) }) }
pub open spec fn or_else(n: nat, o: Outs, q: Outs, s: St) -> Option<Out> { match o(n, s) { None => None, Some(x) => if x.s.ok { Some(x) } else { q(n, St { ok: true, at: s.at, far: x.s.far, data: None }) } } }
pub proof fn lemma_or_else(r: SynExpr, acc: SynExpr, succ: SynExpr, o: Outs, q: Outs, xs: Seq<Seq<char>>, m: Seq<char>, p: nat, b: Seq<char>, last: bool, n: nat, s: St, e: Env)
  requires branch(r, succ, o, xs, b, last), ready(s), s.at == p, blind(succ, m), blind(succ, b), !xs.contains(m), !xs.contains(b), m != b, sound(o, xs.len()), if last { idle(acc) } else { skips(acc, b) }, others(acc, succ, q, xs, m, b)
  ensures unflag(match run(n, r, s, flags(e, m, p, b, true)) { None => None, Some(z) => run(n, acc, z.s, z.e) }, e, m, b) == fin(n, succ, or_else(n, o, q, s), xs, e)
{
  lemma_branch_run(r, succ, o, xs, m, p, b, last, n, s, e);
  let h = flags(e, m, p, b, true);
  if let Some(z) = run(n, r, s, h) { reveal(skips); reveal(others); assert(idle(acc) ==> run(n, acc, z.s, z.e) == Some(Rs { s: z.s, e: z.e })); assert(skips(acc, b) && !truth((z.e)(b)) ==> run(n, acc, z.s, z.e) == Some(Rs { s: z.s, e: z.e }));
    if let Some(x) = o(n, s) { if !x.s.ok { let t = x.s; assert(unflag(run(n, acc, t, flags(e, m, p, b, true)), e, m, b) == fin(n, succ, q(n, St { ok: true, at: p, far: t.far, data: None }), xs, e)); } } }
}
pub proof fn lemma_retry(c: SynExpr, r: SynExpr, acc: SynExpr, succ: SynExpr, o: Outs, q: Outs, o2: Outs, xs: Seq<Seq<char>>, m: Seq<char>, b: Seq<char>, last: bool)
  requires retry(c, r, acc, m, b), branch(r, succ, o, xs, b, last), blind(succ, m), blind(succ, b), !xs.contains(m), !xs.contains(b), m != b, sound(o, xs.len()), if last { idle(acc) } else { skips(acc, b) }, others(acc, succ, q, xs, m, b), forall|n: nat, s: St| ready(s) ==> #[trigger] o2(n, s) == or_else(n, o, q, s)
  ensures skips(c, b), others(c, succ, o2, xs, m, b)
{
  reveal(skips); reveal(others);
  assert forall|n: nat, t: St, e: Env, p: nat| t == failed(t.far) implies unflag(#[trigger] run(n, c, t, flags(e, m, p, b, true)), e, m, b) == fin(n, succ, o2(n, St { ok: true, at: p, far: t.far, data: None }), xs, e) by {
    let s = St { ok: true, at: p, far: t.far, data: None }; let h = flags(e, m, p, b, true); assert(h(m) == Val::Mark(p)); assert(truth(h(b))); assert(restored(t, h(m)) == s); assert(o2(n, s) == or_else(n, o, q, s));
    lemma_or_else(r, acc, succ, o, q, xs, m, p, b, last, n, s, e); }
}
pub proof fn lemma_does_swap(r: SynExpr, a: SynExpr, b: SynExpr, o: Outs, q: Outs, xs: Seq<Seq<char>>, w: nat) requires does(r, a, o, xs), sound(q, w), forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, a, s, e) == run(n, b, s, e), forall|n: nat, s: St| ready(s) ==> o(n, s) == #[trigger] q(n, s) ensures does(r, b, q, xs)
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, b, q(n, s), xs, e) by { assert(run(n, r, s, e) == fin(n, a, o(n, s), xs, e)); assert(o(n, s) == q(n, s)); if let Some(x) = q(n, s) { if x.s.ok { assert(run(n, a, x.s, bound(e, xs, x.v)) == run(n, b, x.s, bound(e, xs, x.v))); } } } }
pub open spec fn alts_outs(g: &TGrammar, p: bool, js: Seq<usize>) -> Outs { |n: nat, s: St| peg_alt(g, p, n, size(g), js, s) }
pub proof fn lemma_no_others(c: SynExpr, g: &TGrammar, p: bool, succ: SynExpr, xs: Seq<Seq<char>>, m: Seq<char>, b: Seq<char>) requires idle(c) ensures skips(c, b), others(c, succ, alts_outs(g, p, Seq::empty()), xs, m, b)
{ reveal(skips); reveal(others); assert forall|n: nat, t: St, e: Env, p: nat| t == failed(t.far) implies unflag(#[trigger] run(n, c, t, flags(e, m, p, b, true)), e, m, b) == Some(Rs { s: failed(t.far), e }) by { lemma_unflag(e, m, p, b, true); } }
pub proof fn lemma_alts_step(g: &TGrammar, p: bool, js: Seq<usize>, k: int) requires gok(g), in_g(g, js), 0 <= k < js.len() ensures forall|n: nat, s: St| ready(s) ==> #[trigger] alts_outs(g, p, js.skip(k))(n, s) == or_else(n, outs(g, p, js[k] as int), alts_outs(g, p, js.skip(k + 1)), s)
{ let a = js.skip(k); assert(a[0] == js[k]); assert(a.drop_first() =~= js.skip(k + 1)); }
// all of it
pub open spec fn chooses(c: SynExpr, first: SynExpr, acc: SynExpr, m: Seq<char>, b: Seq<char>) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, c, s, e) == unflag(match run(n, first, s, flags(e, m, s.at, b, true)) { None => None, Some(z) => run(n, acc, z.s, z.e) }, e, m, b) }
pub proof fn lemma_choose(c: SynExpr, first: SynExpr, acc: SynExpr, succ: SynExpr, o: Outs, q: Outs, o2: Outs, xs: Seq<Seq<char>>, m: Seq<char>, b: Seq<char>, last: bool)
  requires chooses(c, first, acc, m, b), branch(first, succ, o, xs, b, last), blind(succ, m), blind(succ, b), !xs.contains(m), !xs.contains(b), m != b, sound(o, xs.len()), if last { idle(acc) } else { skips(acc, b) }, others(acc, succ, q, xs, m, b), forall|n: nat, s: St| ready(s) ==> #[trigger] o2(n, s) == or_else(n, o, q, s)
  ensures does(c, succ, o2, xs)
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, c, s, e) == fin(n, succ, o2(n, s), xs, e) by { lemma_or_else(first, acc, succ, o, q, xs, m, s.at, b, last, n, s, e); assert(o2(n, s) == or_else(n, o, q, s)); } }
"""
CLOSURES = r"""
// ---- the success continuation as a closure at the head of the function: applied to its own parameters it is its body
// (assumed of Rust: what the body refers to is a parameter, or the code does not compile; parameters by value do not change)
pub ghost enum Slot { State, Var(Seq<char>, bool) }
#[verifier::external_body] pub struct SynFnArg { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynTokens { x: std::marker::PhantomData<u8> }
pub uninterp spec fn par_of(p: SynFnArg) -> Slot;
pub uninterp spec fn arg_of(c: SynExpr) -> Slot;
pub uninterp spec fn closure_of(x: Seq<char>) -> (Seq<Slot>, SynExpr);
pub open spec fn pars(s: Seq<SynFnArg>) -> Seq<Slot> { Seq::new(s.len(), |k: int| par_of(s[k])) }
pub open spec fn argsof(s: Seq<SynExpr>) -> Seq<Slot> { Seq::new(s.len(), |k: int| arg_of(s[k])) }
pub open spec fn refs(s: Seq<(Ident, SynType)>) -> Seq<Slot> { Seq::new(s.len(), |k: int| Slot::Var(s[k].0@, true)) }
pub open spec fn vals(s: Seq<Ident>) -> Seq<Slot> { Seq::new(s.len(), |k: int| Slot::Var(s[k]@, false)) }
pub open spec fn slots(c: Context) -> Seq<Slot> { seq![Slot::State] + refs(c.mut_ref_free_variables@) + vals(c.free_variables@) + vals(c.mark_variables@) }
#[verifier::external_body] pub fn vx_par(x: &Ident, byref: bool) -> (r: SynFnArg) ensures par_of(r) == Slot::Var(x@, byref) { unimplemented!() }
#[verifier::external_body] pub fn vx_state_par() -> (r: SynFnArg) ensures par_of(r) == Slot::State { unimplemented!() }
#[verifier::external_body] pub fn vx_arg(x: &Ident, byref: bool) -> (r: SynExpr) ensures arg_of(r) == Slot::Var(x@, byref) { unimplemented!() }
#[verifier::external_body] pub fn vx_state_arg() -> (r: SynExpr) ensures arg_of(r) == Slot::State { unimplemented!() }
#[verifier::external_body] pub fn vx_closure(Ghost(f): Ghost<NameFactory>, x: &Ident, ps: &Vec<SynFnArg>, b: &SynExpr) -> (r: SynStmt) requires !made(f, x@) ensures closure_of(x@) == (pars(ps@), *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_apply(x: &Ident, a: &Vec<SynExpr>) -> (r: SynExpr) ensures argsof(a@) == closure_of(x@).0 ==> forall|n: nat, s: St, e: Env| #[trigger] run(n, r, s, e) == run(n, closure_of(x@).1, s, e) { unimplemented!() }
impl NameFactory { #[verifier::external_body] pub fn next_closure_name(&mut self) -> (r: Ident) ensures !made(*old(self), r@), made(*final(self), r@), grows(*old(self), *final(self)) { unimplemented!() } }
#[verifier::external_body] pub fn vx_stream_type(g: &TGrammar) -> (r: SynType) { unimplemented!() }
impl VxClone for (Ident, SynType) { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub proof fn lemma_same_run(a: SynExpr, b: SynExpr, f: NameFactory, g: NameFactory) requires fresh(a, f), grows(f, g), forall|n: nat, s: St, e: Env| #[trigger] run(n, b, s, e) == run(n, a, s, e) ensures fresh(b, g)
{ assert forall|x: Seq<char>| !made(g, x) implies #[trigger] blind(b, x) by { assert(blind(a, x)); reveal(blind); assert forall|n: nat, s: St, e: Env, v: Val| ready(s) implies #[trigger] run(n, b, s, set(e, x, v)) == put(run(n, b, s, e), x, v) by { assert(run(n, a, s, set(e, x, v)) == put(run(n, a, s, e), x, v)); } } }
"""
def q_par(em, d, body):
    if re.match(r'(#\w+ |mut )?\s*state\s*:\s*#\w+$', body):
        return 'vx_state_par()'
    b = re.sub(r'\s+', '', body)
    m = re.match(r'#(\w+):(_|#\w+)$', b)
    if m:
        return 'vx_par(&%s, false)' % m.group(1)
    m = re.match(r'#(\w+):&mut#\w+$', b)
    if m:
        return 'vx_par(&%s, true)' % m.group(1)
    raise Unsupported('parameter of a template: ' + body)
def q_arg(em, d, body):
    b = re.sub(r'\s+', '', body)
    if b == 'state':
        return 'vx_state_arg()'
    m = re.match(r'(&mut)?#(\w+)(\.clone\(\))?$', b)
    if m and not (m.group(1) and m.group(3)):
        return 'vx_arg(&%s, %s)' % (m.group(2), 'true' if m.group(1) else 'false')
    raise Unsupported('argument of a template: ' + body)
def q_closure(em, d, body):
    b = re.sub(r'\s+', ' ', body)
    m = re.match(r'let #(\w+) = \| ?# ?\( ?#(\w+) ?\) ?, ?\* ?\| #(\w+) ?; ?$', b)
    if m:
        return 'vx_closure(Ghost(vx_f), &%s, &%s, &%s)' % m.groups()
    m = re.match(r'#(\w+) ?\( ?# ?\( ?#(\w+) ?\) ?, ?\* ?\)$', b)
    if m:
        return 'vx_apply(&%s, &%s)' % m.groups()
    raise Unsupported('closure of a template: ' + body)

def closures(u, q):
    u.raw(CLOSURES)
    u.text_sub += [(r'\bsyn::FnArg\b', 'SynFnArg')]
    u.mcalls.update(stream_type=lambda em, n: 'vx_stream_type(%s)' % em.e(n.x))
    u.macros['quote'] = lambda em, n: 'vx_tokens()'
    u.raw('#[verifier::external_body] pub fn vx_tokens() -> (r: SynTokens) { unimplemented!() }\n')
    C = 'Context'
    q.at[C, 'parse_state_ty'] = [('type', '')]
    q.at[C, 'state_param'] = [(q_par, '')]
    u.fn(CTX, C, 'parse_state_ty', spec='')
    u.fn(CTX, C, 'state_param', spec='ensures par_of(r) == Slot::State')
    for fn, kind, ty, f in (('closure_params', q_par, 'SynFnArg', 'par_of'), ('closure_args', q_arg, 'SynExpr', 'arg_of')):
        q.at[C, fn] = [(kind, '')] * 5
        u.fn(CTX, C, fn, spec='ensures %s(r@) == slots(*self)' % ('pars' if f == 'par_of' else 'argsof'), loops=[
            Loop('chain', 'invariant $s@ == self.%s@, $i <= $s@.len(), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> %s(#[trigger] $o@[k]) == Slot::Var($s@[k]%s@, %s)\n decreases $s@.len() - $i' % (v, f, '.0' if br else '', 'true' if br else 'false'), it=it, ety='Vec<%s>' % ty, clone='VxClone::vx_clone' if br else None)
            for v, br, it in (('mut_ref_free_variables', True, 'cloned.map'+'.collect'), ('free_variables', False, 'map.collect'), ('mark_variables', False, 'map.collect'))])
    u.fn(CTX, C, 'do_not_duplicate_success', spec='')
    q.at[C, 'success_as_closure'] = [(q_closure, ''), (q_closure, 'assert(argsof($h0@) == closure_of($h1@).0); lemma_same_run($1.success, $q, vx_f, self.name_factory);')]
    u.fn(CTX, C, 'success_as_closure', spec='requires cok(*old(self)), fresh($1.success, old(self).name_factory) ensures post(*old(self), *final(self), 0), r.failure == $1.failure, fresh(r.success, final(self).name_factory), forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r.success, s, e) == run(n, $1.success, s, e)', proof='let ghost vx_f = self.name_factory; proof { lemma_vars(*self); }')

def choice(u, q):
    u.raw(CHOICE)
    u.raw('impl VxClone for Scope { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }\n')
    u.raw('#[verifier::external_body] pub fn vx_iter_next<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.drop_first() { unimplemented!() }\n')
    u.iter_vars = True
    u.mcalls.update(next=lambda em, n: 'vx_iter_next(&mut %s)' % em.e(n.x) if n.x.kind == 'path' else None, into_iter=lambda em, n: em.e(n.x) if n.x.kind == 'path' and not n.args else None)
    q.at[CONT, 'compile_and_wrap'] = [('code', 'assert(wraps($q, vx_before, self.success)); assert(fresh($q, $1.name_factory));')]
    u.fn(CON, CONT, 'compile_and_wrap', spec='requires gok(old($1).grammar), $3 < size(old($1).grammar), cok(*old($1)), old($1).free_variables@.len() >= wd(old($1).grammar, is_p($2), $3 as int), failing(self.failure), forall|x: SynExpr| #[trigger] wraps(x, $4, self.success) ==> fresh(x, old($1).name_factory) ensures exists|x: SynExpr| wraps(x, $4, self.success) && #[trigger] compiled(*old($1), *final($1), r, x, is_p($2), $3 as int) decreases $3, 4int', proof='let ghost vx_before = $4;')
    closures(u, q)
    KEEP = 'final(self).free_variables == old(self).free_variables, final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar'
    u.fn(CTX, 'Context', 'pop_mut_ref_fv', spec='requires old(self).mut_ref_free_variables@.len() > 0 ensures %s' % KEEP)
    S = 'ChoiceCompiler'
    f = D + 'choice.rs'
    q.at[S, CE] = [('type', ''), ('stmt', 'assert(flagged($q, vx_b)); assert forall|x: SynExpr| #[trigger] wraps(x, $q, vx_s) implies fresh(x, $1.name_factory) by { lemma_wraps(x, $q, vx_s, vx_b, $1.name_factory); }'), ('code', 'assert(idle($q));'), ('code', 'assert(retry($q, branch, accu, vx_m, vx_b));'), ('code', '''assert(chooses($q, $h2, $h3, vx_m, vx_b)); lemma_alts_step(vx_g, vx_p, vx_js, 0); assert(vx_js.skip(0) =~= vx_js); lemma_peg_outs(vx_g, vx_p, vx_js[0] as int);
lemma_choose($q, $h2, $h3, vx_s, outs(vx_g, vx_p, vx_js[0] as int), alts_outs(vx_g, vx_p, vx_js.skip(1)), alts_outs(vx_g, vx_p, vx_js), vx_xs, vx_m, vx_b, vx_js.len() == 1); lemma_does_swap($q, vx_s, vx_k.success, alts_outs(vx_g, vx_p, vx_js), bouts(vx_g, vx_box), vx_xs, vx_w);''')]
    G = 'gok(vx_g), in_g(vx_g, vx_js), vx_js.len() > 0, vx_js == self.choices@, vx_p == is_p(self.compiler), vx_xs.len() == vx_w, forall|k: int| 0 <= k < vx_js.len() ==> wd(vx_g, vx_p, (#[trigger] vx_js[k]) as int) == vx_w, vx_m != vx_b, !vx_xs.contains(vx_m), !vx_xs.contains(vx_b), blind(vx_s, vx_m), blind(vx_s, vx_b)'
    L0 = 'invariant ' + G + ', $s@ == vx_js.drop_last(), cok(vx_a), made(vx_a.name_factory, vx_b), branch_failed@ == vx_b, scope.free_variables@ == vx_a.free_variables@, vx_a.free_variables@.len() >= vx_w, vx_xs == vars(vx_a, vx_w), vx_a.grammar == vx_g, $1.grammar == vx_g, grows(vx_a.name_factory, $1.name_factory), continuation.success == vx_s, fresh(vx_s, vx_a.name_factory), failing(continuation.failure), $i <= $s@.len(), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> branch(#[trigger] $o@[k], vx_s, outs(vx_g, vx_p, vx_js[k] as int), vx_xs, vx_b, false)\n decreases $s@.len() - $i'
    L1 = 'invariant ' + G + ', branch_failed@ == vx_b, mark@ == vx_m, $s@.len() == vx_js.len() - 1, $i <= $s@.len(), forall|k: int| 0 <= k < $s@.len() ==> branch(#[trigger] $s@[k], vx_s, outs(vx_g, vx_p, vx_js[k + 1] as int), vx_xs, vx_b, k + 1 == vx_js.len() - 1), others($o, vx_s, alts_outs(vx_g, vx_p, vx_js.skip(vx_js.len() - $i)), vx_xs, vx_m, vx_b), skips($o, vx_b), $i == 0 ==> idle($o)\n decreases $s@.len() - $i'
    SAME = 'proof { lemma_cok(vx_a, *$1, 0); assert(vars(*$1, vx_w) == vx_xs); }'
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S), proof='let ghost vx_k = $2; let ghost mut vx_a = *$1; let ghost mut vx_s = $2.success; let ghost mut vx_m = Seq::<char>::empty(); let ghost mut vx_b = Seq::<char>::empty(); let ghost vx_g = old($1).grammar; let ghost vx_xs = vars(*$1, wd(vx_g, is_p(self.compiler), self.choices@[0] as int)); let ghost vx_p = is_p(self.compiler); let ghost vx_js = self.choices@; let ghost vx_w = wd(vx_g, vx_p, vx_js[0] as int); proof { lemma_sup(vx_js); lemma_vars_made(*$1, vx_w); lemma_box_sound(vx_g, VxBox::%s(*self)); } ' % S + START % S,
        loops=[Loop('chain', L0, it='map.collect', 
                 pre='proof { vx_a = *$1; vx_s = continuation.success; vx_m = mark@; vx_b = branch_failed@; }',
                 body='let ghost vx_i = $i as int; proof { assert($s@[vx_i] == vx_js[vx_i]); lemma_sup(vx_js); assert(vx_js[vx_i] < sup(vx_js)); }',
                 tail='proof { assert(branch($o@[vx_i], vx_s, outs(vx_g, vx_p, vx_js[vx_i] as int), vx_xs, vx_b, false)); }'),
               Loop('chain', L1, it='rev.fold', clone='SynExpr::vx_clone',
                 pre='let ghost vx_l = vx_js.len() as int; proof { assert(vx_js.skip(vx_l) =~= Seq::<usize>::empty()); lemma_no_others($o, vx_g, vx_p, vx_s, vx_xs, vx_m, vx_b); }',
                 body='let ghost vx_j = vx_js.len() - 1 - $i; let ghost vx_c = $o; let ghost vx_d = $s@[vx_j - 1];',
                 tail='proof { lemma_alts_step(vx_g, vx_p, vx_js, vx_j); lemma_peg_outs(vx_g, vx_p, vx_js[vx_j] as int); lemma_retry($o, vx_d, vx_c, vx_s, outs(vx_g, vx_p, vx_js[vx_j] as int), alts_outs(vx_g, vx_p, vx_js.skip(vx_j + 1)), alts_outs(vx_g, vx_p, vx_js.skip(vx_j)), vx_xs, vx_m, vx_b, vx_j == vx_js.len() - 1); }')])

RULES = r"""
#[verifier::external_body] pub fn vx_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn vx_pat_tuple(v: &Vec<Ident>) -> (r: SynPat) ensures pat_names(r) == texts(v@), forall|x: Val| #[trigger] pat_parts(r, x) == untup(x, v@.len()) { unimplemented!() }
// the code calls the function of a rule, and goes on
pub open spec fn calls(c: SynExpr, succ: SynExpr, f: SynPath, xs: Seq<Seq<char>>, p: bool) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, c, s, e) == (match call(n, f, s) { None => None, Some(t) => if t.ok { match run(n, succ, extracted(t), if p { bound(e, xs, untup(t.data.unwrap(), xs.len())) } else { e }) { None => None, Some(z) => Some(Rs { s: z.s, e: if p { unbound(z.e, e, xs) } else { z.e } }) } } else { Some(Rs { s: failed(t.far), e }) } }) }
pub proof fn lemma_calls(c: SynExpr, succ: SynExpr, path: SynPath, xs: Seq<Seq<char>>, p: bool, q: Outs) requires calls(c, succ, renamed(path, if p { "parse"@ } else { "recognize"@ }), xs, p), !p ==> xs.len() == 0, forall|n: nat, s: St| ready(s) ==> #[trigger] q(n, s) == rule_out(p, path, xs.len(), n, s) ensures does(c, succ, q, xs)
{ assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, c, s, e) == fin(n, succ, q(n, s), xs, e) by { assert(q(n, s) == rule_out(p, path, xs.len(), n, s)); if !p { assert(xs =~= Seq::empty()); lemma_bound_none(e, e); if let Some(t) = call(n, renamed(path, "recognize"@), s) { if let Some(z) = run(n, succ, extracted(t), e) { lemma_bound_none(e, z.e); } } } } }
"""
def rules(u, q):
    u.raw(RULES)
    u.mcalls.update(reverse=lambda em, n: 'vx_reverse(&mut %s)' % em.e(n.x) if n.x.kind == 'path' and not n.args else None)
    q.at[None, 'tuple_pattern'] = [('pat', '')]
    u.fn(D + 'value.rs', None, 'tuple_pattern', spec='ensures pat_names(r) == texts($1@), forall|v: Val| #[trigger] pat_parts(r, v) == untup(v, $1@.len())')
    u.trust_all = True
    u.fn(NAM, None, 'modify_path', spec='ensures r == renamed($1, $2@)')
    u.trust_all = False
    for n, x in (('recognizer_name', 'recognize'), ('parser_name', 'parse')):
        u.fn(NAM, None, n, spec='ensures r == renamed($1, "%s"@)' % x)
    for n, x in (('recognizer_id', 'recognize'), ('parser_id', 'parse')):
        u.fn(NAM, None, n, spec='ensures r@ == "%s_"@ + $1@' % x, proof='proof { assert(Seq::<char>::empty() + "%s_"@ =~= "%s_"@); }' % (x, x))
    f = D + 'non_terminal.rs'
    S = 'NonTerminalRecognizerCompiler'
    PRE = START % S + ' let ghost vx_k = $2; let ghost vx_b = bouts(vx_old.grammar, vx_box); let ghost vx_xs = vars(vx_old, wide(vx_old.grammar, vx_box));'
    q.at[S, CE] = [('code', 'assert(calls($q, vx_k.success, renamed(self.path, "recognize"@), vx_xs, false)); lemma_calls($q, vx_k.success, self.path, vx_xs, false, vx_b);')]
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S), proof=PRE)
    S = 'NonTerminalParserCompiler'
    PRE = START % S + ' let ghost vx_k = $2; let ghost vx_b = bouts(vx_old.grammar, vx_box); let ghost vx_w = wide(vx_old.grammar, vx_box); let ghost vx_xs = vars(vx_old, vx_w);'
    q.at[S, CE] = [('code', 'assert(texts(vars_names@) =~= vx_xs); assert(calls($q, vx_k.success, renamed(self.path, "parse"@), vx_xs, true)); lemma_calls($q, vx_k.success, self.path, vx_xs, true, vx_b); lemma_cok(vx_old, *$1, vx_w);')]
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S), proof=PRE, loops=[Loop('chain', 'invariant $lo == 0, $hi == vx_w, $i <= $hi, cok(vx_old), vx_old.free_variables@.len() >= vx_w, $1.grammar == vx_old.grammar, $1.name_factory == vx_old.name_factory, $1.free_variables@ =~= vx_old.free_variables@.take(vx_old.free_variables@.len() - $i), $o@.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $o@[k] == vx_old.free_variables@[vx_old.free_variables@.len() - 1 - k]\n decreases $hi - $i', it='map.collect')])

FUNCS = r"""
// ---- the functions of a rule
#[verifier::external_body] pub struct SynGenerics { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub fn vx_generics(g: &TGrammar) -> (r: SynGenerics) { unimplemented!() }
pub uninterp spec fn item_name(i: SynItem) -> Seq<char>;
pub uninterp spec fn item_body(i: SynItem) -> SynExpr;
pub uninterp spec fn item_closures(i: SynItem) -> Seq<SynStmt>;
#[verifier::external_body] pub fn vx_item(x: &Ident, p: &SynFnArg, c: &Vec<SynStmt>, b: &SynExpr) -> (r: SynItem) requires par_of(*p) == Slot::State ensures item_name(r) == x@, item_body(r) == *b, item_closures(r) == c@ { unimplemented!() }
impl NameFactory { #[verifier::external_body] pub fn new() -> (r: NameFactory) ensures forall|x: Seq<char>| !#[trigger] made(r, x) { unimplemented!() } }
// the code ends here, with the values of the names xs
pub open spec fn yields(c: SynExpr, xs: Seq<Seq<char>>) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, c, s, e) == Some(Rs { s: successful(s, tup(env_vals(e, xs))), e }) }
pub open spec fn ended(o: Option<Out>, e: Env) -> Option<Rs> { match o { None => None, Some(o) => Some(Rs { s: if o.s.ok { successful(o.s, tup(o.v)) } else { o.s }, e }) } }
pub open spec fn wholly(r: SynExpr, o: Outs) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, r, s, e) == ended(o(n, s), e) }
pub open spec fn alias(r: SynExpr, f: SynPath) -> bool { forall|n: nat, s: St, e: Env| #[trigger] run(n, r, s, e) == (match call(n, f, s) { None => None, Some(t) => Some(Rs { s: t, e }) }) }
// the two functions of a rule
pub open spec fn recognizes(g: &TGrammar, rule: Rule, i: SynItem) -> bool { item_name(i) == "recognize_"@ + rule.name@ && wholly(item_body(i), outs(g, false, rule.expr_idx as int)) }
pub open spec fn parses(g: &TGrammar, rule: Rule, i: SynItem) -> bool { item_name(i) == "parse_"@ + rule.name@ && if ty_of(g, rule.expr_idx as int) is Unit { alias(item_body(i), renamed(path_of(rule.name@), "recognize"@)) } else { wholly(item_body(i), outs(g, true, rule.expr_idx as int)) } }
pub proof fn lemma_yields(c: SynExpr, xs: Seq<Seq<char>>, f: NameFactory) requires yields(c, xs), all_made(f, xs) ensures fresh(c, f)
{
  assert forall|y: Seq<char>| !made(f, y) implies #[trigger] blind(c, y) by { reveal(blind);
    assert forall|n: nat, s: St, e: Env, v: Val| ready(s) implies #[trigger] run(n, c, s, set(e, y, v)) == put(run(n, c, s, e), y, v) by {
      let a = env_vals(set(e, y, v), xs); let b = env_vals(e, xs); assert forall|i: int| 0 <= i < xs.len() implies a[i] == b[i] by { assert(xs.contains(xs[i])); } assert(a =~= b); } }
}
pub open spec fn no_names(xs: Seq<Seq<char>>) -> bool { xs == Seq::<Seq<char>>::empty() }
pub open spec fn yields_only(c: SynExpr, xs: Seq<Seq<char>>, o: Outs) -> bool { (forall|f: NameFactory| #[trigger] all_made(f, xs) ==> fresh(c, f)) && (xs.len() == 0 ==> forall|f: NameFactory| #[trigger] fresh(c, f)) && (sound(o, xs.len()) && xs.no_duplicates() ==> forall|r: SynExpr| #[trigger] does(r, c, o, xs) ==> wholly(r, o)) }
pub proof fn lemma_yields_only(c: SynExpr, xs: Seq<Seq<char>>, o: Outs) requires yields(c, xs) ensures yields_only(c, xs, o)
{
  assert forall|f: NameFactory| #[trigger] all_made(f, xs) implies fresh(c, f) by { lemma_yields(c, xs, f); }
  if xs.len() == 0 { assert forall|f: NameFactory| #[trigger] fresh(c, f) by { lemma_yields(c, xs, f); } }
  if sound(o, xs.len()) && xs.no_duplicates() { assert forall|r: SynExpr| #[trigger] does(r, c, o, xs) implies wholly(r, o) by { lemma_wholly(r, c, o, xs); } }
}
pub proof fn lemma_wholly(r: SynExpr, c: SynExpr, o: Outs, xs: Seq<Seq<char>>) requires does(r, c, o, xs), yields(c, xs), sound(o, xs.len()), xs.no_duplicates() ensures wholly(r, o)
{
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == ended(o(n, s), e) by {
    assert(run(n, r, s, e) == fin(n, c, o(n, s), xs, e));
    if let Some(x) = o(n, s) { if x.s.ok { lemma_env_vals(e, xs, x.v); assert(unbound(bound(e, xs, x.v), e, xs) =~= e); } } }
}
"""
MODULE = r"""
pub open spec fn rules_in(g: &TGrammar) -> bool { forall|k: int| 0 <= k < g.rules@.len() ==> (#[trigger] g.rules@[k]).expr_idx < size(g) }
pub open spec fn rule_of(g: &TGrammar, is: Seq<SynItem>, k: int) -> bool { recognizes(g, g.rules@[k], is[2 * k]) && parses(g, g.rules@[k], is[2 * k + 1]) }
pub open spec fn rules_of(g: &TGrammar, is: Seq<SynItem>, n: nat) -> bool { is.len() == 2 * n && forall|k: int| 0 <= k < n ==> #[trigger] rule_of(g, is, k) }
// what the macro makes: the items of the user as they are, the functions of the rules, the functions of the user
pub uninterp spec fn fn_items(m: VxMapFn) -> Seq<SynItem>;
pub open spec fn module_of(g: &TGrammar, is: Seq<SynItem>) -> bool { exists|rs: Seq<SynItem>| #[trigger] rules_of(g, rs, g.rules@.len()) && is =~= g.rust_items@ + rs + fn_items(g.rust_functions) }
#[verifier::external_body] pub fn vx_fn_items(m: &VxMapFn) -> (r: Vec<SynItem>) ensures r@ == fn_items(*m) { unimplemented!() }
impl VxClone for Vec<SynItem> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
"""
FN_ITEMS = re.compile(r'\.values\(\)\.cloned\(\)\.map\(syn::Item::Fn\)$')
def h_extend(em, n):
    """`v.extend(w)`: the elements of w go to the end of v"""
    a = n.args[0]
    t = re.sub(r'\s+', '', em.src[a.s:a.e])
    x = a
    while x.kind == 'mcall' and x.name in ('into_iter', 'cloned', 'map', 'values'):
        x = x.x
    if FN_ITEMS.search(t):
        em.u.assumed.add('the functions of a grammar are items of the module in some order')
        w = 'vx_fn_items(&%s)' % em.e(x)
    elif a is x and a.kind == 'path' or a.kind == 'mcall' and a.name == 'into_iter' and a.x is x:
        w = em.e(x)
    else:
        raise Unsupported('extend')
    return '({ let mut vx_more = %s; %s.append(&mut vx_more) })' % (w, em.e(n.x))
def q_item(em, d, body):
    b = re.sub(r'\s+', ' ', body)
    b = re.sub(r'^(# ?\[[^\]]*\] ?)*', '', b)
    m = re.match(r'pub fn #(\w+) #\w+ ?\( ?#(\w+) ?\) ?-> ?oak_runtime::ParseState ?<#\w+ ?, ?#\w+ ?> ?\{ ?# ?\( ?#(\w+) ?\) ?\* #(\w+) ?\}$', b)
    if m is None:
        raise Unsupported('function of a template: ' + b[:80])
    return 'vx_item(&%s, &%s, &%s, &%s)' % m.groups()

def funcs(u, q):
    u.raw(FUNCS)
    u.mcalls.update(stream_generics=lambda em, n: 'vx_generics(%s)' % em.e(n.x))
    u.calls['TypeCompiler::compile'] = lambda em, n: 'vx_some_type()'
    C, R = 'Context', D + 'rule.rs'
    u.fn(AST, 'Rule', 'ident', trait='ItemIdent', spec='ensures r == self.name')
    u.fn(CTX, C, 'new', spec='ensures r.grammar == $1, r.free_variables@.len() == 0, cok(r), r.closures@.len() == 0', proof='proof { assert(forall|s: Seq<Ident>| s.len() == 0 ==> #[trigger] texts(s) =~= Seq::empty()); }')
    q.at[C, 'function'] = [(q_item, '')]
    u.fn(CTX, C, 'function', spec='ensures item_name(r) == $1@, item_body(r) == $3, item_closures(r) == self.closures@')
    q.at[C, 'into_recognizer_function'] = [('type', '')]
    u.fn(CTX, C, 'into_recognizer_function', spec='ensures item_name(r) == "recognize_"@ + $2.name@, item_body(r) == $1, item_closures(r) == self.closures@')
    q.at[C, 'into_parser_alias'] = [('path', ''), ('code', 'assert(alias($q, renamed(path_of($1.name@), "recognize"@)));'), ('type', '')]
    u.fn(CTX, C, 'into_parser_alias', spec='ensures item_name(r) == "parse_"@ + $1.name@, alias(item_body(r), renamed(path_of($1.name@), "recognize"@)), item_closures(r) == self.closures@')
    u.fn(CTX, C, 'into_parser_function', spec='ensures item_name(r) == "parse_"@ + $2.name@, item_body(r) == $1, item_closures(r) == self.closures@')
    S = 'RuleCompiler'
    u.struct(R, S)
    u.fn(R, S, 'new', spec='ensures r.grammar == $1, r.rule == $2')
    u.fn(R, S, 'expr', spec='ensures r == self.rule.expr_idx')
    OK = 'requires gok(self.grammar), self.rule.expr_idx < size(self.grammar)'
    u.fn(R, S, 'parser_equals_recognizer', spec=OK + ' ensures r == (ty_of(self.grammar, self.rule.expr_idx as int) is Unit)')
    ANY = 'let i = self.rule.expr_idx as int; let o = outs(self.grammar, %(p)s, i); lemma_peg_outs(self.grammar, %(p)s, i); assert forall|xs: Seq<Seq<char>>| #[trigger] %(t)s && yields($q, xs) implies yields_only($q, xs, o) by { lemma_yields_only($q, xs, o); }'
    q.at[S, 'compile_recognizer'] = [('code', ANY % dict(p='false', t='no_names(xs)') + ' assert forall|c: Context| #[trigger] vars(c, 0) == Seq::<Seq<char>>::empty() by { lemma_vars(c); } assert(no_names(Seq::empty()));')] * 2
    u.fn(R, S, 'compile_recognizer', spec=OK + ' ensures recognizes(self.grammar, self.rule, r)')
    q.at[S, 'compile_parser'] = [('code', ANY % dict(p='true', t='tuple_of($h0, xs)')), ('code', '')]
    u.fn(R, S, 'compile_parser', spec=OK + ' ensures parses(self.grammar, self.rule, r)')
    G, GF = 'GrammarCompiler', D + 'grammar.rs'
    u.struct(GF, G)
    u.raw(MODULE)
    u.fn(R, S, 'compile', spec='requires gok($1), $2.expr_idx < size($1) ensures r@.len() == 2, recognizes($1, $2, r@[0]), parses($1, $2, r@[1])')
    u.fn(GF, G, 'new', spec='ensures r.grammar == $1')
    RULES_OK = 'gok(&self.grammar), rules_in(&self.grammar)'
    u.fn(GF, G, 'compile_rules', spec='requires %s ensures rules_of(&self.grammar, r@, self.grammar.rules@.len())' % RULES_OK, loops=[
        Loop('chain', 'invariant %s, $s@ == self.grammar.rules@, $i <= $s@.len(), rules_of(&self.grammar, $o@, $i as nat)\n decreases $s@.len() - $i' % RULES_OK, it='flat_map.collect', ety='Vec<SynItem>',
             body='let ghost vx_o = $o@; proof { assert($s@[$i as int].expr_idx < size(&self.grammar)); }', tail='proof { assert forall|k: int| 0 <= k < $i + 1 implies #[trigger] rule_of(&self.grammar, $o@, k) by { if k < $i { assert(rule_of(&self.grammar, vx_o, k)); } } }')])
    u.mcalls['extend'] = h_extend
    u.fn(GF, G, 'compile_mod_content', spec='requires %s ensures module_of(&self.grammar, r@)' % RULES_OK)

PUTS = r"""
pub proof fn lemma_cok_remove(a: Context, b: Context, j: int) requires cok(a), 0 <= j < a.free_variables@.len(), b.free_variables@ == a.free_variables@.remove(j), b.name_factory == a.name_factory ensures cok(b)
{
  let x = texts(a.free_variables@); let y = texts(b.free_variables@);
  assert forall|i: int, k: int| 0 <= i < y.len() && 0 <= k < y.len() && i != k implies y[i] != y[k] by { assert(y[i] == x[if i < j { i } else { i + 1 }]); assert(y[k] == x[if k < j { k } else { k + 1 }]); }
  assert forall|i: int| 0 <= i < b.free_variables@.len() implies made(b.name_factory, (#[trigger] b.free_variables@[i])@) by { assert(a.free_variables@[if i < j { i } else { i + 1 }] == b.free_variables@[i]); }
}
// `{ let x = v; succ }`
pub open spec fn puts(c: SynExpr, x: Seq<char>, v: SynExpr, succ: SynExpr) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, c, s, e) == (match run(n, succ, s, set(e, x, value(v, s, e))) { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, e, seq![x]) }) }) }
pub open spec fn heeds(v: SynExpr, f: NameFactory) -> bool { forall|y: Seq<char>, s: St, e: Env, w: Val| !made(f, y) ==> #[trigger] value(v, s, set(e, y, w)) == value(v, s, e) }
pub proof fn lemma_puts_fresh(c: SynExpr, x: Seq<char>, v: SynExpr, succ: SynExpr, f: NameFactory) requires puts(c, x, v, succ), heeds(v, f), fresh(succ, f), made(f, x) ensures fresh(c, f)
{
  assert forall|y: Seq<char>| !made(f, y) implies #[trigger] blind(c, y) by { assert(blind(succ, y)); reveal(blind);
    assert forall|n: nat, s: St, e: Env, w: Val| ready(s) implies #[trigger] run(n, c, s, set(e, y, w)) == put(run(n, c, s, e), y, w) by {
      let a = value(v, s, e); assert(value(v, s, set(e, y, w)) == a); lemma_swap(e, y, w, x, a); lemma_bound_one_all(e, x); let f1 = set(e, x, a);
      assert(run(n, succ, s, set(f1, y, w)) == put(run(n, succ, s, f1), y, w));
      if let Some(z) = run(n, succ, s, f1) { lemma_unbound_set(z.e, e, seq![x], y, w); } } }
}
pub proof fn lemma_blind_all(c: SynExpr, ys: Seq<Seq<char>>, vs: Seq<Val>, n: nat, s: St, e: Env) requires forall|y: Seq<char>| #[trigger] ys.contains(y) ==> blind(c, y), ready(s), ys.no_duplicates(), ys.len() == vs.len()
  ensures run(n, c, s, bound(e, ys, vs)) == (match run(n, c, s, e) { None => None, Some(r) => Some(Rs { s: r.s, e: bound(r.e, ys, vs) }) }), run(n, c, s, e) is Some ==> forall|y: Seq<char>| #[trigger] ys.contains(y) ==> (run(n, c, s, e).unwrap().e)(y) == e(y) decreases ys.len()
{
  if ys.len() == 0 { assert(ys =~= Seq::empty()); lemma_bound_none(e, e); if let Some(r) = run(n, c, s, e) { lemma_bound_none(r.e, e); } }
  else {
    let zs = ys.drop_last(); let us = vs.drop_last(); let y = ys.last(); let v = vs.last(); let k = ys.len() - 1;
    assert forall|x: Seq<char>| #[trigger] zs.contains(x) implies ys.contains(x) && x != y by { let j = zs.index_of(x); assert(ys[j] == x); }
    assert(ys.contains(y)) by { assert(ys[k] == y); }
    lemma_blind_all(c, zs, us, n, s, e); lemma_bound_last(e, ys, vs); lemma_blind(c, y, n, s, bound(e, zs, us), v); lemma_blind(c, y, n, s, e, v);
    if let Some(r) = run(n, c, s, e) { lemma_bound_last(r.e, ys, vs); assert forall|x: Seq<char>| #[trigger] ys.contains(x) implies (r.e)(x) == e(x) by { let j = ys.index_of(x); if j < k { assert(zs[j] == x); assert(zs.contains(x)); } } }
  }
}
pub proof fn lemma_bound_last(e: Env, ys: Seq<Seq<char>>, vs: Seq<Val>) requires ys.len() > 0, ys.no_duplicates(), ys.len() == vs.len() ensures bound(e, ys, vs) == set(bound(e, ys.drop_last(), vs.drop_last()), ys.last(), vs.last())
{
  let zs = ys.drop_last(); let us = vs.drop_last(); let k = ys.len() - 1;
  assert forall|y: Seq<char>| #[trigger] bound(e, ys, vs)(y) == set(bound(e, zs, us), ys.last(), vs.last())(y) by {
    if y == ys.last() { assert(ys[k] == y); assert(ys[ys.index_of(y)] == y); assert(ys.index_of(y) == k); }
    else if zs.contains(y) { let j = zs.index_of(y); assert(ys[j] == y); assert(ys[ys.index_of(y)] == y); assert(ys.index_of(y) == j); }
    else if ys.contains(y) { let j = ys.index_of(y); if j < k { assert(zs[j] == y); } } }
  assert(bound(e, ys, vs) =~= set(bound(e, zs, us), ys.last(), vs.last()));
}
// the action is applied to the values of the expression, which nothing after it sees
pub proof fn lemma_acts(r: SynExpr, c: SynExpr, x: Seq<char>, v: SynExpr, succ: SynExpr, ys: Seq<Seq<char>>, act: spec_fn(Seq<Val>) -> Val, o: Outs, q: Outs)
  requires does(r, c, o, ys), puts(c, x, v, succ), !ys.contains(x), forall|y: Seq<char>| #[trigger] ys.contains(y) ==> blind(succ, y), ys.no_duplicates(), sound(o, ys.len()), forall|s: St, e: Env| #[trigger] value(v, s, e) == act(env_vals(e, ys)),
    forall|n: nat, s: St| ready(s) ==> #[trigger] q(n, s) == (match o(n, s) { None => None, Some(y) => if y.s.ok { good(y.s, seq![act(y.v)]) } else { Some(y) } })
  ensures does(r, succ, q, seq![x])
{
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, r, s, e) == fin(n, succ, q(n, s), seq![x], e) by {
    assert(run(n, r, s, e) == fin(n, c, o(n, s), ys, e)); assert(q(n, s) == q(n, s));
    if let Some(y) = o(n, s) { if y.s.ok {
      let f = bound(e, ys, y.v); let a = act(y.v); lemma_env_vals(e, ys, y.v); assert(value(v, y.s, f) == a); lemma_bound_one_all(e, x);
      lemma_bound_set(e, ys, y.v, x, a); let e1 = set(e, x, a); assert(bound(e1, ys, y.v) == set(f, x, a)); lemma_blind_all(succ, ys, y.v, n, y.s, e1);
      assert(run(n, c, y.s, f) == (match run(n, succ, y.s, set(f, x, a)) { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, f, seq![x]) }) }));
      if let Some(z) = run(n, succ, y.s, e1) { let h = bound(z.e, ys, y.v); assert(unbound(unbound(h, f, seq![x]), e, ys) =~= unbound(z.e, e, seq![x])) by { assert forall|k: Seq<char>| #[trigger] unbound(unbound(h, f, seq![x]), e, ys)(k) == unbound(z.e, e, seq![x])(k) by { if ys.contains(k) { assert((z.e)(k) == e1(k)); } } } }
    } }
  }
}
// the stretch of text the expression takes, before its values
pub open spec fn stretch_of(v: SynExpr, m: Seq<char>, ranged: bool) -> bool { forall|s: St, e: Env| #[trigger] value(v, s, e) == (if ranged { range_of(e(m), Val::Mark(s.at)) } else { span_of(range_of(e(m), Val::Mark(s.at))) }) }
pub open spec fn marks_first(c: SynExpr, r: SynExpr, m: Seq<char>) -> bool { forall|n: nat, s: St, e: Env| ready(s) ==> #[trigger] run(n, c, s, e) == (match run(n, r, s, set(e, m, Val::Mark(s.at))) { None => None, Some(z) => Some(Rs { s: z.s, e: unbound(z.e, e, seq![m]) }) }) }
pub proof fn lemma_spans(c: SynExpr, r: SynExpr, t: SynExpr, m: Seq<char>, x: Seq<char>, v: SynExpr, succ: SynExpr, ys: Seq<Seq<char>>, ranged: bool, o: Outs, q: Outs)
  requires marks_first(c, r, m), does(r, t, o, ys), puts(t, x, v, succ), stretch_of(v, m, ranged), blind(succ, m), m != x, !ys.contains(m), !ys.contains(x), ys.no_duplicates(), sound(o, ys.len()), forall|n: nat, s: St| ready(s) ==> #[trigger] q(n, s) == span_of_(ranged, o(n, s), s)
  ensures does(c, succ, q, seq![x] + ys)
{
  let zs = seq![x] + ys; let xs = seq![x];
  assert(zs.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < zs.len() && 0 <= j < zs.len() && i != j implies zs[i] != zs[j] by { if i > 0 { assert(zs[i] == ys[i - 1]); assert(ys.contains(ys[i - 1])); } if j > 0 { assert(zs[j] == ys[j - 1]); assert(ys.contains(ys[j - 1])); } } }
  assert forall|k: Seq<char>| #[trigger] zs.contains(k) <==> (k == x || ys.contains(k)) by { if k == x { assert(zs[0] == k); } if ys.contains(k) { assert(zs[ys.index_of(k) + 1] == k); } if zs.contains(k) { let j = zs.index_of(k); if j > 0 { assert(ys[j - 1] == k); } } }
  assert forall|n: nat, s: St, e: Env| ready(s) implies #[trigger] run(n, c, s, e) == fin(n, succ, q(n, s), zs, e) by {
    let w = Val::Mark(s.at); let e1 = set(e, m, w); lemma_bound_one_all(e, m); lemma_bound_one_all(e, x);
    assert(run(n, r, s, e1) == fin(n, t, o(n, s), ys, e1)); assert(q(n, s) == span_of_(ranged, o(n, s), s));
    if let Some(y) = o(n, s) {
      if y.s.ok {
        let f = bound(e1, ys, y.v); assert(f(m) == w); let a = stretch(ranged, s.at, y.s.at); assert(value(v, y.s, f) == a);
        let b = bound(e, zs, seq![a] + y.v);
        lemma_bound_bound(e, xs, seq![a], ys, y.v); lemma_bound_set(e, ys, y.v, x, a); lemma_bound_set(e, ys, y.v, m, w);
        assert(set(f, x, a) =~= set(b, m, w)); lemma_blind(succ, m, n, y.s, b, w); assert(b(m) == e(m));
        assert(run(n, t, y.s, f) == (match run(n, succ, y.s, set(f, x, a)) { None => None, Some(r) => Some(Rs { s: r.s, e: unbound(r.e, f, seq![x]) }) }));
        if let Some(z) = run(n, succ, y.s, b) { assert(unbound(unbound(unbound(set(z.e, m, w), f, xs), e1, ys), e, seq![m]) =~= unbound(z.e, e, zs)); }
      } else { lemma_unbound_none(e, m, w); }
    }
  }
}
pub open spec fn act_of(v: bool, boxed: bool, a: SynExpr) -> spec_fn(Seq<Val>) -> Val { |vs: Seq<Val>| acted(v, boxed, a, vs) }
// an action that names a variant without fields stands for itself
pub struct VxSegment { pub ident: Ident }
pub struct VxSegments { pub segments: Vec<VxSegment> }
pub struct VxExprPath { pub path: VxSegments }
pub uninterp spec fn path_like(a: SynExpr) -> Option<VxExprPath>;
pub uninterp spec fn upper(c: char) -> bool;
pub open spec fn variant_like(a: SynExpr) -> bool { match path_like(a) { None => false, Some(p) => p.path.segments@.len() > 0 && p.path.segments@.last().ident@.len() > 0 && upper(p.path.segments@.last().ident@[0]) } }
#[verifier::external_body] pub proof fn lemma_variant(a: SynExpr) requires variant_like(a) ensures forall|s: St, e: Env| #[trigger] value(a, s, e) == Val::Named(a) {}
#[verifier::external_body] pub fn vx_as_path(a: &SynExpr) -> (r: Option<VxExprPath>) ensures r == path_like(*a) { unimplemented!() }
#[verifier::external_body] pub fn vx_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.last()) { unimplemented!() }
#[verifier::external_body] pub fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@[0]) { unimplemented!() }
// the text of an identifier, which is never empty
#[verifier::external_body] pub fn vx_ident_text(v: &Ident) -> (r: String) ensures r@ == v@, r@.len() > 0 { unimplemented!() }
pub struct VxChars { pub left: Ghost<Seq<char>> }
#[verifier::external_body] pub fn vx_chars(v: String) -> (r: VxChars) ensures r.left@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_next_char(v: VxChars) -> (r: Option<char>) ensures v.left@.len() == 0 ==> r is None, v.left@.len() > 0 ==> r == Some(v.left@[0]) { unimplemented!() }
#[verifier::external_body] pub fn vx_last_char(v: VxChars) -> (r: Option<char>) ensures v.left@.len() == 0 ==> r is None, v.left@.len() > 0 ==> r == Some(v.left@.last()) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_upper(c: char) -> (r: bool) ensures r == upper(c) { unimplemented!() }
"""
def actions(u, q):
    u.raw(PUTS)
    old_next = u.mcalls['next']
    isk = lambda n, name: n.kind == 'mcall' and n.name == name
    u.mcalls.update(next=lambda em, n: 'vx_next_char(%s)' % em.e(n.x) if isk(n.x, 'chars') else old_next(em, n),
        chars=lambda em, n: 'vx_chars(%s)' % em.e(n.x) if isk(n.x, 'to_string') else None,
        to_string=lambda em, n: 'vx_ident_text(&%s)' % em.e(n.x) if n.x.kind == 'field' and n.x.name == 'ident' else None,
        expect=wellformed.h_expect, is_uppercase=lambda em, n: 'vx_is_upper(%s)' % em.e(n.x),
        last=lambda em, n: 'vx_last_char(%s)' % em.e(n.x) if isk(n.x, 'chars') else 'vx_last(&%s)' % em.e(n.x) if n.x.kind == 'field' else None,
        first=lambda em, n: 'vx_first(&%s)' % em.e(n.x) if n.x.kind == 'field' else None)
    u.fn(CTX, 'Context', 'has_unit_type', spec='requires gok(self.grammar), $1 < size(self.grammar) ensures r == (ty_of(self.grammar, $1 as int) is Unit)')
    S = 'SemanticActionCompiler'
    f = D + 'semantic_action.rs'
    q.at[S, CE] = [('value', ''), ('value', 'if is_unit_variant { lemma_variant(self.action); }'), ('value', ''), ('value', ''),
        ('code', """assert(puts($q, $h0@, $h1, vx_k.success)); assert forall|s: St, e: Env| #[trigger] value($h1, s, e) == act_of(is_unit_variant, self.boxed, self.action)(env_vals(e, vx_ys)) by { assert(env_vals(e, vx_ys) =~= args.vx_vals(s, e)); }
assert(heeds($h1, $1.name_factory)) by { assert forall|y: Seq<char>, s: St, e: Env, w: Val| !made($1.name_factory, y) implies #[trigger] value($h1, s, set(e, y, w)) == value($h1, s, e) by { assert(env_vals(set(e, y, w), vx_ys) =~= env_vals(e, vx_ys)); } }
lemma_puts_fresh($q, $h0@, $h1, vx_k.success, $1.name_factory);
let g = vx_old.grammar; let o = outs(g, true, self.expr_idx as int); let b = bouts(g, vx_box); let act = act_of(is_unit_variant, self.boxed, self.action); lemma_peg_outs(g, true, self.expr_idx as int); lemma_vars_made(vx_old, 1); let x = $h0@; let v = $h1; let c = $q;
assert(!vx_ys.contains(x)); assert forall|y: Seq<char>| #[trigger] vx_ys.contains(y) implies blind(vx_k.success, y) by { assert(!made(vx_old.name_factory, y)); }
assert forall|r: SynExpr| #[trigger] does(r, c, o, vx_ys) implies does(r, vx_k.success, b, seq![x]) by { lemma_acts(r, c, x, v, vx_k.success, vx_ys, act, o, b); }""")]
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S), proof=START % S + ' let ghost vx_k = $2; let ghost mut vx_ys = Seq::<Seq<char>>::empty();',
        loops=[Loop('chain', 'invariant $i <= $s@.len(), texts($s@) == vx_ys, $o@.len() == $i, forall|k: int, s: St, e: Env| 0 <= k < $i ==> #[trigger] value($o@[k], s, e) == e(vx_ys[k])\n decreases $s@.len() - $i', it='map.collect', clone='Ident::vx_clone', ety='Vec<SynExpr>', pre='proof { vx_ys = texts($s@); }')])
    S = 'SpannedExprCompiler'
    f = D + 'spanned_expr.rs'
    KEEP = 'final(self).free_variables == old(self).free_variables, final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar'
    for fn in ('push_mark', 'pop_mark'):
        u.fn(CTX, 'Context', fn, spec='ensures %s' % KEEP)
    u.fn(CTX, 'Context', 'next_free_var_skip', spec='requires gok(old(self).grammar), $1 < size(old(self).grammar), old(self).free_variables@.len() >= 1 + card(ty_of(old(self).grammar, $1 as int)) ensures ({ let j = old(self).free_variables@.len() - 1 - card(ty_of(old(self).grammar, $1 as int)); r == old(self).free_variables@[j] && final(self).free_variables@ == old(self).free_variables@.remove(j) }), final(self).name_factory == old(self).name_factory, final(self).grammar == old(self).grammar, cok(*old(self)) ==> cok(*final(self)) && made(final(self).name_factory, r@)', proof='proof { let a = *self; assert forall|b: Context, j: int| 0 <= j < a.free_variables@.len() && b.name_factory == a.name_factory && b.free_variables@ == #[trigger] a.free_variables@.remove(j) && cok(a) implies #[trigger] cok(b) by { lemma_cok_remove(a, b, j); } }')
    q.at[S, CE] = [('value', ''), ('value', ''), ('code', '''vx_c = *$1; vx_t = $q; vx_x = $h0@; assert(puts($q, vx_x, $h1, vx_k.success)); assert(stretch_of($h1, lo_sp@, self.is_ranged));
assert(heeds($h1, $1.name_factory)); lemma_puts_fresh($q, vx_x, $h1, vx_k.success, $1.name_factory);'''),
        ('code', '''let m = $h0@; let ys = vars(vx_old, vx_w); let xs = vars(vx_old, vx_w + 1); assert(vars(vx_c, vx_w) =~= ys); assert(xs =~= seq![vx_x] + ys); lemma_vars_made(vx_old, vx_w); lemma_vars_made(vx_old, vx_w + 1); assert(marks_first($q, $h1, m));
assert(!ys.contains(vx_x)) by { if ys.contains(vx_x) { let j = ys.index_of(vx_x); assert(xs[j + 1] == ys[j]); assert(xs[0] == vx_x); } }
lemma_peg_outs(vx_old.grammar, true, self.expr_idx as int); lemma_spans($q, $h1, vx_t, m, vx_x, result_expr, vx_k.success, ys, self.is_ranged, outs(vx_old.grammar, true, self.expr_idx as int), bouts(vx_old.grammar, vx_box)); lemma_cok(vx_old, *$1, vx_w + 1);''')]
    u.fn(f, S, CE, trait='CompileExpr', spec=contract(S), proof=START % S + ' let ghost vx_k = $2; let ghost mut vx_c = *$1; let ghost mut vx_t = $2.success; let ghost mut vx_x = Seq::<char>::empty(); let ghost vx_w = wd(vx_old.grammar, true, self.expr_idx as int);')

VALFN = {}
VC = 'ensures forall|xs: Seq<Seq<char>>| #[trigger] tuple_of($2, xs) ==> keeps(r, xs, %%s), forall|xs: Seq<Seq<char>>, f: NameFactory| tuple_of($2, xs) && made(f, $1@) && #[trigger] all_made(f, xs) ==> fresh(r, f)'.replace('%%', '%')
def heart(u, q):
    """src/liboak/back/compiler/mod.rs and the functions of Context and Continuation that compile a sub-expression"""
    f = D + 'mod.rs'
    for n, p in (('recognizer_compiler', 'false'), ('parser_compiler', 'true')):
        u.fn(f, None, n, spec='requires gok($1), $2 < size($1) ensures means($1, r, %s, $2 as int) decreases $2, %sint' % (p, int(p == 'true')), proof='proof { lemma_means($1, $2 as int); }')
    u.raw("impl VxExprCompilerFn { pub fn vx_call(self, g: &TGrammar, i: usize) -> (r: VxBox) requires gok(g), i < size(g) ensures means(g, r, is_p(self), i as int) { match self { VxExprCompilerFn::recognizer_compiler => recognizer_compiler(g, i), VxExprCompilerFn::parser_compiler => parser_compiler(g, i) } } }\n")
    w = contract('', 'c', 'k', '*self') + ', fresh(r, final(c).name_factory), forall|p: bool, i: int| #[trigger] means(old(c).grammar, *self, p, i) ==> does(r, k.success, outs(old(c).grammar, p, i), vars(*old(c), wd(old(c).grammar, p, i))) && keeping(r, k.success, outs(old(c).grammar, p, i), vars(*old(c), wd(old(c).grammar, p, i)))'
    u.raw("""impl VxBox { pub fn compile_expr<'a>(&self, c: &mut Context<'a>, k: Continuation) -> (r: SynExpr) %s decreases rank(*self), 1int {
  let ghost a = *c; let ghost g = c.grammar; let ghost succ = k.success; proof { lemma_box_sound(g, *self); }
  let r = match self { %s };
  proof { lemma_vars_made(a, wide(g, *self)); lemma_fresh(r, succ, bouts(g, *self), vars(a, wide(g, *self)), a.name_factory, c.name_factory, wide(g, *self));
    assert forall|p: bool, i: int| #[trigger] means(g, *self, p, i) implies does(r, succ, outs(g, p, i), vars(a, wd(g, p, i))) && keeping(r, succ, outs(g, p, i), vars(a, wd(g, p, i))) by { assert(bouts(g, *self) =~= outs(g, p, i)); lemma_keeping(r, succ, outs(g, p, i), vars(a, wd(g, p, i))); } }
  r } }
""" % (w, ', '.join('VxBox::%s(x) => x.compile_expr(c, k)' % S for ff, S in COMPILERS)))
    C = 'requires gok(old({c}).grammar), {i} < size(old({c}).grammar), cok(*old({c})), old({c}).free_variables@.len() >= wd(old({c}).grammar, is_p({f}), {i} as int), failing({fail}), fresh({succ}, old({c}).name_factory) ensures compiled(*old({c}), *final({c}), {r}, {succ}, is_p({f}), {i} as int)'
    for k, n in enumerate(('compile', 'compile_success')):
        u.fn(CTX, 'Context', n, spec=C.format(c='self', f='$1', i='$2', succ='$3', fail='$4', r='r') + ' decreases $2, %dint' % (k + 2))
    u.fn(CON, CONT, 'compile_success', spec=C.format(c='$1', f='$2', i='$3', succ='self.success', fail='self.failure', r='r.success') + ', r.failure == self.failure decreases $3, 4int')


PEGSPEC = r'''
// ---- the meaning of an expression (parsing expression grammars with values; written from the documentation)
// the last expression of a grammar is there for the type of spans only
pub open spec fn size(g: &TGrammar) -> int { g.exprs@.len() - 1 }
pub open spec fn card(t: Type) -> nat { match t { Type::Unit => 0, Type::Tuple(ks) => ks@.len(), _ => 1 } }
pub open spec fn ty_of(g: &TGrammar, i: int) -> Type { g.exprs_info@[i].ty }
// how many values an expression gives to a parser (p), or to a recognizer
pub open spec fn wd(g: &TGrammar, p: bool, i: int) -> nat { if p { card(ty_of(g, i)) } else { 0 } }
pub uninterp spec fn path_of(x: Seq<char>) -> SynPath;
pub uninterp spec fn renamed(p: SynPath, prefix: Seq<char>) -> SynPath;      // the last segment x of the path is prefix_x
pub open spec fn rule_out(p: bool, f: SynPath, w: nat, n: nat, s: St) -> Option<Out> {
  match call(n, renamed(f, if p { "parse"@ } else { "recognize"@ }), s) { None => None, Some(t) => if t.ok { good(extracted(t), if p { untup(t.data.unwrap(), w) } else { Seq::empty() }) } else { bad(t.far) } }
}
pub open spec fn acted(v: bool, boxed: bool, a: SynExpr, vs: Seq<Val>) -> Val { let r = if v { Val::Named(a) } else { applied(a, vs) }; if boxed { crate::boxed(r) } else { r } }
pub open spec fn stretch(ranged: bool, a: nat, b: nat) -> Val { if ranged { Val::Range(a, b) } else { Val::Span(a, b) } }
pub open spec fn to_start(o: Option<Out>, s: St) -> Option<Out> { match o { None => None, Some(o) => good(St { ok: true, at: s.at, far: o.s.far, data: None }, Seq::empty()) } }
pub open spec fn opt_of(p: bool, o: Option<Out>, s: St) -> Option<Out> {
  match o { None => None, Some(o) => if o.s.ok { good(o.s, if p { seq![some_of(tup(o.v))] } else { Seq::empty() }) } else { good(St { ok: true, at: s.at, far: o.s.far, data: None }, if p { seq![Val::No] } else { Seq::empty() }) } }
}
pub open spec fn pred_of(not: bool, o: Option<Out>, s: St) -> Option<Out> {
  match o { None => None, Some(o) => if o.s.ok != not { good(St { ok: true, at: s.at, far: o.s.far, data: None }, Seq::empty()) } else { bad(o.s.far) } }
}
pub open spec fn action_of(g: &TGrammar, c: int, boxed: bool, a: SynExpr, o: Option<Out>) -> Option<Out> { match o { None => None, Some(o) => if o.s.ok { good(o.s, seq![acted(variant_like(a) && ty_of(g, c) is Unit, boxed, a, o.v)]) } else { Some(o) } } }
pub open spec fn span_of_(ranged: bool, o: Option<Out>, s: St) -> Option<Out> { match o { None => None, Some(o) => if o.s.ok { good(o.s, seq![stretch(ranged, s.at, o.s.at)] + o.v) } else { Some(o) } } }
pub open spec fn then(o: Option<Out>, vs: Seq<Val>) -> Option<Out> { match o { None => None, Some(o) => if o.s.ok { good(o.s, vs + o.v) } else { Some(o) } } }
// repetition: until the expression fails, `k` rounds at most; the number of rounds is counted
pub ghost struct Reps { pub s: St, pub c: nat, pub v: Seq<Val> }
pub open spec fn repo(g: &TGrammar, p: bool, c: int, n: nat, k: nat, s: St, vs: Seq<Val>) -> Option<Reps> decreases c, 3int, k {
  if k == 0 { None } else { match peg(g, p, n, c, s) { None => None, Some(o) => if o.s.ok { match repo(g, p, c, n, (k - 1) as nat, o.s, vs.push(tup(o.v))) { None => None, Some(r) => Some(Reps { c: r.c + 1, ..r }) } } else { Some(Reps { s: St { ok: true, at: s.at, far: o.s.far, data: None }, c: 0, v: vs }) } } }
}
pub open spec fn rep_out(p: bool, min: int, r: Option<Reps>) -> Option<Out> { match r { None => None, Some(r) => if r.c < min { bad(r.s.far) } else { good(r.s, if p { seq![Val::List(r.v)] } else { Seq::empty() }) } } }
pub open spec fn peg(g: &TGrammar, p: bool, n: nat, i: int, s: St) -> Option<Out> decreases i, 2int, 0int
{ if !(0 <= i < size(g)) { None } else if p && ty_of(g, i) is Unit { peg1(g, false, n, i, s) } else { peg1(g, p, n, i, s) } }
pub open spec fn peg1(g: &TGrammar, p: bool, n: nat, i: int, s: St) -> Option<Out> decreases i, 1int, 0int
{
  match g.exprs@[i] {
    StrLiteral(l) => lit_out(l@, n, s), AnySingleChar => any_out(p, n, s), CharacterClass(k) => class_out(p, k, n, s),
    Sequence(js) => peg_seq(g, p, n, i, js@, s), Choice(js) => peg_alt(g, p, n, i, js@, s),
    ZeroOrMore(c) => if c < i { rep_out(p, 0, repo(g, p, c as int, n, n, s, Seq::empty())) } else { None },
    OneOrMore(c) => if c < i { rep_out(p, 1, repo(g, p, c as int, n, n, s, Seq::empty())) } else { None },
    ZeroOrOne(c) => if c < i { opt_of(p, peg(g, p, n, c as int, s), s) } else { None },
    NotPredicate(c) => if c < i { pred_of(true, peg(g, false, n, c as int, s), s) } else { None },
    AndPredicate(c) => if c < i { pred_of(false, peg(g, false, n, c as int, s), s) } else { None },
    NonTerminalSymbol(id) => rule_out(p, path_of(id@), card(ty_of(g, i)), n, s), ExternalNonTerminalSymbol(f) => rule_out(p, f, card(ty_of(g, i)), n, s),
    SemanticAction(c, boxed, a) => if c < i { if p { action_of(g, c as int, boxed, a, peg(g, true, n, c as int, s)) } else { peg(g, false, n, c as int, s) } } else { None },
    TypeAscription(c, _) => if c < i { peg(g, p, n, c as int, s) } else { None },
    SpannedExpr(c) => if c < i { if p { span_of_(false, peg(g, true, n, c as int, s), s) } else { peg(g, false, n, c as int, s) } } else { None },
    RangeExpr(c) => if c < i { if p { span_of_(true, peg(g, true, n, c as int, s), s) } else { peg(g, false, n, c as int, s) } } else { None },
  }
}
pub open spec fn peg_seq(g: &TGrammar, p: bool, n: nat, i: int, js: Seq<usize>, s: St) -> Option<Out> decreases i, 0int, js.len()
{ if js.len() == 0 { good(s, Seq::empty()) } else if js[0] < i { match peg(g, p, n, js[0] as int, s) { None => None, Some(o) => if o.s.ok { then(peg_seq(g, p, n, i, js.drop_first(), o.s), o.v) } else { Some(o) } } } else { None } }
pub open spec fn peg_alt(g: &TGrammar, p: bool, n: nat, i: int, js: Seq<usize>, s: St) -> Option<Out> decreases i, 0int, js.len()
{ if js.len() == 0 { bad(s.far) } else if js[0] < i { match peg(g, p, n, js[0] as int, s) { None => None, Some(o) => if o.s.ok { Some(o) } else { peg_alt(g, p, n, i, js.drop_first(), St { ok: true, at: s.at, far: o.s.far, data: None }) } } } else { None } }
'''

# the compilers of expressions: (file, type)
COMPILERS = (('str_literal', 'StrLiteralCompiler'), ('character_class', 'CharacterClassCompiler'), ('any_single_char', 'AnySingleCharCompiler'), ('sequence', 'SequenceCompiler'), ('choice', 'ChoiceCompiler'),
             ('repeat', 'RepeatCompiler'), ('optional', 'OptionalCompiler'), ('syntactic_predicate', 'SyntacticPredicateCompiler'), ('non_terminal', 'NonTerminalRecognizerCompiler'), ('non_terminal', 'NonTerminalParserCompiler'),
             ('semantic_action', 'SemanticActionCompiler'), ('spanned_expr', 'SpannedExprCompiler'))

BOX = r'''
// ---- the compilers of expressions: what they compile to means, how many values it has, what they rely on
pub open spec fn in_g(g: &TGrammar, js: Seq<usize>) -> bool { forall|k: int| 0 <= k < js.len() ==> (#[trigger] js[k]) < size(g) }
pub open spec fn total(g: &TGrammar, p: bool, js: Seq<usize>) -> nat decreases js.len() { if js.len() == 0 { 0 } else { wd(g, p, js[0] as int) + total(g, p, js.drop_first()) } }
pub open spec fn is_p(f: VxExprCompilerFn) -> bool { f is parser_compiler }
pub open spec fn kind_p(k: CompilerKind) -> bool { k is Parser }
pub open spec fn outs(g: &TGrammar, p: bool, i: int) -> Outs { |n: nat, s: St| peg(g, p, n, i, s) }
pub open spec fn wide(g: &TGrammar, c: VxBox) -> nat {
  match c {
    VxBox::StrLiteralCompiler(c) => 0, VxBox::CharacterClassCompiler(c) => width1(c.bounded_var is bind_var), VxBox::AnySingleCharCompiler(c) => width1(c.matched_pattern is bind_value),
    VxBox::SequenceCompiler(c) => total(g, is_p(c.compiler), c.seq@), VxBox::ChoiceCompiler(c) => wd(g, is_p(c.compiler), c.choices@[0] as int),
    VxBox::RepeatCompiler(c) => width1(kind_p(c.compiler_kind)), VxBox::OptionalCompiler(c) => width1(kind_p(c.compiler_kind)), VxBox::SyntacticPredicateCompiler(c) => 0,
    VxBox::NonTerminalRecognizerCompiler(c) => 0, VxBox::NonTerminalParserCompiler(c) => card(ty_of(g, c.this_idx as int)), VxBox::SemanticActionCompiler(c) => 1, VxBox::SpannedExprCompiler(c) => 1 + card(ty_of(g, c.expr_idx as int)),
  }
}
pub open spec fn wf(g: &TGrammar, c: VxBox) -> bool {
  match c {
    VxBox::StrLiteralCompiler(c) => true, VxBox::CharacterClassCompiler(c) => c.classes.intervals@.len() > 0, VxBox::AnySingleCharCompiler(c) => true,
    VxBox::SequenceCompiler(c) => in_g(g, c.seq@), VxBox::ChoiceCompiler(c) => c.choices@.len() > 0 && in_g(g, c.choices@) && (forall|k: int| 0 <= k < c.choices@.len() ==> wd(g, is_p(c.compiler), (#[trigger] c.choices@[k]) as int) == wd(g, is_p(c.compiler), c.choices@[0] as int)),
    VxBox::RepeatCompiler(c) => c.expr_idx < size(g), VxBox::OptionalCompiler(c) => c.expr_idx < size(g), VxBox::SyntacticPredicateCompiler(c) => c.expr_idx < size(g),
    VxBox::NonTerminalRecognizerCompiler(c) => true, VxBox::NonTerminalParserCompiler(c) => c.this_idx < size(g), VxBox::SemanticActionCompiler(c) => c.expr_idx < size(g), VxBox::SpannedExprCompiler(c) => c.expr_idx < size(g),
  }
}
pub open spec fn bout(g: &TGrammar, c: VxBox, n: nat, s: St) -> Option<Out> {
  match c {
    VxBox::StrLiteralCompiler(c) => lit_out(c.literal@, n, s), VxBox::CharacterClassCompiler(c) => class_out(c.bounded_var is bind_var, c.classes, n, s), VxBox::AnySingleCharCompiler(c) => any_out(c.matched_pattern is bind_value, n, s),
    VxBox::SequenceCompiler(c) => peg_seq(g, is_p(c.compiler), n, size(g), c.seq@, s), VxBox::ChoiceCompiler(c) => peg_alt(g, is_p(c.compiler), n, size(g), c.choices@, s),
    VxBox::RepeatCompiler(c) => rep_out(kind_p(c.compiler_kind), c.cardinality_min as int, repo(g, kind_p(c.compiler_kind), c.expr_idx as int, n, n, s, Seq::empty())),
    VxBox::OptionalCompiler(c) => opt_of(kind_p(c.compiler_kind), peg(g, kind_p(c.compiler_kind), n, c.expr_idx as int, s), s),
    VxBox::SyntacticPredicateCompiler(c) => pred_of(c.kind is Not, peg(g, false, n, c.expr_idx as int, s), s),
    VxBox::NonTerminalRecognizerCompiler(c) => rule_out(false, c.path, 0, n, s), VxBox::NonTerminalParserCompiler(c) => rule_out(true, c.path, card(ty_of(g, c.this_idx as int)), n, s),
    VxBox::SemanticActionCompiler(c) => action_of(g, c.expr_idx as int, c.boxed, c.action, peg(g, true, n, c.expr_idx as int, s)),
    VxBox::SpannedExprCompiler(c) => span_of_(c.is_ranged, peg(g, true, n, c.expr_idx as int, s), s),
  }
}
// ---- expressions are compiled from the inside: what a compiler refers to is below its rank
pub open spec fn sup(js: Seq<usize>) -> int decreases js.len() { if js.len() == 0 { 0 } else { let r = sup(js.drop_last()); if js.last() >= r { js.last() + 1 } else { r } } }
pub open spec fn rank(c: VxBox) -> int {
  match c {
    VxBox::SequenceCompiler(c) => sup(c.seq@), VxBox::ChoiceCompiler(c) => sup(c.choices@), VxBox::RepeatCompiler(c) => c.expr_idx + 1, VxBox::OptionalCompiler(c) => c.expr_idx + 1,
    VxBox::SyntacticPredicateCompiler(c) => c.expr_idx + 1, VxBox::SemanticActionCompiler(c) => c.expr_idx + 1, VxBox::SpannedExprCompiler(c) => c.expr_idx + 1, _ => 0,
  }
}
pub proof fn lemma_sup(js: Seq<usize>) ensures sup(js) >= 0, forall|k: int| 0 <= k < js.len() ==> (#[trigger] js[k]) < sup(js), forall|i: int| i >= 0 && below(js, i) ==> sup(js) <= i decreases js.len()
{
  if js.len() > 0 { let t = js.drop_last(); lemma_sup(t);
    assert forall|k: int| 0 <= k < js.len() implies (#[trigger] js[k]) < sup(js) by { if k < js.len() - 1 { assert(t[k] == js[k]); } }
    assert forall|i: int| i >= 0 && below(js, i) implies sup(js) <= i by { assert(js[js.len() - 1] < i); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) < i by { assert(t[k] == js[k]); } assert(below(t, i)); } }
}
// ---- what the earlier passes hand over: references go back, types fit (C13, C17)
pub open spec fn typed_at(g: &TGrammar, i: int) -> bool {
  let v = !(ty_of(g, i) is Unit); let w = card(ty_of(g, i));
  match g.exprs@[i] {
    StrLiteral(l) => !v, AnySingleChar => v ==> w == 1, CharacterClass(k) => k.intervals@.len() > 0 && (v ==> w == 1),
    Sequence(js) => in_g(g, js@) && (v ==> total(g, true, js@) == w),
    Choice(js) => js@.len() > 0 && in_g(g, js@) && (v ==> forall|k: int| 0 <= k < js@.len() ==> wd(g, true, (#[trigger] js@[k]) as int) == w),
    ZeroOrMore(c) => v ==> w == 1, OneOrMore(c) => v ==> w == 1, ZeroOrOne(c) => v ==> w == 1, NotPredicate(c) => !v, AndPredicate(c) => !v,
    NonTerminalSymbol(id) => true, ExternalNonTerminalSymbol(f) => true, SemanticAction(c, _, _) => v ==> w == 1, TypeAscription(c, _) => v ==> w == card(ty_of(g, c as int)),
    SpannedExpr(c) => v ==> w == 1 + card(ty_of(g, c as int)), RangeExpr(c) => v ==> w == 1 + card(ty_of(g, c as int)),
  }
}
pub open spec fn gok(g: &TGrammar) -> bool { arena(g.exprs@) && g.exprs@.len() == g.exprs_info@.len() && forall|i: int| 0 <= i < size(g) ==> #[trigger] typed_at(g, i) }
'''

MEAN = r'''
pub open spec fn bouts(g: &TGrammar, c: VxBox) -> Outs { |n: nat, s: St| bout(g, c, n, s) }
pub open spec fn sound1(o: Option<Out>, w: nat) -> bool { match o { None => true, Some(o) => if o.s.ok { ready(o.s) && o.v.len() == w } else { o.s == failed(o.s.far) } } }
pub proof fn lemma_repo_sound(g: &TGrammar, p: bool, c: int, n: nat, k: nat, s: St, vs: Seq<Val>) requires gok(g), 0 <= c < size(g), ready(s) ensures match repo(g, p, c, n, k, s, vs) { None => true, Some(r) => ready(r.s) } decreases c, 3int, k
{ if k > 0 { lemma_peg_sound(g, p, n, c, s); if let Some(o) = peg(g, p, n, c, s) { if o.s.ok { lemma_repo_sound(g, p, c, n, (k - 1) as nat, o.s, vs.push(tup(o.v))); } } } }
pub proof fn lemma_peg_sound(g: &TGrammar, p: bool, n: nat, i: int, s: St) requires gok(g), ready(s), 0 <= i < size(g) ensures sound1(peg(g, p, n, i, s), wd(g, p, i)) decreases i, 2int, 0int
{ assert(typed_at(g, i)); if p && ty_of(g, i) is Unit { lemma_peg1_sound(g, false, n, i, s); } else { lemma_peg1_sound(g, p, n, i, s); } }
pub proof fn lemma_peg_outs(g: &TGrammar, p: bool, c: int) requires gok(g), 0 <= c < size(g) ensures sound(outs(g, p, c), wd(g, p, c)) decreases c, 3int, 0int
{ let f = outs(g, p, c); assert forall|n: nat, s: St| ready(s) implies match #[trigger] f(n, s) { None => true, Some(o) => if o.s.ok { ready(o.s) && o.v.len() == wd(g, p, c) } else { o.s == failed(o.s.far) } } by { lemma_peg_sound(g, p, n, c, s); } }
pub proof fn lemma_peg1_sound(g: &TGrammar, p: bool, n: nat, i: int, s: St) requires gok(g), ready(s), 0 <= i < size(g), p ==> !(ty_of(g, i) is Unit) ensures sound1(peg1(g, p, n, i, s), wd(g, p, i)) decreases i, 1int, 0int
{
  assert(typed_at(g, i)); let ks = kids(g.exprs@[i]);
  match g.exprs@[i] {
    Sequence(js) => { lemma_seq_sound(g, p, n, i, js@, s); if !p { lemma_total(g, js@); } },
    Choice(js) => { assert forall|k: int| 0 <= k < js@.len() implies wd(g, p, (#[trigger] js@[k]) as int) == wd(g, p, i) by { } lemma_alt_sound(g, p, n, i, js@, s, wd(g, p, i)); },
    ZeroOrMore(c) => { assert(ks[0] < i); lemma_repo_sound(g, p, c as int, n, n, s, Seq::empty()); },
    OneOrMore(c) => { assert(ks[0] < i); lemma_repo_sound(g, p, c as int, n, n, s, Seq::empty()); },
    ZeroOrOne(c) => { assert(ks[0] < i); lemma_peg_sound(g, p, n, c as int, s); },
    NotPredicate(c) => { assert(ks[0] < i); lemma_peg_sound(g, false, n, c as int, s); },
    AndPredicate(c) => { assert(ks[0] < i); lemma_peg_sound(g, false, n, c as int, s); },
    SemanticAction(c, boxed, a) => { assert(ks[0] < i); lemma_peg_sound(g, p, n, c as int, s); },
    TypeAscription(c, _) => { assert(ks[0] < i); lemma_peg_sound(g, p, n, c as int, s); },
    SpannedExpr(c) => { assert(ks[0] < i); lemma_peg_sound(g, p, n, c as int, s); },
    RangeExpr(c) => { assert(ks[0] < i); lemma_peg_sound(g, p, n, c as int, s); },
    _ => {},
  }
}
pub proof fn lemma_total(g: &TGrammar, js: Seq<usize>) ensures total(g, false, js) == 0 decreases js.len() { if js.len() > 0 { lemma_total(g, js.drop_first()); } }
pub open spec fn below(js: Seq<usize>, i: int) -> bool { forall|k: int| 0 <= k < js.len() ==> (#[trigger] js[k]) < i }
pub proof fn lemma_kids(g: &TGrammar, i: int) requires gok(g), 0 <= i < size(g) ensures below(kids(g.exprs@[i]), i), in_g(g, kids(g.exprs@[i])) { assert forall|k: int| 0 <= k < kids(g.exprs@[i]).len() implies (#[trigger] kids(g.exprs@[i])[k]) < i by { } }
pub proof fn lemma_seq_sound(g: &TGrammar, p: bool, n: nat, i: int, js: Seq<usize>, s: St) requires gok(g), ready(s), in_g(g, js), i <= size(g) ensures sound1(peg_seq(g, p, n, i, js, s), total(g, p, js)) decreases i, 0int, js.len()
{ if js.len() > 0 && js[0] < i { lemma_peg_sound(g, p, n, js[0] as int, s); assert(in_g(g, js.drop_first())) by { assert forall|k: int| 0 <= k < js.drop_first().len() implies (#[trigger] js.drop_first()[k]) < size(g) by { assert(js.drop_first()[k] == js[k + 1]); } }
  if let Some(o) = peg(g, p, n, js[0] as int, s) { if o.s.ok { lemma_seq_sound(g, p, n, i, js.drop_first(), o.s); } } } }
pub proof fn lemma_alt_sound(g: &TGrammar, p: bool, n: nat, i: int, js: Seq<usize>, s: St, w: nat) requires gok(g), ready(s), in_g(g, js), i <= size(g), forall|k: int| 0 <= k < js.len() ==> wd(g, p, (#[trigger] js[k]) as int) == w ensures sound1(peg_alt(g, p, n, i, js, s), w) decreases i, 0int, js.len()
{ if js.len() > 0 && js[0] < i { lemma_peg_sound(g, p, n, js[0] as int, s); let t = js.drop_first(); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) < size(g) && wd(g, p, t[k] as int) == w by { assert(t[k] == js[k + 1]); }
  if let Some(o) = peg(g, p, n, js[0] as int, s) { if !o.s.ok { lemma_alt_sound(g, p, n, i, t, St { ok: true, at: s.at, far: o.s.far, data: None }, w); } } } }
pub proof fn lemma_box_sound(g: &TGrammar, c: VxBox) requires gok(g), wf(g, c) ensures sound(bouts(g, c), wide(g, c))
{
  let f = bouts(g, c);
  assert forall|n: nat, s: St| ready(s) implies match #[trigger] f(n, s) { None => true, Some(o) => if o.s.ok { ready(o.s) && o.v.len() == wide(g, c) } else { o.s == failed(o.s.far) } } by {
    match c {
      VxBox::SequenceCompiler(c) => lemma_seq_sound(g, is_p(c.compiler), n, size(g), c.seq@, s),
      VxBox::ChoiceCompiler(c) => lemma_alt_sound(g, is_p(c.compiler), n, size(g), c.choices@, s, wd(g, is_p(c.compiler), c.choices@[0] as int)),
      VxBox::RepeatCompiler(c) => lemma_repo_sound(g, kind_p(c.compiler_kind), c.expr_idx as int, n, n, s, Seq::empty()),
      VxBox::OptionalCompiler(c) => lemma_peg_sound(g, kind_p(c.compiler_kind), n, c.expr_idx as int, s),
      VxBox::SyntacticPredicateCompiler(c) => lemma_peg_sound(g, false, n, c.expr_idx as int, s),
      VxBox::SemanticActionCompiler(c) => lemma_peg_sound(g, true, n, c.expr_idx as int, s),
      VxBox::SpannedExprCompiler(c) => lemma_peg_sound(g, true, n, c.expr_idx as int, s),
      _ => {},
    }
  }
}
// the bound of a list of references does not matter
pub proof fn lemma_seq_bound(g: &TGrammar, p: bool, n: nat, i: int, j: int, js: Seq<usize>, s: St) requires below(js, i), below(js, j) ensures peg_seq(g, p, n, i, js, s) == peg_seq(g, p, n, j, js, s) decreases js.len()
{ if js.len() > 0 { let t = js.drop_first(); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) < i && t[k] < j by { assert(t[k] == js[k + 1]); } if let Some(o) = peg(g, p, n, js[0] as int, s) { lemma_seq_bound(g, p, n, i, j, t, o.s); } } }
pub proof fn lemma_alt_bound(g: &TGrammar, p: bool, n: nat, i: int, j: int, js: Seq<usize>, s: St) requires below(js, i), below(js, j) ensures peg_alt(g, p, n, i, js, s) == peg_alt(g, p, n, j, js, s) decreases js.len()
{ if js.len() > 0 { let t = js.drop_first(); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) < i && t[k] < j by { assert(t[k] == js[k + 1]); } if let Some(o) = peg(g, p, n, js[0] as int, s) { lemma_alt_bound(g, p, n, i, j, t, St { ok: true, at: s.at, far: o.s.far, data: None }); } } }
// b, from a: the code r does what the expression i means and goes on with succ
pub open spec fn compiled(a: Context, b: Context, r: SynExpr, succ: SynExpr, p: bool, i: int) -> bool { post(a, b, wd(a.grammar, p, i)) && does(r, succ, outs(a.grammar, p, i), vars(a, wd(a.grammar, p, i))) && fresh(r, b.name_factory) && keeping(r, succ, outs(a.grammar, p, i), vars(a, wd(a.grammar, p, i))) }
pub open spec fn means(g: &TGrammar, c: VxBox, p: bool, i: int) -> bool { wf(g, c) && rank(c) <= i && wide(g, c) == wd(g, p, i) && forall|n: nat, s: St| #[trigger] bout(g, c, n, s) == peg(g, p, n, i, s) }
'''

MEANS = r'''
pub proof fn lemma_means(g: &TGrammar, i: int) requires gok(g), 0 <= i < size(g)
  ensures typed_at(g, i), below(kids(g.exprs@[i]), i), in_g(g, kids(g.exprs@[i])), kids(g.exprs@[i]).len() == 1 ==> kids(g.exprs@[i])[0] < i,
    match g.exprs@[i] { Sequence(js) => (forall|p: bool, n: nat, s: St| #[trigger] peg_seq(g, p, n, size(g), js@, s) == peg_seq(g, p, n, i, js@, s)) && total(g, false, js@) == 0 && sup(js@) <= i, Choice(js) => sup(js@) <= i && forall|p: bool, n: nat, s: St| #[trigger] peg_alt(g, p, n, size(g), js@, s) == peg_alt(g, p, n, i, js@, s), _ => true }
{
  assert(typed_at(g, i)); lemma_kids(g, i); lemma_sup(kids(g.exprs@[i])); let l = size(g);
  match g.exprs@[i] {
    Sequence(js) => { lemma_total(g, js@); assert forall|p: bool, n: nat, s: St| #[trigger] peg_seq(g, p, n, l, js@, s) == peg_seq(g, p, n, i, js@, s) by { lemma_seq_bound(g, p, n, l, i, js@, s); } },
    Choice(js) => { assert forall|p: bool, n: nat, s: St| #[trigger] peg_alt(g, p, n, l, js@, s) == peg_alt(g, p, n, i, js@, s) by { lemma_alt_bound(g, p, n, l, i, js@, s); } },
    _ => {},
  }
}
#[verifier::external_body] pub fn vx_expr_at(g: &TGrammar, i: usize) -> (r: Expression) requires i < g.exprs@.len() ensures r == g.exprs@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn vx_path_of(x: &Ident) -> (r: SynPath) ensures r == path_of(x@) { unimplemented!() }
#[verifier::external_body] pub fn vx_some_type() -> (r: SynType) { unimplemented!() }
#[verifier::external_body] pub fn vx_more(a: usize, b: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_unit(t: &Type) -> (r: bool) ensures r == (*t is Unit) { unimplemented!() }
'''
