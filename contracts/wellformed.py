"""Contracts of src/liboak/middle/analysis/well_formedness.rs (C14)."""
from vx import *
import astlib
F = 'src/liboak/middle/analysis/well_formedness.rs'

STUB = r'''
pub struct FExpressionInfo { pub span: Span }
pub type AGrammar = Grammar<FExpressionInfo>;
impl VxDisplay for usize { uninterp spec fn display(&self) -> Seq<char>; }
// HashMap<Ident, V> (assumed: a map keyed by the text of the identifier)
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct VxMap<V> { x: std::marker::PhantomData<V> }
impl<V: Copy> VxMap<V> {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body] pub fn vx_get(&self, k: &Ident) -> (r: V) requires self@.dom().contains(k@) ensures r == self@[k@] { unimplemented!() }
  #[verifier::external_body] pub fn vx_set(&mut self, k: &Ident, v: V) requires old(self)@.dom().contains(k@) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
  #[verifier::external_body] pub fn vx_collect(s: Vec<(Ident, V)>) -> (r: Self) ensures r@ == map_of(s@) { unimplemented!() }
}
pub open spec fn map_of<V>(s: Seq<(Ident, V)>) -> Map<Seq<char>, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0@, s.last().1) } }
pub proof fn lemma_map_of<V>(s: Seq<(Ident, V)>, n: Seq<char>)
  ensures map_of(s).dom().contains(n) == (exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0@ == n), map_of(s).dom().contains(n) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0@ == n && s[k].1 == map_of(s)[n]
  decreases s.len()
{
  if s.len() > 0 {
    let a = s.drop_last(); lemma_map_of(a, n);
    assert(forall|k: int| 0 <= k < a.len() ==> a[k] == s[k]);
    assert(s[s.len() - 1] == s.last());
    if exists|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0@ == n { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0@ == n; assert(s[k].0@ == n); }
    if s.last().0@ != n && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0@ == n { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0@ == n; assert(k < a.len()); assert(a[k].0@ == n); }
  }
}
// HashSet<usize> (assumed)
#[verifier::external_body] pub struct VxUSet { x: std::marker::PhantomData<u8> }
impl VxUSet {
  pub uninterp spec fn view(&self) -> Set<usize>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, v: usize) -> (r: bool) ensures r == !old(self)@.contains(v), final(self)@ == old(self)@.insert(v) { unimplemented!() }
}
#[verifier::external_body] pub fn display_path_cycle(path: &Vec<Ident>) -> (r: String) requires path@.len() > 0 { unimplemented!() }
pub fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }
pub fn vx_copy(p: &(Ident, bool)) -> (r: (Ident, bool)) ensures r == *p { (p.0.clone(), p.1) }
'''

SPEC = r'''
pub open spec fn ext_consumes() -> bool { forall|p: SynPath, s: Seq<char>| (#[trigger] ext(p, s)).is_some() ==> ext(p, s).unwrap().len() < s.len() }
pub open spec fn grammar_ok(g: Gr) -> bool {
  arena(g.es) && (forall|k: int| 0 <= k < g.rs.len() ==> (#[trigger] g.rs[k]).expr_idx < g.es.len())
  && (forall|i: int| 0 <= i < g.es.len() ==> match #[trigger] g.es[i] { NonTerminalSymbol(id) => names_rule(g.rs, id@), Choice(ks) => ks@.len() > 0, _ => true })
}
pub type Tab = Map<Seq<char>, WFA>;
pub open spec fn valid(w: WFA) -> bool { (w.can_fail || w.can_succeed) && !(w.always_consume && w.never_consume) }
pub open spec fn w4(cf: bool, cs: bool, ac: bool, nc: bool) -> WFA { WFA { can_fail: cf, can_succeed: cs, always_consume: ac, never_consume: nc } }
// what an expression can do, given what the rules can do
pub open spec fn wfa(g: Gr, t: Tab, i: int) -> WFA decreases i, 1nat, 0nat {
  if !(0 <= i < g.es.len()) { w4(true, true, true, false) } else {
    match g.es[i] {
      StrLiteral(l) => if l@.len() == 0 { w4(false, true, false, false) } else { w4(true, true, true, false) },
      AnySingleChar => w4(true, true, true, false), CharacterClass(_) => w4(true, true, true, false), ExternalNonTerminalSymbol(_) => w4(true, true, true, false),
      NonTerminalSymbol(id) => t[id@],
      Sequence(ks) => if below(ks@, i) { wfa_seq(g, t, ks@, i) } else { w4(true, true, true, false) },
      Choice(ks) => if below(ks@, i) { wfa_choice(g, t, ks@, i) } else { w4(true, true, true, false) },
      ZeroOrMore(c) => w4(false, true, false, c < i && wfa(g, t, c as int).never_consume),
      ZeroOrOne(c) => w4(false, true, false, c < i && wfa(g, t, c as int).never_consume),
      NotPredicate(c) => if c < i { let w = wfa(g, t, c as int); w4(w.can_succeed, w.can_fail, false, true) } else { w4(true, true, true, false) },
      AndPredicate(c) => if c < i { let w = wfa(g, t, c as int); w4(w.can_fail, w.can_succeed, false, true) } else { w4(true, true, true, false) },
      OneOrMore(c) => if c < i { wfa(g, t, c as int) } else { w4(true, true, true, false) },
      SemanticAction(c, _, _) => if c < i { wfa(g, t, c as int) } else { w4(true, true, true, false) },
      TypeAscription(c, _) => if c < i { wfa(g, t, c as int) } else { w4(true, true, true, false) },
      SpannedExpr(c) => if c < i { wfa(g, t, c as int) } else { w4(true, true, true, false) },
      RangeExpr(c) => if c < i { wfa(g, t, c as int) } else { w4(true, true, true, false) },
    }
  }
}
pub open spec fn below(s: Seq<usize>, i: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < i }
pub open spec fn wfa_seq(g: Gr, t: Tab, ks: Seq<usize>, i: int) -> WFA decreases i, 0nat, ks.len() + 1
{
  if ks.len() == 0 || !(ks.last() < i) { w4(false, true, false, true) } else {
    let a = wfa_seq(g, t, ks.drop_last(), i); let w = wfa(g, t, ks.last() as int);
    w4(a.can_fail || w.can_fail, a.can_succeed && w.can_succeed, a.always_consume || w.always_consume, a.never_consume && w.never_consume)
  }
}
pub open spec fn wfa_choice(g: Gr, t: Tab, ks: Seq<usize>, i: int) -> WFA decreases i, 0nat, ks.len() + 1
{
  if ks.len() == 0 || !(ks.last() < i) { w4(true, false, true, true) } else {
    let a = wfa_choice(g, t, ks.drop_last(), i); let w = wfa(g, t, ks.last() as int);
    w4(a.can_fail && w.can_fail, a.can_succeed || w.can_succeed, a.always_consume && w.always_consume, a.never_consume && w.never_consume)
  }
}
// ---- the recursion path: (rule, had input been consumed in the rule before it when it was called)
pub open spec fn in_path(p: Seq<(Ident, bool)>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0@ == n }
pub open spec fn since(p: Seq<(Ident, bool)>, n: Seq<char>) -> bool decreases p.len() { if p.len() == 0 || p.last().0@ == n { false } else { p.last().1 || since(p.drop_last(), n) } }
pub open spec fn tail_of(p: Seq<(Ident, bool)>, n: Seq<char>) -> Seq<(Ident, bool)> decreases p.len() { if p.len() == 0 || p.last().0@ == n { Seq::empty() } else { seq![p.last()] + tail_of(p.drop_last(), n) } }
pub open spec fn any_flag(p: Seq<(Ident, bool)>) -> bool { exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).1 }
pub proof fn lemma_since(p: Seq<(Ident, bool)>, n: Seq<char>) ensures since(p, n) == any_flag(tail_of(p, n)) decreases p.len() {
  if !(p.len() == 0 || p.last().0@ == n) {
    let q = tail_of(p.drop_last(), n); let r = seq![p.last()] + q;
    lemma_since(p.drop_last(), n);
    assert(r[0] == p.last());
    if any_flag(q) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1; assert(r[k + 1] == q[k]); }
    if any_flag(r) { let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).1; if k > 0 { assert(q[k - 1] == r[k]); } }
  }
}
// rules that are not in the path
pub open spec fn free(rs: Seq<Rule>, p: Seq<(Ident, bool)>) -> nat decreases rs.len() { if rs.len() == 0 { 0 } else { free(rs.drop_last(), p) + if in_path(p, rs.last().name@) { 0nat } else { 1nat } } }
pub proof fn lemma_in_path(p: Seq<(Ident, bool)>, x: (Ident, bool), n: Seq<char>) ensures in_path(p.push(x), n) == (in_path(p, n) || x.0@ == n) {
  let q = p.push(x);
  if in_path(p, n) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0@ == n; assert(q[k] == p[k]); }
  if in_path(q, n) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0@ == n; if k < p.len() { assert(p[k] == q[k]); } }
  assert(q[p.len() as int] == x);
}
pub proof fn lemma_free(rs: Seq<Rule>, p: Seq<(Ident, bool)>, x: (Ident, bool))
  ensures free(rs, p.push(x)) <= free(rs, p), names_rule(rs, x.0@) && !in_path(p, x.0@) ==> free(rs, p.push(x)) < free(rs, p)
  decreases rs.len()
{
  if rs.len() > 0 {
    lemma_free(rs.drop_last(), p, x); lemma_in_path(p, x, rs.last().name@);
    if names_rule(rs, x.0@) && rs.last().name@ != x.0@ { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == x.0@; assert(rs.drop_last()[k] == rs[k]); }
  }
}
// ---- what acceptance means, for an expression reached along the path `p` (`c`: has input been consumed in the current rule?)
pub open spec fn local_ok(g: Gr, t: Tab, i: int) -> bool {
  match g.es[i] { ZeroOrMore(c) => loops_ok(wfa(g, t, c as int)), OneOrMore(c) => loops_ok(wfa(g, t, c as int)), _ => true }
}
pub open spec fn loops_ok(w: WFA) -> bool { w.can_succeed ==> w.always_consume }
pub open spec fn consumed_before(g: Gr, t: Tab, ks: Seq<usize>, n: int) -> bool decreases n { n > 0 && (wfa(g, t, ks[n - 1] as int).always_consume || consumed_before(g, t, ks, n - 1)) }
pub open spec fn okx(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, c: bool, i: int) -> bool decreases n, i
{
  0 <= i < g.es.len() && local_ok(g, t, i) && match g.es[i] {
    NonTerminalSymbol(id) => if in_path(p, id@) { since(p, id@) || c } else { let q = p.push((id, c)); names_rule(g.rs, id@) && free(g.rs, q) < n && okx(g, t, free(g.rs, q), q, false, rule_expr(g.rs, id@)) },
    Sequence(ks) => forall|k: int| 0 <= k < ks@.len() ==> (#[trigger] ks@[k]) < i && okx(g, t, n, p, c || consumed_before(g, t, ks@, k), ks@[k] as int),
    _ => forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i && okx(g, t, n, p, c, kids(g.es[i])[k] as int),
  }
}
pub open spec fn okr(g: Gr, t: Tab, p: Seq<(Ident, bool)>, c: bool, id: Ident) -> bool {
  if in_path(p, id@) { since(p, id@) || c } else { let q = p.push((id, c)); okx(g, t, free(g.rs, q), q, false, rule_expr(g.rs, id@)) }
}
pub open spec fn accepted(g: Gr, t: Tab) -> bool { forall|k: int| 0 <= k < g.rs.len() ==> okr(g, t, Seq::empty(), false, (#[trigger] g.rs[k]).name) && t[g.rs[k].name@] == wfa(g, t, rule_expr(g.rs, g.rs[k].name@)) }

// the text of the identifier is all that matters
pub open spec fn tables(g: Gr, t: Tab) -> bool { forall|k: int| 0 <= k < g.rs.len() ==> t.dom().contains((#[trigger] g.rs[k]).name@) && valid(t[g.rs[k].name@]) }
pub proof fn lemma_rule(rs: Seq<Rule>, n: Seq<char>) requires names_rule(rs, n) ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n && rule_expr(rs, n) == rs[k].expr_idx && forall|j: int| 0 <= j < k ==> (#[trigger] rs[j]).name@ != n decreases rs.len()
{
  let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n;
  if rs[0].name@ != n {
    let t = rs.drop_first(); assert(t[k - 1] == rs[k]); lemma_rule(t, n);
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).name@ == n && rule_expr(t, n) == t[j].expr_idx && forall|m: int| 0 <= m < j ==> (#[trigger] t[m]).name@ != n;
    assert(rs[j + 1] == t[j]);
    assert forall|m: int| 0 <= m < j + 1 implies (#[trigger] rs[m]).name@ != n by { if m > 0 { assert(t[m - 1] == rs[m]); } }
  }
}
impl<'a> WellFormedness<'a> {
  pub open spec fn g(&self) -> Gr { Gr { es: self.grammar.exprs@, rs: self.grammar.rules@ } }
  pub open spec fn p(&self) -> Seq<(Ident, bool)> { self.recursion_path@ }
  pub open spec fn t(&self) -> Tab { self.rules_wfa@ }
  pub open spec fn inv(&self) -> bool { grammar_ok(self.g()) && tables(self.g(), self.t()) && (self.well_formed ==> self.errors@ =~= Set::<usize>::empty()) }
  // what a visit leaves as it was, and what may have changed
  pub open spec fn after(&self, o: Self) -> bool {
    self.inv() && self.grammar == o.grammar && self.p() == o.p() && self.consumed_input == o.consumed_input
    && (self.well_formed ==> o.well_formed) && (self.reached_fixpoint ==> o.reached_fixpoint && self.t() == o.t())
  }
  pub open spec fn clean(&self) -> bool { self.well_formed && self.reached_fixpoint }
  pub open spec fn ok(&self, i: int) -> bool { okx(self.g(), self.t(), free(self.g().rs, self.p()), self.p(), self.consumed_input, i) }
}
'''

def h_index(em, n):
    if n.kind == 'index' and em.src[n.x.s:n.x.e] == 'self.rules_wfa':
        k = n.ix.x if n.ix.kind == 'ref' else n.ix
        return 'self.rules_wfa.vx_get(%s)' % em.e(k)
def h_swap(em, n):
    a, b = [em.e(x.x) if x.kind == 'ref' else '*' + em.e(x) for x in n.args]
    return '{ let vx_t = %s; %s = %s; %s = vx_t; }' % (a, a, b, b)
def h_set_new(em, n):
    return 'VxUSet::new()'
def node_hook(em, n):
    if n.kind == 'assign' and n.op in ('|=', '&='):     # on booleans
        return '{ let vx_r: bool = %s; %s = %s %s vx_r; }' % (em.e(n.r), em.e(n.l), em.e(n.l), n.op[0] * 2)
    if n.kind == 'assign' and n.l.kind in ('unary', 'deref'):
        m = re.match(r'\*\s*self\.rules_wfa\.get_mut\((.*)\)\s*\.unwrap\(\)$', em.src[n.l.s:n.l.e], re.S)
        if m:
            return 'self.rules_wfa.vx_set(%s, %s)' % (m.group(1).strip().lstrip('&'), em.e(n.r))
    return h_index(em, n)
def h_extend(em, n):
    c = rs.Node('mcall', n.args[0].s, n.args[0].e, x=n.args[0], name='collect', args=[])
    return 'vx_extend(&mut %s, %s)' % (em.e(n.x), em.e(c))

MORE = r'''
#[verifier::external_body] pub fn vx_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
impl<'a> WellFormedness<'a> {
  pub open spec fn after_but(&self, o: Self) -> bool {
    self.inv() && self.grammar == o.grammar && self.p() == o.p()
    && (self.well_formed ==> o.well_formed) && (self.reached_fixpoint ==> o.reached_fixpoint && self.t() == o.t())
  }
}
'''

THEOREM = r'''
// ---- why an accepted grammar cannot loop
pub open spec fn halts(g: Gr, i: int, s: Seq<char>) -> bool { exists|f: nat| run(g, f, i, s) != Res::Out }
pub open spec fn table_ok(g: Gr, t: Tab) -> bool { forall|k: int| 0 <= k < g.rs.len() ==> t[(#[trigger] g.rs[k]).name@] == wfa(g, t, rule_expr(g.rs, g.rs[k].name@)) }
pub open spec fn agrees(w: WFA, r: Res, s: Seq<char>) -> bool {
  match r { Res::Out => true, Res::Fail => w.can_fail, Res::Ok(q) => w.can_succeed && q.len() <= s.len() && (w.always_consume ==> q.len() < s.len()) && (w.never_consume ==> q.len() == s.len()) }
}
// the table tells the truth about every computation that ends
pub proof fn lemma_sound(g: Gr, t: Tab, f: nat, i: int, s: Seq<char>)
  requires grammar_ok(g), table_ok(g, t), ext_consumes(), 0 <= i < g.es.len()
  ensures agrees(wfa(g, t, i), run(g, f, i, s), s)
  decreases f, 0nat
{
  if f > 0 {
    let a = (f - 1) as nat;
    assert(forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i);
    match g.es[i] {
      NonTerminalSymbol(id) => { lemma_rule(g.rs, id@); lemma_sound(g, t, a, rule_expr(g.rs, id@), s); },
      Sequence(ks) => { assert(kids(g.es[i]) == ks@); assert(below(ks@, i)); lemma_sound_seq(g, t, a, ks@, i, s); },
      Choice(ks) => { assert(kids(g.es[i]) == ks@); assert(below(ks@, i)); lemma_sound_choice(g, t, a, ks@, i, s); },
      ZeroOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_sound_star(g, t, a, c as int, s); },
      OneOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); match run(g, a, c as int, s) { Res::Ok(r) => lemma_sound_star(g, t, a, c as int, r), _ => {} } },
      ZeroOrOne(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); }, NotPredicate(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); }, AndPredicate(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); },
      SemanticAction(c, _, _) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); }, TypeAscription(c, _) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); },
      SpannedExpr(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); }, RangeExpr(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, a, c as int, s); },
      _ => {},
    }
  }
}
pub proof fn lemma_seq_front(g: Gr, t: Tab, ks: Seq<usize>, i: int)
  requires ks.len() > 0, below(ks, i)
  ensures ({ let a = wfa(g, t, ks[0] as int); let b = wfa_seq(g, t, ks.drop_first(), i); wfa_seq(g, t, ks, i) == w4(a.can_fail || b.can_fail, a.can_succeed && b.can_succeed, a.always_consume || b.always_consume, a.never_consume && b.never_consume) }), below(ks.drop_first(), i)
  decreases ks.len()
{
  let r = ks.drop_first();
  assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < i by { assert(ks[k + 1] < i); }
  assert(ks.last() == ks[ks.len() - 1]);
  if ks.len() > 1 {
    let d = ks.drop_last();
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]) < i by { assert(ks[k] < i); }
    lemma_seq_front(g, t, d, i);
    assert(d.drop_first() =~= r.drop_last()); assert(r.last() == ks.last()); assert(d[0] == ks[0]);
  } else { assert(ks.drop_last() =~= Seq::<usize>::empty()); assert(r =~= Seq::<usize>::empty()); assert(wfa_seq(g, t, r, i) == w4(false, true, false, true)); assert(wfa_seq(g, t, ks.drop_last(), i) == w4(false, true, false, true)); }
}
pub proof fn lemma_choice_front(g: Gr, t: Tab, ks: Seq<usize>, i: int)
  requires ks.len() > 0, below(ks, i)
  ensures ({ let a = wfa(g, t, ks[0] as int); let b = wfa_choice(g, t, ks.drop_first(), i); wfa_choice(g, t, ks, i) == w4(a.can_fail && b.can_fail, a.can_succeed || b.can_succeed, a.always_consume && b.always_consume, a.never_consume && b.never_consume) }), below(ks.drop_first(), i)
  decreases ks.len()
{
  let r = ks.drop_first();
  assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < i by { assert(ks[k + 1] < i); }
  assert(ks.last() == ks[ks.len() - 1]);
  if ks.len() > 1 {
    let d = ks.drop_last();
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]) < i by { assert(ks[k] < i); }
    lemma_choice_front(g, t, d, i);
    assert(d.drop_first() =~= r.drop_last()); assert(r.last() == ks.last()); assert(d[0] == ks[0]);
  } else { assert(ks.drop_last() =~= Seq::<usize>::empty()); assert(r =~= Seq::<usize>::empty()); assert(wfa_choice(g, t, r, i) == w4(true, false, true, true)); assert(wfa_choice(g, t, ks.drop_last(), i) == w4(true, false, true, true)); }
}
pub proof fn lemma_sound_seq(g: Gr, t: Tab, f: nat, ks: Seq<usize>, i: int, s: Seq<char>)
  requires grammar_ok(g), table_ok(g, t), ext_consumes(), below(ks, i), i <= g.es.len()
  ensures agrees(wfa_seq(g, t, ks, i), run_seq(g, f, ks, s), s)
  decreases f, ks.len() + 1
{
  if ks.len() > 0 {
    lemma_seq_front(g, t, ks, i); assert(ks[0] < i);
    lemma_sound(g, t, f, ks[0] as int, s);
    match run(g, f, ks[0] as int, s) { Res::Ok(r) => lemma_sound_seq(g, t, f, ks.drop_first(), i, r), _ => {} }
  }
}
pub proof fn lemma_sound_choice(g: Gr, t: Tab, f: nat, ks: Seq<usize>, i: int, s: Seq<char>)
  requires grammar_ok(g), table_ok(g, t), ext_consumes(), below(ks, i), i <= g.es.len()
  ensures agrees(wfa_choice(g, t, ks, i), run_choice(g, f, ks, s), s)
  decreases f, ks.len() + 1
{
  if ks.len() > 0 {
    lemma_choice_front(g, t, ks, i); assert(ks[0] < i);
    lemma_sound(g, t, f, ks[0] as int, s);
    match run(g, f, ks[0] as int, s) { Res::Fail => lemma_sound_choice(g, t, f, ks.drop_first(), i, s), _ => {} }
  }
}
pub proof fn lemma_sound_star(g: Gr, t: Tab, f: nat, c: int, s: Seq<char>)
  requires grammar_ok(g), table_ok(g, t), ext_consumes(), 0 <= c < g.es.len()
  ensures ({ let w = wfa(g, t, c); match run_star(g, f, c, s) { Res::Out => true, Res::Fail => false, Res::Ok(q) => q.len() <= s.len() && (w.never_consume ==> q.len() == s.len()) } })
  decreases f, 1nat
{
  if f > 0 { lemma_sound(g, t, f, c, s); match run(g, f, c, s) { Res::Ok(r) => lemma_sound_star(g, t, (f - 1) as nat, c, r), _ => {} } }
}
// all repetitions inside i (calls not followed) consume
pub open spec fn loops_in(g: Gr, t: Tab, i: int) -> bool decreases i {
  0 <= i < g.es.len() && local_ok(g, t, i) && forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i && loops_in(g, t, kids(g.es[i])[k] as int)
}
pub proof fn lemma_loops_in(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, c: bool, i: int)
  requires okx(g, t, n, p, c, i) ensures loops_in(g, t, i) decreases i
{
  assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && loops_in(g, t, kids(g.es[i])[k] as int) by {
    match g.es[i] { Sequence(ks) => { assert(ks@[k] < i); lemma_loops_in(g, t, n, p, c || consumed_before(g, t, ks@, k), ks@[k] as int); }, NonTerminalSymbol(_) => {}, _ => { lemma_loops_in(g, t, n, p, c, kids(g.es[i])[k] as int); } }
  }
}
// every rule halts on every text of at most m characters
pub open spec fn rules_halt(g: Gr, m: int) -> bool { forall|k: int, s: Seq<char>| 0 <= k < g.rs.len() && s.len() <= m ==> #[trigger] halts(g, rule_expr(g.rs, g.rs[k].name@), s) }
pub open spec fn hyp(g: Gr, t: Tab) -> bool { grammar_ok(g) && table_ok(g, t) && ext_consumes() }
pub open spec fn seq_halts(g: Gr, ks: Seq<usize>, s: Seq<char>) -> bool { exists|f: nat| run_seq(g, f, ks, s) != Res::Out }
pub open spec fn choice_halts(g: Gr, ks: Seq<usize>, s: Seq<char>) -> bool { exists|f: nat| run_choice(g, f, ks, s) != Res::Out }
pub open spec fn star_halts(g: Gr, c: int, s: Seq<char>) -> bool { exists|f: nat| run_star(g, f, c, s) != Res::Out }
pub open spec fn fuel_of(g: Gr, i: int, s: Seq<char>) -> nat { choose|f: nat| run(g, f, i, s) != Res::Out }
pub open spec fn res(g: Gr, i: int, s: Seq<char>) -> Res { run(g, fuel_of(g, i, s), i, s) }
pub open spec fn mx(a: nat, b: nat) -> nat { if a > b { a } else { b } }

pub proof fn lemma_glue_star(g: Gr, c: int, s: Seq<char>)
  requires halts(g, c, s), match res(g, c, s) { Res::Ok(r) => star_halts(g, c, r), _ => true }
  ensures star_halts(g, c, s)
{
  let f = fuel_of(g, c, s);
  match res(g, c, s) {
    Res::Ok(r) => { let h = choose|h: nat| run_star(g, h, c, r) != Res::Out; let m = mx(f, h) + 1; lemma_fuel(g, f, m, c, s); lemma_fuel_star(g, h, (m - 1) as nat, c, r); assert(run_star(g, m, c, s) != Res::Out); },
    _ => { lemma_fuel(g, f, f + 1, c, s); assert(run_star(g, f + 1, c, s) != Res::Out); },
  }
}
pub proof fn lemma_glue_seq(g: Gr, ks: Seq<usize>, s: Seq<char>)
  requires ks.len() > 0, halts(g, ks[0] as int, s), match res(g, ks[0] as int, s) { Res::Ok(r) => seq_halts(g, ks.drop_first(), r), _ => true }
  ensures seq_halts(g, ks, s)
{
  let c = ks[0] as int; let f = fuel_of(g, c, s);
  match res(g, c, s) {
    Res::Ok(r) => { let h = choose|h: nat| run_seq(g, h, ks.drop_first(), r) != Res::Out; let m = mx(f, h); lemma_fuel(g, f, m, c, s); lemma_fuel_seq(g, h, m, ks.drop_first(), r); assert(run_seq(g, m, ks, s) != Res::Out); },
    _ => { assert(run_seq(g, f, ks, s) != Res::Out); },
  }
}
pub proof fn lemma_glue_choice(g: Gr, ks: Seq<usize>, s: Seq<char>)
  requires ks.len() > 0, halts(g, ks[0] as int, s), match res(g, ks[0] as int, s) { Res::Fail => choice_halts(g, ks.drop_first(), s), _ => true }
  ensures choice_halts(g, ks, s)
{
  let c = ks[0] as int; let f = fuel_of(g, c, s);
  match res(g, c, s) {
    Res::Fail => { let h = choose|h: nat| run_choice(g, h, ks.drop_first(), s) != Res::Out; let m = mx(f, h); lemma_fuel(g, f, m, c, s); lemma_fuel_choice(g, h, m, ks.drop_first(), s); assert(run_choice(g, m, ks, s) != Res::Out); },
    _ => { assert(run_choice(g, f, ks, s) != Res::Out); },
  }
}
// one more level: an expression halts when what it runs first does
pub proof fn lemma_up(g: Gr, i: int, s: Seq<char>)
  requires 0 <= i < g.es.len(),
    match g.es[i] {
      NonTerminalSymbol(id) => halts(g, rule_expr(g.rs, id@), s),
      Sequence(ks) => seq_halts(g, ks@, s), Choice(ks) => choice_halts(g, ks@, s), ZeroOrMore(c) => star_halts(g, c as int, s),
      OneOrMore(c) => halts(g, c as int, s) && match res(g, c as int, s) { Res::Ok(r) => star_halts(g, c as int, r), _ => true },
      ZeroOrOne(c) => halts(g, c as int, s), NotPredicate(c) => halts(g, c as int, s), AndPredicate(c) => halts(g, c as int, s),
      SemanticAction(c, _, _) => halts(g, c as int, s), TypeAscription(c, _) => halts(g, c as int, s), SpannedExpr(c) => halts(g, c as int, s), RangeExpr(c) => halts(g, c as int, s),
      _ => true }
  ensures halts(g, i, s)
{
  match g.es[i] {
    NonTerminalSymbol(id) => { let f = fuel_of(g, rule_expr(g.rs, id@), s); assert(run(g, f + 1, i, s) != Res::Out); },
    Sequence(ks) => { let f = choose|f: nat| run_seq(g, f, ks@, s) != Res::Out; assert(run(g, f + 1, i, s) != Res::Out); },
    Choice(ks) => { let f = choose|f: nat| run_choice(g, f, ks@, s) != Res::Out; assert(run(g, f + 1, i, s) != Res::Out); },
    ZeroOrMore(c) => { let f = choose|f: nat| run_star(g, f, c as int, s) != Res::Out; assert(run(g, f + 1, i, s) != Res::Out); },
    OneOrMore(c) => { let f = fuel_of(g, c as int, s); match res(g, c as int, s) {
        Res::Ok(r) => { let h = choose|h: nat| run_star(g, h, c as int, r) != Res::Out; let m = mx(f, h); lemma_fuel(g, f, m, c as int, s); lemma_fuel_star(g, h, m, c as int, r); assert(run(g, m + 1, i, s) != Res::Out); },
        _ => { assert(run(g, f + 1, i, s) != Res::Out); } } },
    ZeroOrOne(c) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); }, NotPredicate(c) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); }, AndPredicate(c) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); },
    SemanticAction(c, _, _) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); }, TypeAscription(c, _) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); },
    SpannedExpr(c) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); }, RangeExpr(c) => { let f = fuel_of(g, c as int, s); assert(run(g, f + 1, i, s) != Res::Out); },
    _ => { assert(run(g, 1, i, s) != Res::Out); },
  }
}
// where all rules halt, all expressions do
pub proof fn lemma_any(g: Gr, t: Tab, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() as int), loops_in(g, t, i)
  ensures halts(g, i, s)
  decreases s.len(), i, 1nat
{
  assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && halts(g, kids(g.es[i])[k] as int, s) by { lemma_any(g, t, kids(g.es[i])[k] as int, s); }
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_rule(g.rs, id@); },
    Sequence(ks) => { assert(kids(g.es[i]) == ks@); lemma_any_seq(g, t, ks@, i, s); },
    Choice(ks) => { assert(kids(g.es[i]) == ks@); lemma_any_choice(g, t, ks@, i, s); },
    ZeroOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_any_star(g, t, c as int, i, s); },
    OneOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, fuel_of(g, c as int, s), c as int, s); match res(g, c as int, s) { Res::Ok(r) => { assert(r.len() < s.len()); lemma_any_star(g, t, c as int, i, r); }, _ => {} } },
    ZeroOrOne(c) => { assert(kids(g.es[i])[0] == c); }, NotPredicate(c) => { assert(kids(g.es[i])[0] == c); }, AndPredicate(c) => { assert(kids(g.es[i])[0] == c); },
    SemanticAction(c, _, _) => { assert(kids(g.es[i])[0] == c); }, TypeAscription(c, _) => { assert(kids(g.es[i])[0] == c); }, SpannedExpr(c) => { assert(kids(g.es[i])[0] == c); }, RangeExpr(c) => { assert(kids(g.es[i])[0] == c); },
    _ => {},
  }
  lemma_up(g, i, s);
}
pub open spec fn all_in(g: Gr, t: Tab, ks: Seq<usize>, i: int) -> bool { forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]) < i && loops_in(g, t, ks[k] as int) }
pub proof fn lemma_any_seq(g: Gr, t: Tab, ks: Seq<usize>, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() as int), all_in(g, t, ks, i), i <= g.es.len()
  ensures seq_halts(g, ks, s)
  decreases s.len(), i, 0nat, ks.len() + 1
{
  if ks.len() == 0 { assert(run_seq(g, 0, ks, s) != Res::Out); } else {
    let c = ks[0] as int; assert(c < i && loops_in(g, t, c));
    lemma_any(g, t, c, s); lemma_sound(g, t, fuel_of(g, c, s), c, s);
    assert(all_in(g, t, ks.drop_first(), i)) by { assert forall|k: int| 0 <= k < ks.drop_first().len() implies (#[trigger] ks.drop_first()[k]) < i && loops_in(g, t, ks.drop_first()[k] as int) by { assert(ks[k + 1] < i && loops_in(g, t, ks[k + 1] as int)); } }
    match res(g, c, s) { Res::Ok(r) => { lemma_any_seq(g, t, ks.drop_first(), i, r); }, _ => {} }
    lemma_glue_seq(g, ks, s);
  }
}
pub proof fn lemma_any_choice(g: Gr, t: Tab, ks: Seq<usize>, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() as int), all_in(g, t, ks, i), i <= g.es.len()
  ensures choice_halts(g, ks, s)
  decreases s.len(), i, 0nat, ks.len() + 1
{
  if ks.len() == 0 { assert(run_choice(g, 0, ks, s) != Res::Out); } else {
    let c = ks[0] as int; assert(c < i && loops_in(g, t, c));
    lemma_any(g, t, c, s);
    assert(all_in(g, t, ks.drop_first(), i)) by { assert forall|k: int| 0 <= k < ks.drop_first().len() implies (#[trigger] ks.drop_first()[k]) < i && loops_in(g, t, ks.drop_first()[k] as int) by { assert(ks[k + 1] < i && loops_in(g, t, ks[k + 1] as int)); } }
    lemma_any_choice(g, t, ks.drop_first(), i, s);
    lemma_glue_choice(g, ks, s);
  }
}
pub proof fn lemma_any_star(g: Gr, t: Tab, c: int, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() as int), loops_in(g, t, c), loops_ok(wfa(g, t, c)), c < i
  ensures star_halts(g, c, s)
  decreases s.len(), i, 0nat
{
  lemma_any(g, t, c, s); lemma_sound(g, t, fuel_of(g, c, s), c, s);
  match res(g, c, s) { Res::Ok(r) => { assert(r.len() < s.len()); lemma_any_star(g, t, c, i, r); }, _ => {} }
  lemma_glue_star(g, c, s);
}
// along a path on which nothing has been consumed
pub open spec fn flat(p: Seq<(Ident, bool)>) -> bool { forall|k: int| 0 <= k < p.len() ==> !(#[trigger] p[k]).1 }
pub proof fn lemma_flat(p: Seq<(Ident, bool)>, n: Seq<char>) requires flat(p) ensures !since(p, n) decreases p.len() {
  if p.len() > 0 { assert(flat(p.drop_last())) by { assert forall|k: int| 0 <= k < p.drop_last().len() implies !(#[trigger] p.drop_last()[k]).1 by { assert(!p[k].1); } } lemma_flat(p.drop_last(), n); assert(!p[p.len() - 1].1); }
}
pub proof fn lemma_path(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() - 1), okx(g, t, n, p, false, i), flat(p)
  ensures halts(g, i, s)
  decreases n, i, 0nat
{
  match g.es[i] { Sequence(_) => {}, NonTerminalSymbol(_) => {}, _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && halts(g, kids(g.es[i])[k] as int, s) && loops_in(g, t, kids(g.es[i])[k] as int) by { lemma_path(g, t, n, p, kids(g.es[i])[k] as int, s); lemma_loops_in(g, t, n, p, false, kids(g.es[i])[k] as int); } } }
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_flat(p, id@); lemma_rule(g.rs, id@); let q = p.push((id, false)); assert(flat(q)); lemma_path(g, t, free(g.rs, q), q, rule_expr(g.rs, id@), s); },
    Sequence(ks) => { assert(ks@.skip(0) =~= ks@); lemma_path_seq(g, t, n, p, ks@, 0, i, s); },
    Choice(ks) => { assert(kids(g.es[i]) == ks@); assert(ks@.skip(0) =~= ks@); lemma_path_choice(g, t, n, p, ks@, 0, i, s); },
    ZeroOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, fuel_of(g, c as int, s), c as int, s); match res(g, c as int, s) { Res::Ok(r) => { lemma_shorter(g, s, r); lemma_any_star(g, t, c as int, i, r); }, _ => {} } lemma_glue_star(g, c as int, s); },
    OneOrMore(c) => { assert(kids(g.es[i])[0] == c); lemma_sound(g, t, fuel_of(g, c as int, s), c as int, s); match res(g, c as int, s) { Res::Ok(r) => { lemma_shorter(g, s, r); lemma_any_star(g, t, c as int, i, r); }, _ => {} } },
    ZeroOrOne(c) => { assert(kids(g.es[i])[0] == c); }, NotPredicate(c) => { assert(kids(g.es[i])[0] == c); }, AndPredicate(c) => { assert(kids(g.es[i])[0] == c); },
    SemanticAction(c, _, _) => { assert(kids(g.es[i])[0] == c); }, TypeAscription(c, _) => { assert(kids(g.es[i])[0] == c); }, SpannedExpr(c) => { assert(kids(g.es[i])[0] == c); }, RangeExpr(c) => { assert(kids(g.es[i])[0] == c); },
    _ => {},
  }
  lemma_up(g, i, s);
}
pub proof fn lemma_shorter(g: Gr, s: Seq<char>, r: Seq<char>) requires rules_halt(g, s.len() - 1), r.len() < s.len() ensures rules_halt(g, r.len() as int) { }
// the elements k, k+1, .. of a sequence; those before k have consumed nothing so far
pub proof fn lemma_path_seq(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, ks: Seq<usize>, k: int, i: int, s: Seq<char>)
  requires hyp(g, t), rules_halt(g, s.len() - 1), flat(p), 0 <= k <= ks.len(), i <= g.es.len(), !consumed_before(g, t, ks, k),
    forall|m: int| 0 <= m < ks.len() ==> (#[trigger] ks[m]) < i && okx(g, t, n, p, consumed_before(g, t, ks, m), ks[m] as int)
  ensures seq_halts(g, ks.skip(k), s)
  decreases n, i, 0nat, ks.len() - k
{
  let r = ks.skip(k);
  if k == ks.len() { assert(run_seq(g, 0, r, s) != Res::Out); } else {
    let c = ks[k] as int; assert(r[0] == ks[k]); assert(c < i && okx(g, t, n, p, false, c));
    lemma_path(g, t, n, p, c, s); lemma_sound(g, t, fuel_of(g, c, s), c, s);
    assert(r.drop_first() =~= ks.skip(k + 1));
    match res(g, c, s) {
      Res::Ok(q) => { if q.len() < s.len() {
          lemma_shorter(g, s, q);
          let d = r.drop_first();
          assert(all_in(g, t, d, i)) by { assert forall|m: int| 0 <= m < d.len() implies (#[trigger] d[m]) < i && loops_in(g, t, d[m] as int) by { assert(d[m] == ks[m + k + 1]); lemma_loops_in(g, t, n, p, consumed_before(g, t, ks, m + k + 1), ks[m + k + 1] as int); } }
          lemma_any_seq(g, t, d, i, q);
        } else { assert(!consumed_before(g, t, ks, k + 1)); lemma_path_seq(g, t, n, p, ks, k + 1, i, q); } },
      _ => {},
    }
    lemma_glue_seq(g, r, s);
  }
}
pub proof fn lemma_path_choice(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, ks: Seq<usize>, k: int, i: int, s: Seq<char>)
  requires 0 <= k <= ks.len(), forall|m: int| 0 <= m < ks.len() ==> (#[trigger] ks[m]) < i && halts(g, ks[m] as int, s)
  ensures choice_halts(g, ks.skip(k), s)
  decreases n, i, 0nat, ks.len() - k
{
  let r = ks.skip(k);
  if k == ks.len() { assert(run_choice(g, 0, r, s) != Res::Out); } else {
    assert(r[0] == ks[k]); assert(halts(g, ks[k] as int, s));
    assert(r.drop_first() =~= ks.skip(k + 1));
    lemma_path_choice(g, t, n, p, ks, k + 1, i, s);
    lemma_glue_choice(g, r, s);
  }
}
// the property: every rule of an accepted grammar, and with them every expression, comes to an end on every text
pub proof fn theorem_halts(g: Gr, t: Tab, m: int)
  requires grammar_ok(g), accepted(g, t), ext_consumes(), m >= -1
  ensures rules_halt(g, m)
  decreases m + 1
{
  if m >= 0 {
    theorem_halts(g, t, m - 1);
    assert forall|k: int, s: Seq<char>| 0 <= k < g.rs.len() && s.len() <= m implies #[trigger] halts(g, rule_expr(g.rs, g.rs[k].name@), s) by {
      let id = g.rs[k].name; assert(okr(g, t, Seq::empty(), false, id));
      let q = Seq::<(Ident, bool)>::empty().push((id, false));
      assert(flat(q)); assert(!in_path(Seq::empty(), id@));
      assert(rules_halt(g, s.len() - 1));
      lemma_path(g, t, free(g.rs, q), q, rule_expr(g.rs, id@), s);
    }
  }
}
'''


CLEAN = 'final(self).clean() ==> '
def AFTER(more='', this='$1', res='wfa(final(self).g(), final(self).t(), %s as int)', ok=True):
    this_res = res % this if '%s' in res else res
    return 'final(self).after(*old(self)), valid(r), final(self).clean() ==> r == %s%s%s' % (this_res, ' && final(self).ok(%s as int)' % this if ok else '', more)
DEC = '\ndecreases free(old(self).g().rs, old(self).p()), %s, %sint'
E = 'old(self).g().es[%s as int]'

def is_empty(em, n):
    if em.f.name == 'visit_str_literal':
        return 'vx_is_empty(&%s)' % em.e(n.x)
def h_expect(em, n):
    return '%s.unwrap()' % em.e(n.x)
def h_clone(em, n):
    return None

def rule_lookup(u):
    A = astlib.AST
    u.fn(A, 'Grammar', 'find_rule_by_ident', spec='requires names_rule(self.rules@, $1@) ensures r.expr_idx == rule_expr(self.rules@, $1@), r.name@ == $1@',
        proof='proof { lemma_rule(self.rules@, $1@); }',
        loops=[Loop('chain', """invariant $i <= $s.len(), $s@ == self.rules@, $go == $o.is_none(), forall|k: int| 0 <= k < $i - (if $o.is_some() { 1int } else { 0 }) ==> (#[trigger] self.rules@[k]).name@ != $1@,
   $o.is_some() ==> $i > 0 && *$o.unwrap() == self.rules@[$i - 1] && $o.unwrap().name@ == $1@
  decreases $s.len() - $i""", it='find', ety='&Rule', after="""proof { let k = choose|k: int| 0 <= k < self.rules@.len() && (#[trigger] self.rules@[k]).name@ == $1@ && rule_expr(self.rules@, $1@) == self.rules@[k].expr_idx && forall|j: int| 0 <= j < k ==> (#[trigger] self.rules@[j]).name@ != $1@;
     assert($o.is_some()); assert(k == $i - 1); }""")])
    u.fn(A, 'Grammar', 'expr_index_of_rule', spec='requires names_rule(self.rules@, $1@) ensures r == rule_expr(self.rules@, $1@)')

# what an expression leads to before anything is read: no way leads on for ever (useless_chaining.rs goes along such ways)
LED = r'''
// at most n rules are called one by the other on any way that starts at the expression i and has read nothing
pub open spec fn led(g: Gr, n: nat, i: int) -> bool decreases n, i
{
  0 <= i < g.es.len() && match g.es[i] {
    NonTerminalSymbol(id) => n > 0 && led(g, (n - 1) as nat, rule_expr(g.rs, id@)),
    Sequence(ks) => ks@.len() > 0 ==> ks@[0] < i && led(g, n, ks@[0] as int),
    _ => forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i && led(g, n, kids(g.es[i])[k] as int),
  }
}
pub open spec fn ranked(g: Gr) -> bool { forall|k: int| 0 <= k < g.rs.len() ==> led(g, g.rs.len(), rule_expr(g.rs, (#[trigger] g.rs[k]).name@)) }
'''
RANK = r'''
pub proof fn lemma_led_more(g: Gr, n: nat, m: nat, i: int) requires led(g, n, i), n <= m ensures led(g, m, i) decreases n, i
{
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_led_more(g, (n - 1) as nat, (m - 1) as nat, rule_expr(g.rs, id@)); },
    Sequence(ks) => { if ks@.len() > 0 { lemma_led_more(g, n, m, ks@[0] as int); } },
    _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && led(g, m, kids(g.es[i])[k] as int) by { lemma_led_more(g, n, m, kids(g.es[i])[k] as int); } },
  }
}
pub proof fn lemma_led(g: Gr, t: Tab, n: nat, p: Seq<(Ident, bool)>, i: int) requires okx(g, t, n, p, false, i), flat(p) ensures led(g, n, i) decreases n, i
{
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_flat(p, id@); let q = p.push((id, false)); assert(flat(q)); lemma_led(g, t, free(g.rs, q), q, rule_expr(g.rs, id@)); lemma_led_more(g, free(g.rs, q), (n - 1) as nat, rule_expr(g.rs, id@)); },
    Sequence(ks) => { if ks@.len() > 0 { assert(!consumed_before(g, t, ks@, 0)); lemma_led(g, t, n, p, ks@[0] as int); } },
    _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && led(g, n, kids(g.es[i])[k] as int) by { lemma_led(g, t, n, p, kids(g.es[i])[k] as int); } },
  }
}
pub proof fn lemma_free_most(rs: Seq<Rule>, p: Seq<(Ident, bool)>) ensures free(rs, p) <= rs.len() decreases rs.len() { if rs.len() > 0 { lemma_free_most(rs.drop_last(), p); } }
pub proof fn theorem_ranked(g: Gr, t: Tab) requires accepted(g, t) ensures ranked(g)
{
  assert forall|k: int| 0 <= k < g.rs.len() implies led(g, g.rs.len(), rule_expr(g.rs, (#[trigger] g.rs[k]).name@)) by {
    let id = g.rs[k].name; assert(okr(g, t, Seq::empty(), false, id)); let q = Seq::<(Ident, bool)>::empty().push((id, false));
    assert(flat(q)); assert(!in_path(Seq::empty(), id@));
    lemma_led(g, t, free(g.rs, q), q, rule_expr(g.rs, id@)); lemma_free_most(g.rs, q); lemma_led_more(g, free(g.rs, q), g.rs.len(), rule_expr(g.rs, id@));
  }
}
'''

ANALYSE_SPEC = """requires grammar_ok(Gr { es: $1.exprs@, rs: $1.rules@ })
ensures !(r is Fake), r is Value ==> ranked(Gr { es: $1.exprs@, rs: $1.rules@ }), r is Value ==> r->Value_0 == $1 && (ext_consumes() ==> forall|m: int| m >= -1 ==> #[trigger] rules_halt(Gr { es: $1.exprs@, rs: $1.rules@ }, m))"""

def unit():
    u = Unit('wellformed')
    astlib.ast(u)
    u.text_sub += [(r'\bHashMap<Ident,\s*WFA>', 'VxMap<WFA>'), (r'\bHashSet<usize>', 'VxUSet')]
    u.raw(astlib.PARTIAL)
    u.raw(astlib.DIAG)
    u.raw(astlib.STRUCT)
    u.raw(astlib.PEG)
    u.raw(STUB)
    u.struct(F, 'WFA', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)] ')
    u.struct(F, 'WellFormedness')
    u.raw(SPEC)
    u.raw(THEOREM)
    u.raw(LED + RANK)
    u.raw(MORE)
    u.node_hook = node_hook
    u.calls.update({'swap': h_swap, 'HashSet::new': h_set_new})
    u.mcalls.update(is_empty=is_empty, expect=h_expect, extend=h_extend)
    W = 'WellFormedness'
    A = astlib.AST
    u.fn(A, 'Rule', 'ident', trait='ItemIdent', spec='ensures r == self.name')
    u.fn(A, 'Grammar', 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.exprs.len() ensures r == self.exprs@[$1 as int]')
    rule_lookup(u)
    u.fn(F, 'WFA', 'always_succeed', spec='ensures r == w4(false, true, false, $1)')
    u.fn(F, 'WFA', 'default', trait='Default', spec='ensures r == w4(true, true, true, false)')
    u.fn(F, W, 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.g().es.len() ensures r == self.g().es[$1 as int]')
    SAME = 'final(self).grammar == old(self).grammar, final(self).rules_wfa == old(self).rules_wfa, final(self).reached_fixpoint == old(self).reached_fixpoint'
    KEEP = SAME + ', final(self).recursion_path == old(self).recursion_path, final(self).consumed_input == old(self).consumed_input'
    u.fn(F, W, 'register_error', spec='ensures %s, final(self).well_formed == old(self).well_formed, final(self).errors@ == old(self).errors@.insert($1), r == !old(self).errors@.contains($1)' % KEEP)
    ERR = 'ensures %s, final(self).inv(), !final(self).well_formed' % KEEP
    PROOF = 'proof { if self.errors@.contains($%d) { assert(!(self.errors@ =~= Set::<usize>::empty())); } }'
    u.fn(F, W, 'error_left_recursion', spec='requires old(self).inv(), names_rule(old(self).g().rs, $1@) ' + ERR,
        loops=[Loop('chain', 'invariant $i <= $s.len(), $o.len() == $i\n decreases $s.len() - $i', it='map.rev.collect', clone='vx_copy')])
    for n in ('error_never_succeed', 'error_always_succeed_without_consuming', 'error_loop_repeat'):
        u.fn(F, W, n, spec='requires old(self).inv() ' + ERR, proof=PROOF % 1)
    u.fn(F, W, 'error_unreachable_branches', spec='requires old(self).inv() ' + ERR, proof=PROOF % 2)
    u.fn(F, W, 'save', spec='ensures r == self.consumed_input')
    u.fn(F, W, 'restore', spec='ensures %s, final(self).recursion_path == old(self).recursion_path, final(self).well_formed == old(self).well_formed, final(self).errors == old(self).errors, final(self).consumed_input == $1' % SAME)
    u.fn(F, W, 'push_rule_in_path', spec='ensures %s, final(self).well_formed == old(self).well_formed, final(self).errors == old(self).errors, !final(self).consumed_input, final(self).p() == old(self).p().push((*$1, old(self).consumed_input))' % SAME)
    u.fn(F, W, 'pop_rule_in_path', spec='requires old(self).p().len() > 0 ensures %s, final(self).well_formed == old(self).well_formed, final(self).errors == old(self).errors, final(self).consumed_input == old(self).p().last().1, final(self).p() == old(self).p().drop_last()' % SAME)
    u.fn(F, W, 'fixpoint_update', spec="""requires old(self).inv(), valid($1), names_rule(old(self).g().rs, $2@)
ensures final(self).after(*old(self)), final(self).well_formed == old(self).well_formed, final(self).t() == old(self).t().insert($2@, $1), final(self).reached_fixpoint ==> old(self).t()[$2@] == $1""",
        proof='proof { lemma_rule(self.g().rs, $2@); if self.t().dom().contains($2@) && self.t()[$2@] == $1 { assert(self.t() =~= self.t().insert($2@, $1)); } }')
    u.fn(F, W, 'is_rec', spec='ensures r == in_path(self.p(), $1@)',
        loops=[Loop('chain', 'invariant $i <= $s.len(), $s@ == self.p(), $go == !$o, $o ==> in_path(self.p(), $1@), forall|k: int| 0 <= k < $i ==> (#[trigger] self.p()[k]).0@ != $1@ || $o\n decreases $s.len() - $i', it='any',
            tail='proof { if $o { assert(self.p()[$i as int].0@ == $1@ || in_path(self.p(), $1@)); } }')])
    u.fn(F, W, 'rec_path_from', spec='ensures r@ == tail_of(self.p(), $1@)',
        loops=[Loop('chain', """invariant $i <= $s.len(), $s@ == self.p(), $go ==> $o@ + tail_of(self.p().take($s.len() - $i), $1@) =~= tail_of(self.p(), $1@), !$go ==> $o@ =~= tail_of(self.p(), $1@)
  decreases $s.len() - $i""", it='cloned.rev.take_while.collect', clone='vx_copy', pre='proof { assert(self.p().take(self.p().len() as int) =~= self.p()); }',
            body='proof { let t = self.p().take($s.len() - $i); assert(t.drop_last() =~= self.p().take($s.len() - $i - 1)); assert(t.last() == self.p()[$s.len() - $i - 1]); }')])
    u.fn(F, W, 'consume_input_since', spec='ensures r == since(self.p(), $1@)', proof='proof { lemma_since(self.p(), $1@); }',
        loops=[Loop('for', 'invariant vx_it.seq() == vx_q0, vx_q0 == tail_of(self.p(), $1@), 0 <= vx_it.index@ <= vx_q0.len(), has_consumed == any_flag(vx_q0.take(vx_it.index@ as int))', it='vx_it', hoist=True,
            body='let ghost hc = has_consumed; let ghost i0 = vx_it.index@ as int;', tail="""proof { let i = i0; let a = vx_q0.take(i); let b = vx_q0.take(i + 1); assert(b[i] == vx_q0[i]);
   if any_flag(a) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1; assert(b[k] == a[k]); }
   if any_flag(b) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).1; if k < i { assert(a[k] == b[k]); } } }""", after='proof { assert(vx_q0.take(vx_q0.len() as int) =~= vx_q0); }')])
    u.fn(F, W, 'visit_rule_expr', spec='requires old(self).inv(), names_rule(old(self).g().rs, $1@)\nensures final(self).after(*old(self)), valid(r), final(self).clean() ==> r == wfa(final(self).g(), final(self).t(), rule_expr(final(self).g().rs, $1@)) && final(self).ok(rule_expr(final(self).g().rs, $1@))'
        + DEC % ('old(self).g().es.len()', 30), proof='proof { lemma_rule(self.g().rs, $1@); }')
    u.fn(F, W, 'visit_rule', spec='requires old(self).inv(), names_rule(old(self).g().rs, $1@)\nensures final(self).after(*old(self)), valid(r), final(self).clean() ==> r == final(self).t()[$1@] && okr(final(self).g(), final(self).t(), final(self).p(), final(self).consumed_input, *$1) && (!in_path(final(self).p(), $1@) ==> r == wfa(final(self).g(), final(self).t(), rule_expr(final(self).g().rs, $1@)))'
        + DEC % ('0int', 5), proof='proof { lemma_rule(self.g().rs, $1@); lemma_free(self.g().rs, self.p(), (*$1, self.consumed_input)); assert(self.p().push((*$1, self.consumed_input)).drop_last() =~= self.p()); }')
    # ---- the visitor
    def node(this, cond, lv, **kw):
        d = dict(spec='requires old(self).inv(), %s < old(self).g().es.len(), %s\nensures %s' % (this, cond, AFTER(this=this)) + DEC % (this, lv))
        d.update(kw)
        return d
    KID = 'proof { let es = self.g().es; assert(kids(es[$1 as int]) =~= seq![$2]); assert(kids(es[$1 as int])[0] == $2); assert($2 < $1); }'
    S = {}
    S['visit_expr'] = node('$1', 'true', 20)
    S['walk_expr'] = node('$1', 'true', 15)
    for n, c in (('visit_str_literal', 'StrLiteral($2)'), ('visit_non_terminal_symbol', 'NonTerminalSymbol(*$2)'), ('visit_external_non_terminal_symbol', 'ExternalNonTerminalSymbol(*$2)'), ('visit_any_single_char', 'AnySingleChar'), ('visit_character_class', 'CharacterClass($2)')):
        S[n] = node('$1', E % '$1' + ' == ' + c, 10)
    S['visit_non_terminal_symbol']['proof'] = 'proof { lemma_free(self.g().rs, self.p(), (*$2, self.consumed_input)); lemma_rule(self.g().rs, $2@); }'
    S['visit_atom'] = node('$1', '%s is AnySingleChar || %s is CharacterClass' % (E % '$1', E % '$1'), 5)
    for n, c in (('visit_spanned_expr', 'SpannedExpr($2)'), ('visit_range_expr', 'RangeExpr($2)'), ('visit_optional', 'ZeroOrOne($2)'), ('visit_semantic_action', 'SemanticAction($2, $3, $4)'), ('visit_type_ascription', 'TypeAscription($2, $3)'),
                 ('visit_zero_or_more', 'ZeroOrMore($2)'), ('visit_one_or_more', 'OneOrMore($2)'), ('visit_not_predicate', 'NotPredicate($2)'), ('visit_and_predicate', 'AndPredicate($2)')):
        S[n] = node('$1', E % '$1' + ' == ' + c, 10, proof=KID)
    S['visit_repeat'] = dict(spec='requires old(self).inv(), $1 < old(self).g().es.len(), kids(%s) == seq![$2]\nensures final(self).after(*old(self)), valid(r), final(self).clean() ==> r == wfa(final(self).g(), final(self).t(), $2 as int) && final(self).ok($2 as int) && loops_ok(r)' % (E % '$1') + DEC % ('$1', 5), proof=KID)
    S['visit_syntactic_predicate'] = dict(spec='requires old(self).inv(), $1 < old(self).g().es.len(), kids(%s) == seq![$2]\nensures final(self).after(*old(self)), valid(r), r.never_consume, !r.always_consume, final(self).clean() ==> final(self).ok($2 as int) && ({ let w = wfa(final(self).g(), final(self).t(), $2 as int); r == w4(w.can_fail, w.can_succeed, false, true) })' % (E % '$1') + DEC % ('$1', 5), proof=KID)
    S['visit_choice'] = node('$1', E % '$1' + ' == Choice($2)', 10, proof='proof { let es = self.g().es; assert(kids(es[$1 as int]) == $2@); assert(below($2@, $1 as int)) by { assert forall|k: int| 0 <= k < $2@.len() implies (#[trigger] $2@[k]) < $1 by { assert(kids(es[$1 as int])[k] < $1); } } assert($2@.take(0) =~= Seq::<usize>::empty()); assert($2@.take($2@.len() as int) =~= $2@); }',
        loops=[Loop('for', """invariant self.after(*old(self)), old(self).inv(), $1 < old(self).g().es.len(), %s == Choice($2), $2@.len() > 0, below($2@, $1 as int), wfa.can_fail || wfa.can_succeed, $var > 0 ==> valid(wfa),
   self.clean() ==> wfa == wfa_choice(self.g(), self.t(), $2@.take($var as int), $1 as int) && forall|k: int| 0 <= k < $var ==> self.ok((#[trigger] $2@[k]) as int)""" % (E % '$1'),
            body='let ghost s0 = *self; proof { let a = $2@.take($var as int); let b = $2@.take($var + 1); assert(b.drop_last() =~= a); assert(b.last() == $2@[$var as int]); }')])
    S['visit_sequence'] = node('$1', E % '$1' + ' == Sequence($2)', 10, proof='let ghost vs0 = *self; proof { let es = self.g().es; assert(kids(es[$1 as int]) == $2@); assert(below($2@, $1 as int)) by { assert forall|k: int| 0 <= k < $2@.len() implies (#[trigger] $2@[k]) < $1 by { assert(kids(es[$1 as int])[k] < $1); } } assert($2@.take(0) =~= Seq::<usize>::empty()); assert($2@.take($2@.len() as int) =~= $2@); }',
        loops=[Loop('for', """invariant vx_it.seq() == vx_q0, 0 <= vx_it.index@ <= vx_q0.len(), self.after_but(vs0), vs0.inv(), $1 < vs0.g().es.len(), vs0.g().es[$1 as int] == Sequence($2), vx_q0 == $2@, below(vx_q0, $1 as int), valid(wfa), vs0 == *old(self), savepoint == vs0.consumed_input,
   self.clean() ==> wfa == wfa_seq(self.g(), self.t(), vx_q0.take(vx_it.index@ as int), $1 as int) && self.consumed_input == (vs0.consumed_input || consumed_before(self.g(), self.t(), vx_q0, vx_it.index@ as int))
     && forall|k: int| 0 <= k < vx_it.index@ ==> okx(self.g(), self.t(), free(self.g().rs, self.p()), self.p(), vs0.consumed_input || consumed_before(self.g(), self.t(), vx_q0, k), (#[trigger] vx_q0[k]) as int)""", it='vx_it', hoist=True,
            body='proof { let i = vx_it.index@ as int; let a = vx_q0.take(i); let b = vx_q0.take(i + 1); assert(b.drop_last() =~= a); assert(b.last() == vx_q0[i]); assert($var == vx_q0[i]); }', after='proof { assert(vx_q0.take(vx_q0.len() as int) =~= vx_q0); }')])
    fs = astlib.visitor(u, F, W, 'WFA', S, default_val='WFA::default()', skip=('walk_exprs',))
    u.fn(F, W, 'new', spec='requires grammar_ok(Gr { es: $1.exprs@, rs: $1.rules@ })\nensures r.inv(), r.grammar == $1, r.p() =~= Seq::<(Ident, bool)>::empty(), !r.consumed_input, r.well_formed, !r.reached_fixpoint',
        loops=[Loop('chain', 'invariant $i <= $s.len(), $s@ == $1.rules@, $o.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] $o@[k]).0@ == $1.rules@[k].name@ && $o@[k].1 == w4(true, true, true, false)\n decreases $s.len() - $i', it='map.collect', fin='VxMap::vx_collect(%s)', ety='Vec<(Ident, WFA)>',
            after='proof { assert forall|k: int| 0 <= k < $1.rules@.len() implies map_of($o@).dom().contains((#[trigger] $1.rules@[k]).name@) && valid(map_of($o@)[$1.rules@[k].name@]) by { lemma_map_of($o@, $1.rules@[k].name@); assert($o@[k].0@ == $1.rules@[k].name@); } }')])
    u.fn(F, W, 'visit_rules', attr='#[verifier::exec_allows_no_decreases_clause] ', spec='requires old(self).inv(), old(self).p() =~= Seq::<(Ident, bool)>::empty(), !old(self).consumed_input, !old(self).reached_fixpoint\nensures final(self).inv(), final(self).grammar == old(self).grammar, final(self).well_formed ==> accepted(final(self).g(), final(self).t())',
        loops=[Loop('while', 'invariant self.inv(), self.grammar == old(self).grammar, self.p() =~= Seq::<(Ident, bool)>::empty(), !self.consumed_input, self.clean() ==> accepted(self.g(), self.t())'),
               Loop('for', 'invariant_except_break self.well_formed\ninvariant self.inv(), self.grammar == old(self).grammar, self.p() =~= Seq::<(Ident, bool)>::empty(), !self.consumed_input, 0 <= vx_it.index@ <= vx_it.seq().len(), vx_it.seq().len() == self.g().rs.len(), forall|k: int| 0 <= k < vx_it.seq().len() ==> *(#[trigger] vx_it.seq()[k]) == self.g().rs[k], self.clean() ==> forall|k: int| 0 <= k < vx_it.index@ ==> okr(self.g(), self.t(), Seq::empty(), false, (#[trigger] self.g().rs[k]).name) && self.t()[self.g().rs[k].name@] == wfa(self.g(), self.t(), rule_expr(self.g().rs, self.g().rs[k].name@))\nensures self.clean() ==> accepted(self.g(), self.t())', it='vx_it',
                    body='proof { assert(*$var == self.g().rs[vx_it.index@ as int]); assert(self.g().rs[vx_it.index@ as int].name@ == $var.name@); }')])
    u.fn(F, W, 'is_well_formed', spec='requires grammar_ok(Gr { es: $1.exprs@, rs: $1.rules@ }) ensures r ==> exists|t: Tab| #[trigger] accepted(Gr { es: $1.exprs@, rs: $1.rules@ }, t)')
    u.fn(F, W, 'analyse', spec=ANALYSE_SPEC,
        proof='proof { let g = Gr { es: $1.exprs@, rs: $1.rules@ }; assert forall|t: Tab| #[trigger] accepted(g, t) implies ranked(g) by { theorem_ranked(g, t); } if ext_consumes() { assert forall|t: Tab, m: int| m >= -1 && #[trigger] accepted(g, t) implies #[trigger] rules_halt(g, m) by { theorem_halts(g, t, m); } } }')
    return u
