"""Contracts of src/liboak/middle/analysis/useless_chaining.rs (C16)."""
from vx import *
import astlib, wellformed
F = 'src/liboak/middle/analysis/useless_chaining.rs'

SPEC = r'''
pub struct FExpressionInfo { pub span: Span }
pub type AGrammar = Grammar<FExpressionInfo>;
pub open spec fn grammar_ok(g: Gr) -> bool {
  arena(g.es) && (forall|k: int| 0 <= k < g.rs.len() ==> (#[trigger] g.rs[k]).expr_idx < g.es.len())
  && (forall|i: int| 0 <= i < g.es.len() ==> match #[trigger] g.es[i] { NonTerminalSymbol(id) => names_rule(g.rs, id@), Choice(ks) => ks@.len() > 0, _ => true })
}
pub proof fn lemma_rule(rs: Seq<Rule>, n: Seq<char>) requires names_rule(rs, n) ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n && rule_expr(rs, n) == rs[k].expr_idx && forall|j: int| 0 <= j < k ==> (#[trigger] rs[j]).name@ != n decreases rs.len()
{
  let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n;
  if rs[0].name@ != n {
    let t = rs.drop_first(); assert(t[k - 1] == rs[k]); lemma_rule(t, n);
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).name@ == n && rule_expr(t, n) == t[j].expr_idx && forall|m: int| 0 <= m < j ==> (#[trigger] t[m]).name@ != n;
    assert(rs[j + 1] == t[j]);
    assert forall|m: int| 0 <= m < j + 1 implies (#[trigger] rs[m]).name@ != n by { if m > 0 { assert(t[m - 1] == rs[m]); } }
  }
}
// ---- the operator an expression amounts to, whether a rule was entered to see it, and what the operator applies to
// (alternatives, tried in order; several only for `&e1 / &e2 / ..`, which is `&(e1 / e2 / ..)`)
pub ghost struct Am { pub op: PredicateOrRepeat, pub crossed: bool, pub core: Seq<usize> }
pub open spec fn no_op() -> Option<Am> { Some(Am { op: PNothing, crossed: false, core: Seq::empty() }) }
pub open spec fn amounts(g: Gr, f: nat, i: int) -> Option<Am> decreases f, 0nat {
  if f == 0 || !(0 <= i < g.es.len()) { None } else {
    let h = (f - 1) as nat;
    match g.es[i] {
      ZeroOrMore(c) => Some(Am { op: PZeroOrMore, crossed: false, core: seq![c] }), OneOrMore(c) => Some(Am { op: POneOrMore, crossed: false, core: seq![c] }), ZeroOrOne(c) => Some(Am { op: POptional, crossed: false, core: seq![c] }),
      NotPredicate(c) => Some(Am { op: PNot, crossed: false, core: seq![c] }), AndPredicate(c) => Some(Am { op: PAnd, crossed: false, core: seq![c] }),
      NonTerminalSymbol(id) => match amounts(g, h, rule_expr(g.rs, id@)) { Some(a) => Some(Am { op: a.op, crossed: true, core: a.core }), None => None },
      SemanticAction(c, _, _) => amounts(g, h, c as int), TypeAscription(c, _) => amounts(g, h, c as int), SpannedExpr(c) => amounts(g, h, c as int), RangeExpr(c) => amounts(g, h, c as int),
      Choice(ks) => amounts_choice(g, h, ks@),
      _ => no_op(),
    }
  }
}
pub open spec fn amounts_choice(g: Gr, f: nat, ks: Seq<usize>) -> Option<Am> decreases f, ks.len() + 1 {
  if ks.len() == 0 { Some(Am { op: PAnd, crossed: false, core: Seq::empty() }) } else {
    match amounts(g, f, ks[0] as int) {
      None => None,
      Some(a) => if a.op != PAnd { no_op() } else { match amounts_choice(g, f, ks.drop_first()) { None => None, Some(b) => if b.op != PAnd { no_op() } else { Some(Am { op: PAnd, crossed: a.crossed || b.crossed, core: a.core + b.core }) } } },
    }
  }
}
pub proof fn lemma_amounts(g: Gr, f: nat, h: nat, i: int) requires f <= h, amounts(g, f, i).is_some() ensures amounts(g, h, i) == amounts(g, f, i) decreases f, 0nat
{
  let a = (f - 1) as nat; let b = (h - 1) as nat;
  match g.es[i] {
    NonTerminalSymbol(id) => lemma_amounts(g, a, b, rule_expr(g.rs, id@)),
    SemanticAction(c, _, _) => lemma_amounts(g, a, b, c as int), TypeAscription(c, _) => lemma_amounts(g, a, b, c as int), SpannedExpr(c) => lemma_amounts(g, a, b, c as int), RangeExpr(c) => lemma_amounts(g, a, b, c as int),
    Choice(ks) => lemma_amounts_choice(g, a, b, ks@),
    _ => {},
  }
}
pub proof fn lemma_amounts_choice(g: Gr, f: nat, h: nat, ks: Seq<usize>) requires f <= h, amounts_choice(g, f, ks).is_some() ensures amounts_choice(g, h, ks) == amounts_choice(g, f, ks) decreases f, ks.len() + 1
{
  if ks.len() > 0 {
    lemma_amounts(g, f, h, ks[0] as int);
    if amounts(g, f, ks[0] as int).unwrap().op == PAnd { lemma_amounts_choice(g, f, h, ks.drop_first()); }
  }
}
pub open spec fn is_am(g: Gr, i: int, a: Am) -> bool { exists|f: nat| #[trigger] amounts(g, f, i) == Some(a) }
pub open spec fn shows(g: Gr, i: int, op: PredicateOrRepeat, crossed: bool) -> bool { exists|a: Am| #[trigger] is_am(g, i, a) && a.op == op && a.crossed == crossed }
pub proof fn lemma_one(g: Gr, i: int, a: Am, b: Am) requires is_am(g, i, a), is_am(g, i, b) ensures a == b
{ let f = choose|f: nat| #[trigger] amounts(g, f, i) == Some(a); let h = choose|h: nat| #[trigger] amounts(g, h, i) == Some(b); if f <= h { lemma_amounts(g, f, h, i); } else { lemma_amounts(g, h, f, i); } }
// one level up
pub proof fn lemma_am_up(g: Gr, i: int, c: int, op: PredicateOrRepeat, crossed: bool)
  requires 0 <= i < g.es.len(), shows(g, c, op, crossed),
    match g.es[i] { NonTerminalSymbol(id) => rule_expr(g.rs, id@) == c, SemanticAction(k, _, _) => k == c, TypeAscription(k, _) => k == c, SpannedExpr(k) => k == c, RangeExpr(k) => k == c, _ => false }
  ensures shows(g, i, op, crossed || g.es[i] is NonTerminalSymbol)
{
  let a = choose|a: Am| #[trigger] is_am(g, c, a) && a.op == op && a.crossed == crossed;
  let f = choose|f: nat| #[trigger] amounts(g, f, c) == Some(a);
  let b = Am { op, crossed: crossed || g.es[i] is NonTerminalSymbol, core: a.core };
  assert(amounts(g, f + 1, i) == Some(b)); assert(is_am(g, i, b));
}
pub proof fn lemma_am_leaf(g: Gr, i: int)
  requires 0 <= i < g.es.len(), !(g.es[i] is NonTerminalSymbol || g.es[i] is SemanticAction || g.es[i] is TypeAscription || g.es[i] is SpannedExpr || g.es[i] is RangeExpr || g.es[i] is Choice)
  ensures shows(g, i, op_of(g.es[i]), false)
{ let a = amounts(g, 1, i).unwrap(); assert(is_am(g, i, a)); }
pub open spec fn op_of(e: Expression) -> PredicateOrRepeat { match e { ZeroOrMore(_) => PZeroOrMore, OneOrMore(_) => POneOrMore, ZeroOrOne(_) => POptional, NotPredicate(_) => PNot, AndPredicate(_) => PAnd, _ => PNothing } }
// the first n alternatives all amount to `&`
pub open spec fn ands(g: Gr, ks: Seq<usize>, n: int, crossed: bool) -> bool { exists|f: nat| and_c(#[trigger] amounts_choice(g, f, ks.take(n)), crossed) }
pub open spec fn and_c(o: Option<Am>, crossed: bool) -> bool { o.is_some() && o.unwrap().op == PAnd && o.unwrap().crossed == crossed }
pub proof fn lemma_ands_app(g: Gr, f: nat, ks: Seq<usize>, x: usize, a: Am, b: Am)
  requires amounts_choice(g, f, ks) == Some(a), a.op == PAnd, amounts(g, f, x as int) == Some(b)
  ensures b.op == PAnd ==> amounts_choice(g, f, ks.push(x)) == Some(Am { op: PAnd, crossed: a.crossed || b.crossed, core: a.core + b.core }),
    b.op != PAnd ==> forall|t: Seq<usize>| amounts_choice(g, f, #[trigger] (ks.push(x) + t)) == no_op()
  decreases ks.len()
{
  let l = ks.push(x);
  if ks.len() == 0 {
    assert(l.drop_first() =~= Seq::<usize>::empty()); assert(l[0] == x);
    assert(amounts_choice(g, f, l.drop_first()) == Some(Am { op: PAnd, crossed: false, core: Seq::empty() }));
    assert(a.core + b.core =~= b.core); assert(b.core + Seq::<usize>::empty() =~= b.core);
    assert forall|t: Seq<usize>| b.op != PAnd implies amounts_choice(g, f, #[trigger] (l + t)) == no_op() by { assert((l + t)[0] == x); }
  } else {
    let r = ks.drop_first(); let a0 = amounts(g, f, ks[0] as int).unwrap(); let a1 = amounts_choice(g, f, r).unwrap();
    lemma_ands_app(g, f, r, x, a1, b);
    assert(l.drop_first() =~= r.push(x)); assert(l[0] == ks[0]);
    assert(a0.core + (a1.core + b.core) =~= a.core + b.core);
    assert forall|t: Seq<usize>| b.op != PAnd implies amounts_choice(g, f, #[trigger] (l + t)) == no_op() by { assert((l + t)[0] == ks[0]); assert((l + t).drop_first() =~= r.push(x) + t); }
  }
}
pub proof fn lemma_ands(g: Gr, ks: Seq<usize>, n: int, i: int, crossed: bool, op: PredicateOrRepeat, c2: bool)
  requires 0 <= n < ks.len(), 0 <= i < g.es.len(), g.es[i] is Choice, g.es[i]->Choice_0@ == ks, ands(g, ks, n, crossed), shows(g, ks[n] as int, op, c2)
  ensures op == PAnd ==> ands(g, ks, n + 1, crossed || c2), op != PAnd ==> shows(g, i, PNothing, false)
{
  let f = choose|f: nat| and_c(#[trigger] amounts_choice(g, f, ks.take(n)), crossed); let a = amounts_choice(g, f, ks.take(n)).unwrap();
  let b = choose|b: Am| #[trigger] is_am(g, ks[n] as int, b) && b.op == op && b.crossed == c2;
  let h = choose|h: nat| #[trigger] amounts(g, h, ks[n] as int) == Some(b);
  let m: nat = if f > h { f } else { h };
  lemma_amounts_choice(g, f, m, ks.take(n)); lemma_amounts(g, h, m, ks[n] as int);
  lemma_ands_app(g, m, ks.take(n), ks[n], a, b);
  assert(ks.take(n).push(ks[n]) =~= ks.take(n + 1));
  if op != PAnd { let t = ks.skip(n + 1); assert(ks.take(n + 1) + t =~= ks); assert(amounts(g, m + 1, i) == no_op()); assert(is_am(g, i, no_op().unwrap())); }
}
pub proof fn lemma_ands_end(g: Gr, ks: Seq<usize>, i: int, crossed: bool)
  requires 0 <= i < g.es.len(), g.es[i] is Choice, g.es[i]->Choice_0@ == ks, ands(g, ks, ks.len() as int, crossed)
  ensures shows(g, i, PAnd, crossed)
{
  let f = choose|f: nat| and_c(#[trigger] amounts_choice(g, f, ks.take(ks.len() as int)), crossed); let a = amounts_choice(g, f, ks.take(ks.len() as int)).unwrap();
  assert(ks.take(ks.len() as int) =~= ks); assert(amounts(g, f + 1, i) == Some(a)); assert(is_am(g, i, a));
}
// ---- an operator applied to alternatives
pub open spec fn op_run(g: Gr, f: nat, op: PredicateOrRepeat, ks: Seq<usize>, s: Seq<char>) -> Res {
  match op {
    PZeroOrMore => run_star(g, f, ks[0] as int, s),
    POneOrMore => match run(g, f, ks[0] as int, s) { Res::Ok(r) => run_star(g, f, ks[0] as int, r), x => x },
    POptional => match run(g, f, ks[0] as int, s) { Res::Fail => Res::Ok(s), x => x },
    PNot => match run_choice(g, f, ks, s) { Res::Fail => Res::Ok(s), Res::Ok(_) => Res::Fail, Res::Out => Res::Out },
    PAnd => match run_choice(g, f, ks, s) { Res::Ok(_) => Res::Ok(s), x => x },
    PNothing => Res::Out,
  }
}
pub open spec fn gives(g: Gr, op: PredicateOrRepeat, ks: Seq<usize>, s: Seq<char>, r: Res) -> bool { exists|f: nat| #[trigger] op_run(g, f, op, ks, s) == r }
pub open spec fn lone(op: PredicateOrRepeat, ks: Seq<usize>) -> bool { op == PNothing || op == PAnd || ks.len() == 1 }
pub proof fn lemma_one_choice(g: Gr, f: nat, ks: Seq<usize>, s: Seq<char>) requires ks.len() == 1 ensures run_choice(g, f, ks, s) == run(g, f, ks[0] as int, s)
{ assert(ks.drop_first() =~= Seq::<usize>::empty()); assert(run_choice(g, f, ks.drop_first(), s) == Res::Fail); }
pub proof fn lemma_choice_app(g: Gr, f: nat, a: Seq<usize>, b: Seq<usize>, s: Seq<char>)
  ensures run_choice(g, f, a + b, s) == match run_choice(g, f, a, s) { Res::Fail => run_choice(g, f, b, s), x => x }
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b)[0] == a[0]); assert((a + b).drop_first() =~= a.drop_first() + b); lemma_choice_app(g, f, a.drop_first(), b, s); }
}
// what an expression amounts to, it is
pub proof fn lemma_amounts_run(g: Gr, f0: nat, f: nat, i: int, s: Seq<char>)
  requires amounts(g, f0, i).is_some(), amounts(g, f0, i).unwrap().op != PNothing, run(g, f, i, s) != Res::Out
  ensures op_run(g, f, amounts(g, f0, i).unwrap().op, amounts(g, f0, i).unwrap().core, s) == run(g, f, i, s), lone(amounts(g, f0, i).unwrap().op, amounts(g, f0, i).unwrap().core)
  decreases f0, 0nat
{
  let a = amounts(g, f0, i).unwrap(); let f1 = (f - 1) as nat; let h = (f0 - 1) as nat;
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_amounts_run(g, h, f1, rule_expr(g.rs, id@), s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    SemanticAction(c, _, _) => { lemma_amounts_run(g, h, f1, c as int, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); }, TypeAscription(c, _) => { lemma_amounts_run(g, h, f1, c as int, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    SpannedExpr(c) => { lemma_amounts_run(g, h, f1, c as int, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); }, RangeExpr(c) => { lemma_amounts_run(g, h, f1, c as int, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    Choice(ks) => { lemma_amounts_run_choice(g, h, f1, ks@, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    ZeroOrMore(c) => { lemma_fuel_star(g, f1, f, c as int, s); },
    OneOrMore(c) => { lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    ZeroOrOne(c) => { lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    NotPredicate(c) => { lemma_one_choice(g, f1, a.core, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    AndPredicate(c) => { lemma_one_choice(g, f1, a.core, s); lemma_op_fuel(g, f1, f, a.op, a.core, s); },
    _ => {},
  }
}
pub proof fn lemma_amounts_run_choice(g: Gr, f0: nat, f: nat, ks: Seq<usize>, s: Seq<char>)
  requires amounts_choice(g, f0, ks).is_some(), amounts_choice(g, f0, ks).unwrap().op != PNothing, run_choice(g, f, ks, s) != Res::Out
  ensures amounts_choice(g, f0, ks).unwrap().op == PAnd, op_run(g, f, PAnd, amounts_choice(g, f0, ks).unwrap().core, s) == run_choice(g, f, ks, s)
  decreases f0, ks.len() + 1
{
  if ks.len() > 0 {
    let a = amounts(g, f0, ks[0] as int).unwrap(); let b = amounts_choice(g, f0, ks.drop_first()).unwrap();
    lemma_amounts_run(g, f0, f, ks[0] as int, s);
    lemma_choice_app(g, f, a.core, b.core, s);
    if run(g, f, ks[0] as int, s) == Res::Fail { lemma_amounts_run_choice(g, f0, f, ks.drop_first(), s); }
  }
}
pub proof fn lemma_op_fuel(g: Gr, f: nat, h: nat, op: PredicateOrRepeat, ks: Seq<usize>, s: Seq<char>)
  requires f <= h, op_run(g, f, op, ks, s) != Res::Out ensures op_run(g, h, op, ks, s) == op_run(g, f, op, ks, s)
{
  match op {
    PZeroOrMore => lemma_fuel_star(g, f, h, ks[0] as int, s),
    POneOrMore => { lemma_fuel(g, f, h, ks[0] as int, s); match run(g, f, ks[0] as int, s) { Res::Ok(r) => lemma_fuel_star(g, f, h, ks[0] as int, r), _ => {} } },
    POptional => lemma_fuel(g, f, h, ks[0] as int, s),
    PNot => lemma_fuel_choice(g, f, h, ks, s), PAnd => lemma_fuel_choice(g, f, h, ks, s), PNothing => {},
  }
}
// a repetition ends where its element fails
pub proof fn lemma_star_end(g: Gr, f: nat, d: int, s: Seq<char>)
  ensures match run_star(g, f, d, s) { Res::Ok(q) => run(g, f, d, q) == Res::Fail, Res::Fail => false, Res::Out => true } decreases f
{ if f > 0 { match run(g, f, d, s) { Res::Ok(r) => { lemma_star_end(g, (f - 1) as nat, d, r); match run_star(g, (f - 1) as nat, d, r) { Res::Ok(q) => lemma_fuel(g, (f - 1) as nat, f, d, q), _ => {} } }, _ => {} } } }
// ---- the documented table
pub open spec fn chain(outer: PredicateOrRepeat, inner: PredicateOrRepeat) -> Option<(Seq<char>, Seq<char>, PredicateOrRepeat)> {
  match (outer, inner) {
    (PNot, PNot) => Some(("!(!e)"@, "&e"@, PAnd)), (PAnd, PAnd) => Some(("&(&e)"@, "&e"@, PAnd)), (PNot, PAnd) => Some(("!(&e)"@, "!e"@, PNot)), (PAnd, PNot) => Some(("&(!e)"@, "!e"@, PNot)),
    (POptional, POptional) => Some(("(e?)?"@, "e?"@, POptional)), (POptional, POneOrMore) => Some(("(e+)?"@, "e*"@, PZeroOrMore)), (POptional, PZeroOrMore) => Some(("(e*)?"@, "e*"@, PZeroOrMore)),
    (POneOrMore, POneOrMore) => Some(("(e+)+"@, "e+"@, POneOrMore)), (PZeroOrMore, POneOrMore) => Some(("(e+)*"@, "e*"@, PZeroOrMore)), (PZeroOrMore, PZeroOrMore) => Some(("(e*)*"@, "e*"@, PZeroOrMore)),
    _ => None,
  }
}
// warned about, unless that would mean rewriting another rule
pub open spec fn should(outer: PredicateOrRepeat, inner: PredicateOrRepeat, crossed: bool) -> bool { chain(outer, inner).is_some() && (chain(outer, inner).unwrap().2 == inner || !crossed) }
pub open spec fn child(e: Expression) -> int { kids(e)[0] as int }
// the table is right: where the expression i halts, the suggestion gives the same
pub open spec fn equal(g: Gr, i: int, op: PredicateOrRepeat, ks: Seq<usize>) -> bool { forall|f: nat, s: Seq<char>| run(g, f, i, s) != Res::Out ==> #[trigger] op_run(g, f + 1, op, ks, s) == run(g, f, i, s) }
pub proof fn lemma_star_star(g: Gr, f0: nat, f: nat, c: int, s: Seq<char>)
  requires amounts(g, f0, c).is_some(), amounts(g, f0, c).unwrap().op == PZeroOrMore ensures run_star(g, f, c, s) == Res::Out decreases f
{ if f > 0 { if run(g, f, c, s) != Res::Out { lemma_amounts_run(g, f0, f, c, s); lemma_star_end(g, f, amounts(g, f0, c).unwrap().core[0] as int, s); } match run(g, f, c, s) { Res::Ok(r) => lemma_star_star(g, f0, (f - 1) as nat, c, r), _ => {} } } }
// after `e+` has matched once, it does not match again
pub proof fn lemma_plus_once(g: Gr, f0: nat, f: nat, h: nat, c: int, s: Seq<char>)
  requires amounts(g, f0, c).is_some(), amounts(g, f0, c).unwrap().op == POneOrMore, run(g, f, c, s) is Ok, h <= f, run_star(g, h, c, run(g, f, c, s)->Ok_0) != Res::Out
  ensures run_star(g, h, c, run(g, f, c, s)->Ok_0) == run(g, f, c, s)
{
  let d = amounts(g, f0, c).unwrap().core[0] as int; let q = run(g, f, c, s)->Ok_0;
  lemma_amounts_run(g, f0, f, c, s);
  lemma_star_end(g, f, d, run(g, f, d, s)->Ok_0);
  lemma_amounts_run(g, f0, h, c, q);
  lemma_fuel(g, h, f, c, q);
  if run(g, h, c, q) is Ok { lemma_fuel(g, h, f, d, q); }
}
pub proof fn lemma_plus_star(g: Gr, h: nat, f: nat, ks: Seq<usize>, s: Seq<char>)
  requires h <= f, op_run(g, h, POneOrMore, ks, s) != Res::Out
  ensures run_star(g, f + 1, ks[0] as int, s) == match op_run(g, h, POneOrMore, ks, s) { Res::Fail => Res::Ok(s), x => x }
{
  let d = ks[0] as int;
  lemma_fuel(g, h, f + 1, d, s);
  assert(run(g, f + 1, d, s) == run(g, h, d, s));
  match run(g, h, d, s) { Res::Ok(r) => { lemma_fuel_star(g, h, f, d, r); assert((f + 1 - 1) as nat == f); assert(run_star(g, f + 1, d, s) == run_star(g, f, d, r)); assert(op_run(g, h, POneOrMore, ks, s) == run_star(g, h, d, r)); lemma_star_end(g, h, d, r); }, Res::Fail => { assert(run_star(g, f + 1, d, s) == Res::Ok(s)); }, _ => {} }
}
pub proof fn lemma_equal_at(g: Gr, i: int, a: Am, f0: nat, f: nat, s: Seq<char>)
  requires 0 <= i < g.es.len(), kids(g.es[i]).len() == 1, amounts(g, f0, child(g.es[i])) == Some(a), chain(op_of(g.es[i]), a.op).is_some(), run(g, f, i, s) != Res::Out
  ensures op_run(g, f + 1, chain(op_of(g.es[i]), a.op).unwrap().2, a.core, s) == run(g, f, i, s)
{
  let c = child(g.es[i]); let outer = op_of(g.es[i]); let w = chain(outer, a.op).unwrap().2; let h = (f - 1) as nat;
  if outer == PZeroOrMore && a.op == PZeroOrMore { lemma_star_star(g, f0, h, c, s); } else {
    let d = a.core[0] as int;
    match g.es[i] {
      ZeroOrMore(k) => { assert(k == c); assert(run(g, f, i, s) == run_star(g, h, c, s)); assert(h > 0); assert(run(g, h, c, s) != Res::Out); },
      OneOrMore(k) => { assert(k == c); assert(run(g, h, c, s) != Res::Out); },
      ZeroOrOne(k) => { assert(k == c); assert(run(g, h, c, s) != Res::Out); },
      NotPredicate(k) => { assert(k == c); assert(run(g, h, c, s) != Res::Out); },
      AndPredicate(k) => { assert(k == c); assert(run(g, h, c, s) != Res::Out); },
      _ => {},
    }
    lemma_amounts_run(g, f0, h, c, s);
    lemma_op_fuel(g, h, f + 1, a.op, a.core, s);
    match (outer, a.op) {
      (PNot, _) => { lemma_fuel_choice(g, h, f + 1, a.core, s); },
      (PAnd, _) => { lemma_fuel_choice(g, h, f + 1, a.core, s); },
      (POptional, POptional) => { lemma_fuel(g, h, f + 1, d, s); },
      (POptional, POneOrMore) => { lemma_plus_star(g, h, f, a.core, s); },
      (POptional, PZeroOrMore) => { lemma_star_end(g, h, d, s); },
      (POneOrMore, POneOrMore) => { match run(g, h, c, s) { Res::Ok(q) => { lemma_plus_once(g, f0, h, h, c, s); }, _ => {} } },
      (PZeroOrMore, POneOrMore) => { lemma_plus_star(g, h, f, a.core, s); match run(g, h, c, s) { Res::Ok(q) => { lemma_plus_once(g, f0, h, (h - 1) as nat, c, s); }, _ => {} } },
      _ => {},
    }
  }
}
pub proof fn lemma_equal(g: Gr, i: int, a: Am)
  requires 0 <= i < g.es.len(), kids(g.es[i]).len() == 1, is_am(g, child(g.es[i]), a), chain(op_of(g.es[i]), a.op).is_some()
  ensures equal(g, i, chain(op_of(g.es[i]), a.op).unwrap().2, a.core)
{
  let c = child(g.es[i]); let f0 = choose|f0: nat| #[trigger] amounts(g, f0, c) == Some(a); let outer = op_of(g.es[i]); let w = chain(outer, a.op).unwrap().2;
  assert forall|f: nat, s: Seq<char>| run(g, f, i, s) != Res::Out implies #[trigger] op_run(g, f + 1, w, a.core, s) == run(g, f, i, s) by {
    lemma_equal_at(g, i, a, f0, f, s);
  }
}
// ---- what a warning says, and where
pub open spec fn advice(g: Gr, infos: Seq<FExpressionInfo>, sp: Span, p: Seq<char>, w: Seq<char>) -> bool {
  exists|i: int, a: Am| 0 <= i < g.es.len() && i < infos.len() && (#[trigger] infos[i]).span == sp && kids(g.es[i]).len() == 1 && #[trigger] is_am(g, child(g.es[i]), a)
    && should(op_of(g.es[i]), a.op, a.crossed) && chain(op_of(g.es[i]), a.op).unwrap().0 == p && chain(op_of(g.es[i]), a.op).unwrap().1 == w && equal(g, i, chain(op_of(g.es[i]), a.op).unwrap().2, a.core)
}
pub open spec fn may_say(g: Gr, infos: Seq<FExpressionInfo>, sp: Span, m: Seq<char>) -> bool { exists|p: Seq<char>, w: Seq<char>| #[trigger] advice(g, infos, sp, p, w) && mentions(m, p) && mentions(m, w) }
pub uninterp spec fn warned_at(sp: Span) -> bool;   // a warning was issued there
#[verifier::external_body] pub fn vx_warning_at(Ghost(g): Ghost<Gr>, Ghost(infos): Ghost<Seq<FExpressionInfo>>, sp: Span, m: String) requires may_say(g, infos, sp, m@) ensures warned_at(sp) { unimplemented!() }
impl VxDisplay for str { open spec fn display(&self) -> Seq<char> { self@ } }
pub open spec fn to_warn(g: Gr, i: int) -> bool { kids(g.es[i]).len() == 1 && exists|op: PredicateOrRepeat, crossed: bool| #[trigger] shows(g, child(g.es[i]), op, crossed) && should(op_of(g.es[i]), op, crossed) }
pub open spec fn covered(g: Gr, infos: Seq<FExpressionInfo>, i: int) -> bool decreases i {
  0 <= i < g.es.len() && (to_warn(g, i) ==> warned_at(infos[i].span)) && (to_warn(g, i) || forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i && covered(g, infos, kids(g.es[i])[k] as int))
}
pub proof fn lemma_to_warn(g: Gr, i: int, op: PredicateOrRepeat, crossed: bool)
  requires kids(g.es[i]).len() == 1, shows(g, child(g.es[i]), op, crossed) ensures to_warn(g, i) == should(op_of(g.es[i]), op, crossed)
{
  let c = child(g.es[i]); let a = choose|a: Am| #[trigger] is_am(g, c, a) && a.op == op && a.crossed == crossed;
  if to_warn(g, i) {
    let (o, x) = choose|o: PredicateOrRepeat, x: bool| #[trigger] shows(g, c, o, x) && should(op_of(g.es[i]), o, x);
    let b = choose|b: Am| #[trigger] is_am(g, c, b) && b.op == o && b.crossed == x; lemma_one(g, c, a, b);
  }
}
pub open spec fn below(s: Seq<usize>, i: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < i }
pub open spec fn vx_top(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { -1 } else { let t = vx_top(s.drop_last()); if s.last() > t { s.last() as int } else { t } } }
pub proof fn lemma_top(s: Seq<usize>, k: int) requires 0 <= k < s.len() ensures s[k] <= vx_top(s) decreases s.len() { if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); lemma_top(s.drop_last(), k); } }
pub proof fn lemma_top_below(s: Seq<usize>, i: int) requires below(s, i), i >= 0 ensures -1 <= vx_top(s) < i decreases s.len() { if s.len() > 0 { assert(s[s.len() - 1] < i); assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]) < i by { assert(s[k] < i); } lemma_top_below(s.drop_last(), i); } }
pub open spec fn gr(g: &AGrammar) -> Gr { Gr { es: g.exprs@, rs: g.rules@ } }
pub open spec fn ok(g: &AGrammar) -> bool { grammar_ok(gr(g)) && ranked(gr(g)) && g.exprs_info@.len() == g.exprs@.len() }
'''
# going along a chain comes to an end: rules that call one another are counted by `led`
LEAST = r'''
pub proof fn lemma_led_more(g: Gr, n: nat, m: nat, i: int) requires led(g, n, i), n <= m ensures led(g, m, i) decreases n, i
{
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_led_more(g, (n - 1) as nat, (m - 1) as nat, rule_expr(g.rs, id@)); },
    Sequence(ks) => { if ks@.len() > 0 { lemma_led_more(g, n, m, ks@[0] as int); } },
    _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && led(g, m, kids(g.es[i])[k] as int) by { lemma_led_more(g, n, m, kids(g.es[i])[k] as int); } },
  }
}
pub proof fn lemma_led_all(g: Gr, i: int) requires grammar_ok(g), ranked(g), 0 <= i < g.es.len() ensures led(g, g.rs.len() + 1, i) decreases i
{
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_rule(g.rs, id@); let k = choose|k: int| 0 <= k < g.rs.len() && (#[trigger] g.rs[k]).name@ == id@; assert(led(g, g.rs.len(), rule_expr(g.rs, g.rs[k].name@))); },
    Sequence(ks) => { if ks@.len() > 0 { assert(kids(g.es[i]) == ks@); assert(kids(g.es[i])[0] < i); lemma_led_all(g, ks@[0] as int); } },
    _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && led(g, g.rs.len() + 1, kids(g.es[i])[k] as int) by { lemma_led_all(g, kids(g.es[i])[k] as int); } },
  }
}
pub open spec fn is_least(g: Gr, n: nat, i: int) -> bool { led(g, n, i) && forall|m: nat| m < n ==> !#[trigger] led(g, m, i) }
pub open spec fn least(g: Gr, i: int) -> nat { choose|n: nat| is_least(g, n, i) }
pub proof fn lemma_least(g: Gr, n: nat, i: int) requires led(g, n, i) ensures is_least(g, least(g, i), i), least(g, i) <= n decreases n
{
  if is_least(g, n, i) { assert(is_least(g, least(g, i), i)); if least(g, i) > n { assert(!led(g, n, i)); } }
  else { let m = choose|m: nat| m < n && #[trigger] led(g, m, i); lemma_least(g, m, i); }
}
// the measure
pub proof fn lemma_along(g: Gr, i: int) requires grammar_ok(g), ranked(g), 0 <= i < g.es.len()
  ensures match g.es[i] { NonTerminalSymbol(id) => least(g, rule_expr(g.rs, id@)) < least(g, i), Sequence(_) => true, _ => forall|k: int| 0 <= k < kids(g.es[i]).len() ==> (#[trigger] kids(g.es[i])[k]) < i && least(g, kids(g.es[i])[k] as int) <= least(g, i) }
{
  lemma_led_all(g, i); lemma_least(g, g.rs.len() + 1, i); let n = least(g, i);
  match g.es[i] {
    NonTerminalSymbol(id) => { lemma_least(g, (n - 1) as nat, rule_expr(g.rs, id@)); },
    Sequence(_) => {},
    _ => { assert forall|k: int| 0 <= k < kids(g.es[i]).len() implies (#[trigger] kids(g.es[i])[k]) < i && least(g, kids(g.es[i])[k] as int) <= n by { lemma_least(g, n, kids(g.es[i])[k] as int); } },
  }
}
'''

def h_emit(em, n):
    """span.unstable().warning(m).emit() -> vx_warning_at(span, m)"""
    x = n.x
    m = None
    while x.kind == 'mcall':
        if x.name == 'warning' and len(x.args) == 1:
            m = em.e(x.args[0])
        elif x.name == 'unstable' and m is not None:
            return 'vx_warning_at(Ghost(gr(self.grammar)), Ghost(self.grammar.exprs_info@), %s, %s)' % (em.e(x.x), m)
        elif x.name not in ('span_note', 'note', 'help'):
            break
        x = x.x
    raise Unsupported('emit of an unknown diagnostic')

def node_hook(em, n):
    if n.kind == 'assign' and n.op in ('|=', '&='):     # on booleans
        return '{ let vx_r: bool = %s; %s = %s %s vx_r; }' % (em.e(n.r), em.e(n.l), em.e(n.l), n.op[0] * 2)
    if n.kind == 'index' and em.src[n.x.s:n.x.e] == 'self.grammar':
        return 'self.grammar.index(%s)' % em.e(n.ix)
    if n.kind == 'for' and n.it.kind == 'ref':
        pass

INNER = 'InnerPredicateOrRepeat'
def unit():
    u = Unit('chaining')
    astlib.ast(u)
    u.raw(astlib.PARTIAL)
    u.raw(astlib.DIAG)
    u.raw(astlib.STRUCT)
    u.raw(astlib.PEG)
    u.enum(F, 'PredicateOrRepeat', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)] ')
    u.raw('use PredicateOrRepeat::*;\n')
    u.raw(wellformed.LED)
    u.raw(SPEC)
    u.raw(LEAST)
    u.struct(F, 'UselessChaining')
    u.struct(F, INNER)
    u.node_hook = node_hook
    u.mcalls['emit'] = h_emit
    A = astlib.AST
    u.mcalls['expect'] = wellformed.h_expect
    u.fn(A, 'Rule', 'ident', trait='ItemIdent', spec='ensures r == self.name')
    u.fn(A, 'Grammar', 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.exprs.len() ensures r == self.exprs@[$1 as int]')
    u.fn(A, 'Grammar', 'index', trait='Index', spec='requires $1 < self.exprs_info.len() ensures *r == self.exprs_info@[$1 as int]')
    u.fn('src/liboak/front/ast.rs', 'FExpressionInfo', 'span', trait='Spanned', spec='ensures r == self.span')
    wellformed.rule_lookup(u)
    u.fn(F, 'PredicateOrRepeat', 'default', trait='Default', spec='ensures r == PNothing')
    u.fn(F, INNER, 'new', spec='ensures r.grammar == $1')
    u.fn(F, INNER, 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.grammar.exprs.len() ensures r == self.grammar.exprs@[$1 as int]')
    DEC = '\ndecreases least(gr(old(self).grammar), $1 as int), $1, %dint'
    ALONG = 'proof { lemma_along(gr(self.grammar), $1 as int); } '
    E = 'gr(old(self).grammar).es[$1 as int]'
    R = 'ensures final(self).grammar == old(self).grammar, shows(gr(old(self).grammar), $1 as int, r.0, r.1)'
    LEAF = 'proof { lemma_am_leaf(gr(self.grammar), $1 as int); }'
    def node(cond, lv=10, proof='', **kw):
        return dict(dict(spec='requires ok(old(self).grammar), $1 < gr(old(self).grammar).es.len(), %s\n%s' % (cond, R) + DEC % lv, proof=(ALONG if lv == 10 else '') + proof), **kw)
    S = {'visit_expr': node('true', 20), 'walk_expr': node('true', 15)}
    for n, c in (('visit_str_literal', 'StrLiteral($2)'), ('visit_external_non_terminal_symbol', 'ExternalNonTerminalSymbol(*$2)'), ('visit_any_single_char', 'AnySingleChar'), ('visit_character_class', 'CharacterClass($2)'),
                 ('visit_optional', 'ZeroOrOne($2)'), ('visit_one_or_more', 'OneOrMore($2)'), ('visit_zero_or_more', 'ZeroOrMore($2)'), ('visit_not_predicate', 'NotPredicate($2)'), ('visit_and_predicate', 'AndPredicate($2)'), ('visit_sequence', 'Sequence($2)')):
        S[n] = node(E + ' == ' + c, proof=LEAF)
    S['visit_atom'] = node('%s is AnySingleChar || %s is CharacterClass' % (E, E), 5, proof=LEAF)
    UP = 'proof { let es = self.grammar.exprs@; assert(kids(es[$1 as int])[0] == $2); assert forall|op: PredicateOrRepeat, x: bool| #[trigger] shows(gr(self.grammar), $2 as int, op, x) implies shows(gr(self.grammar), $1 as int, op, x) by { lemma_am_up(gr(self.grammar), $1 as int, $2 as int, op, x); } }'
    for n, c in (('visit_spanned_expr', 'SpannedExpr($2)'), ('visit_range_expr', 'RangeExpr($2)'), ('visit_semantic_action', 'SemanticAction($2, $3, $4)'), ('visit_type_ascription', 'TypeAscription($2, $3)')):
        S[n] = node(E + ' == ' + c, proof=UP)
    S['visit_non_terminal_symbol'] = node(E + ' == NonTerminalSymbol(*$2)', proof='proof { lemma_rule(self.grammar.rules@, $2@); let c = rule_expr(self.grammar.rules@, $2@); assert forall|op: PredicateOrRepeat, x: bool| #[trigger] shows(gr(self.grammar), c, op, x) implies shows(gr(self.grammar), $1 as int, op, true) by { lemma_am_up(gr(self.grammar), $1 as int, c, op, x); } }')
    S['visit_choice'] = node(E + ' == Choice($2)', proof='let ghost g = gr(self.grammar); proof { assert(kids(g.es[$1 as int]) == $2@); assert($2@.take(0) =~= Seq::<usize>::empty()); assert(amounts_choice(g, 0, $2@.take(0)) == Some(Am { op: PAnd, crossed: false, core: Seq::empty() })); assert(and_c(amounts_choice(g, 0, $2@.take(0)), false)); assert(ands(g, $2@, 0, false)); }',
        loops=[Loop('for', 'invariant vx_it.seq() == vx_q0, 0 <= vx_it.index@ <= vx_q0.len(), vx_q0 == $2@, self.grammar == old(self).grammar, g == gr(self.grammar), ok(self.grammar), $1 < g.es.len(), g.es[$1 as int] == Choice($2), kids(g.es[$1 as int]) == $2@, ands(g, vx_q0, vx_it.index@ as int, crossed_rule)', it='vx_it', hoist=True,
            body='proof { let n = vx_it.index@ as int; let cr = crossed_rule; assert($var == vx_q0[n]); assert(kids(g.es[$1 as int])[n] < $1); lemma_along(g, $1 as int); assert forall|op: PredicateOrRepeat, x: bool| #[trigger] shows(g, $var as int, op, x) implies (if op == PAnd { ands(g, vx_q0, n + 1, cr || x) } else { shows(g, $1 as int, PNothing, false) }) by { lemma_ands(g, vx_q0, n, $1 as int, cr, op, x); } }',
            after='proof { lemma_ands_end(g, vx_q0, $1 as int, crossed_rule); }')])
    for n in ('visit_repeat', 'visit_syntactic_predicate'):
        S[n] = dict(spec='requires ok(old(self).grammar), $1 < gr(old(self).grammar).es.len(), kids(%s) == seq![$2]\nensures final(self).grammar == old(self).grammar, shows(gr(old(self).grammar), $2 as int, r.0, r.1)' % E + DEC % 5,
            proof=ALONG + 'proof { assert(kids(gr(self.grammar).es[$1 as int])[0] == $2); }')
    astlib.visitor(u, F, INNER, '(PredicateOrRepeat, bool)', S, default_val='(PredicateOrRepeat::default(), false)', skip=('walk_exprs',))
    # ---- the analysis itself
    U = 'UselessChaining'
    u.fn(F, U, 'expr_by_index', trait='ExprByIndex', spec='requires $1 < self.grammar.exprs.len() ensures r == self.grammar.exprs@[$1 as int]')
    u.fn(F, U, 'warn_useless_chaining', spec='requires advice(gr(self.grammar), self.grammar.exprs_info@, $1, $2@, $3@) ensures r, warned_at($1)')
    u.fn(F, U, 'check_chain', spec="""requires ok(old(self).grammar), $1 < gr(old(self).grammar).es.len(), kids(%s).len() == 1, op_of(%s) == $2, shows(gr(old(self).grammar), child(%s), $3, $4)
ensures final(self).grammar == old(self).grammar, r == should($2, $3, $4), r ==> warned_at(old(self).grammar.exprs_info@[$1 as int].span)""" % (E, E, E),
        proof="""proof { let g = gr(self.grammar); let i = $1 as int; let a = choose|a: Am| #[trigger] is_am(g, child(g.es[i]), a) && a.op == $3 && a.crossed == $4;
   if should($2, $3, $4) { lemma_equal(g, i, a); assert(self.grammar.exprs_info@[i].span == self.grammar.exprs_info@[i].span); assert(advice(g, self.grammar.exprs_info@, self.grammar.exprs_info@[i].span, chain($2, $3).unwrap().0, chain($2, $3).unwrap().1)); } }""")
    COV = 'ensures final(self).grammar == old(self).grammar, covered(gr(old(self).grammar), old(self).grammar.exprs_info@, %s as int)'
    KID = 'proof { let es = self.grammar.exprs@; assert(kids(es[$1 as int]) =~= seq![$2]); assert(kids(es[$1 as int])[0] == $2); assert($2 < $1); '
    u.fn(F, U, 'check_chain_and_visit', spec='requires ok(old(self).grammar), $2 < gr(old(self).grammar).es.len(), kids(gr(old(self).grammar).es[$2 as int]) == seq![$3], op_of(gr(old(self).grammar).es[$2 as int]) == $1, $1 != PNothing\n' + COV % '$2' + '\ndecreases $2, 5int',
        proof='proof { let g = gr(self.grammar); assert(kids(g.es[$2 as int])[0] == $3); assert($3 < $2); assert forall|op: PredicateOrRepeat, x: bool| #[trigger] shows(g, $3 as int, op, x) implies to_warn(g, $2 as int) == should($1, op, x) by { lemma_to_warn(g, $2 as int, op, x); } }')
    def node(cond, lv, **kw):
        return dict(dict(spec='requires ok(old(self).grammar), $1 < gr(old(self).grammar).es.len(), %s\n%s\ndecreases $1, %dint' % (cond, COV % '$1', lv)), **kw)
    S = {'visit_expr': node('true', 20), 'walk_expr': node('true', 15)}
    NO = 'proof { let g = gr(self.grammar); let i = $1 as int; if to_warn(g, i) { assert(chain(PNothing, PNothing).is_none()); } }'
    for n, c in (('visit_str_literal', 'StrLiteral($2)'), ('visit_non_terminal_symbol', 'NonTerminalSymbol(*$2)'), ('visit_external_non_terminal_symbol', 'ExternalNonTerminalSymbol(*$2)'), ('visit_any_single_char', 'AnySingleChar'), ('visit_character_class', 'CharacterClass($2)')):
        S[n] = node(E + ' == ' + c, 10)
    S['visit_atom'] = node('%s is AnySingleChar || %s is CharacterClass' % (E, E), 5)
    for n, c in (('visit_spanned_expr', 'SpannedExpr($2)'), ('visit_range_expr', 'RangeExpr($2)'), ('visit_semantic_action', 'SemanticAction($2, $3, $4)'), ('visit_type_ascription', 'TypeAscription($2, $3)'),
                 ('visit_optional', 'ZeroOrOne($2)'), ('visit_one_or_more', 'OneOrMore($2)'), ('visit_zero_or_more', 'ZeroOrMore($2)'), ('visit_not_predicate', 'NotPredicate($2)'), ('visit_and_predicate', 'AndPredicate($2)')):
        S[n] = node(E + ' == ' + c, 10, proof=KID + '}')
    for n, c in (('visit_sequence', 'Sequence($2)'), ('visit_choice', 'Choice($2)')):
        S[n] = node(E + ' == ' + c, 10, proof='proof { let es = self.grammar.exprs@; assert(kids(es[$1 as int]) == $2@); assert forall|k: int| 0 <= k < $2@.len() implies (#[trigger] $2@[k]) < $1 by { assert(kids(es[$1 as int])[k] < $1); } lemma_top_below($2@, $1 as int); }')
    ALL = 'forall|k: int| 0 <= k < %s ==> covered(gr(old(self).grammar), old(self).grammar.exprs_info@, (#[trigger] $1@[k]) as int)'
    S['walk_exprs'] = dict(spec='requires ok(old(self).grammar), forall|k: int| 0 <= k < $1@.len() ==> (#[trigger] $1@[k]) < gr(old(self).grammar).es.len()\nensures final(self).grammar == old(self).grammar, ' + ALL % '$1@.len()' + '\ndecreases vx_top($1@) + 1, 1int',
        loops=[Loop('chain', 'invariant self.grammar == old(self).grammar, ok(self.grammar), vx_it0.seq() == vx_q0, $s@ == $1@, 0 <= $i <= $1@.len(), forall|k: int| 0 <= k < $1@.len() ==> (#[trigger] $1@[k]) < gr(self.grammar).es.len(), ' + ALL % '$i', it='map.collect', own=True,
            body='proof { lemma_top($1@, $i as int); }')])
    for n in ('visit_repeat', 'visit_syntactic_predicate'):
        S[n] = dict(spec='requires ok(old(self).grammar), $1 < gr(old(self).grammar).es.len(), kids(%s) == seq![$2]\n%s\ndecreases $1, 5int' % (E, COV % '$2'), proof=KID + '}')
    astlib.visitor(u, F, U, '()', S, default_val='()')
    RULES = 'forall|k: int| 0 <= k < %s ==> covered(gr(%s), %s.exprs_info@, (#[trigger] %s.rules@[k]).expr_idx as int)'
    u.fn(F, U, 'check_chaining', spec='requires ok($1) ensures ' + RULES % ('$1.rules@.len()', '$1', '$1', '$1'),
        loops=[Loop('for', 'invariant analyser.grammar == $1, ok($1), 0 <= vx_it.index@ <= vx_it.seq().len(), vx_it.seq().len() == $1.rules@.len(), forall|k: int| 0 <= k < vx_it.seq().len() ==> *(#[trigger] vx_it.seq()[k]) == $1.rules@[k], ' + RULES % ('vx_it.index@', '$1', '$1', '$1'), it='vx_it',
            body='proof { assert(*$var == $1.rules@[vx_it.index@ as int]); assert(gr($1).rs[vx_it.index@ as int].expr_idx < gr($1).es.len()); }')])
    u.fn(F, U, 'analyse', spec='requires ok(&$1) ensures r == Partial::Value($1), ' + RULES % ('$1.rules@.len()', '&$1', '$1', '$1'))
    return u
