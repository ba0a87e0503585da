"""Contracts of src/liboak/middle/analysis/resolve_non_terminal.rs (C13)."""
from vx import *
import astlib
F = 'src/liboak/middle/analysis/resolve_non_terminal.rs'

SPEC = r'''
pub struct FExpressionInfo { pub span: Span }
pub type AGrammar = Grammar<FExpressionInfo>;
pub enum Partial<T> { Value(T), Fake(T), Nothing }
use Partial::*;
''' + astlib.STRUCT + r'''
// ---- what resolution means
pub open spec fn names_rule(rs: Seq<Rule>, id: Ident) -> bool { exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == id@ }
pub open spec fn resolved(rs: Seq<Rule>, e: Expression) -> Expression {
  match e {
    ExternalNonTerminalSymbol(p) => if p.ident().is_some() && names_rule(rs, p.ident().unwrap()) { NonTerminalSymbol(p.ident().unwrap()) } else { e },
    _ => e,
  }
}
// j occurs in the expression i
pub open spec fn occurs(es: Seq<Expression>, i: int, j: int) -> bool
  decreases i
{ 0 <= i < es.len() && (i == j || exists|k: int| 0 <= k < kids(es[i]).len() && (#[trigger] kids(es[i])[k]) < i && occurs(es, kids(es[i])[k] as int, j)) }
pub open spec fn occurs_any(es: Seq<Expression>, s: Seq<usize>, j: int) -> bool { exists|k: int| 0 <= k < s.len() && occurs(es, (#[trigger] s[k]) as int, j) }
// the arena with exactly the occurrences of `sel` resolved
pub open spec fn done(rs: Seq<Rule>, before: Seq<Expression>, after: Seq<Expression>, sel: spec_fn(int) -> bool) -> bool {
  before.len() == after.len() && forall|j: int| 0 <= j < before.len() ==> #[trigger] after[j] == if sel(j) { resolved(rs, before[j]) } else { before[j] }
}
pub proof fn lemma_kids(rs: Seq<Rule>, e: Expression) ensures kids(resolved(rs, e)) == kids(e), resolved(rs, resolved(rs, e)) == resolved(rs, e) { }
pub proof fn lemma_occurs_same(rs: Seq<Rule>, a: Seq<Expression>, b: Seq<Expression>, i: int, j: int)
  requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> kids(a[k]) == kids(#[trigger] b[k])
  ensures occurs(a, i, j) == occurs(b, i, j)
  decreases i
{
  if 0 <= i < a.len() {
    assert(kids(a[i]) == kids(b[i]));
    assert forall|k: int| 0 <= k < kids(a[i]).len() && (#[trigger] kids(a[i])[k]) < i implies occurs(a, kids(a[i])[k] as int, j) == occurs(b, kids(a[i])[k] as int, j) by { lemma_occurs_same(rs, a, b, kids(a[i])[k] as int, j); }
  }
}
// resolving one selection and then another is resolving both
pub proof fn lemma_done(rs: Seq<Rule>, a: Seq<Expression>, b: Seq<Expression>, c: Seq<Expression>, p: spec_fn(int) -> bool, q: spec_fn(int) -> bool)
  requires done(rs, a, b, p), done(rs, b, c, q)
  ensures done(rs, a, c, |j: int| p(j) || q(j)), forall|k: int| 0 <= k < a.len() ==> kids(a[k]) == kids(#[trigger] b[k]), arena(a) ==> arena(b)
{
  assert forall|k: int| 0 <= k < a.len() implies kids(a[k]) == kids(#[trigger] b[k]) by { lemma_kids(rs, a[k]); }
  assert forall|j: int| 0 <= j < a.len() implies #[trigger] c[j] == if p(j) || q(j) { resolved(rs, a[j]) } else { a[j] } by { assert(b[j] == b[j]); lemma_kids(rs, a[j]); }
  if arena(a) { assert forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < kids(b[i]).len() implies (#[trigger] kids(b[i])[k]) < i by { assert(kids(a[i])[k] < i); } }
}
pub proof fn lemma_done_self(rs: Seq<Rule>, a: Seq<Expression>, p: spec_fn(int) -> bool)
  requires forall|j: int| 0 <= j < a.len() && p(j) ==> resolved(rs, a[j]) == #[trigger] a[j]
  ensures done(rs, a, a, p) { }
pub proof fn lemma_done_step(rs: Seq<Rule>, es0: Seq<Expression>, es1: Seq<Expression>, es2: Seq<Expression>, s: Seq<usize>, i: int)
  requires 0 <= i < s.len(), done(rs, es0, es1, |j: int| occurs_any(es0, s.take(i), j)), done(rs, es1, es2, |j: int| occurs(es1, s[i] as int, j))
  ensures done(rs, es0, es2, |j: int| occurs_any(es0, s.take(i + 1), j))
{
   let p = |j: int| occurs_any(es0, s.take(i), j); let x = s[i] as int; let q = |j: int| occurs(es1, x, j);
   assert forall|k: int| 0 <= k < es0.len() implies kids(es0[k]) == kids(#[trigger] es1[k]) by { lemma_kids(rs, es0[k]); }
   lemma_done(rs, es0, es1, es2, p, q);
   let t = s.take(i + 1);
   assert forall|j: int| 0 <= j < es0.len() implies (p(j) || q(j)) == #[trigger] occurs_any(es0, t, j) by {
     lemma_occurs_same(rs, es0, es1, x, j);
     if p(j) { let k = choose|k: int| 0 <= k < i && occurs(es0, (#[trigger] s.take(i)[k]) as int, j); assert(t[k] == s[k]); }
     if q(j) { assert(t[i] == s[i]); }
     if occurs_any(es0, t, j) { let k = choose|k: int| 0 <= k < t.len() && occurs(es0, (#[trigger] t[k]) as int, j); if k < i { assert(s.take(i)[k] == t[k]); } }
   }
   assert forall|j: int| 0 <= j < es0.len() implies #[trigger] es2[j] == if occurs_any(es0, t, j) { resolved(rs, es0[j]) } else { es0[j] } by { assert((p(j) || q(j)) == occurs_any(es0, t, j)); }
}
pub open spec fn below(s: Seq<usize>, i: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < i }
pub open spec fn same_but_exprs(a: AGrammar, b: AGrammar) -> bool {
  a.start_span == b.start_span && a.rules == b.rules && a.exprs_info == b.exprs_info && a.stream_alias == b.stream_alias
  && a.rust_functions == b.rust_functions && a.rust_items == b.rust_items && a.attributes == b.attributes
}
impl ResolveNonTerminal {
  pub open spec fn es(&self) -> Seq<Expression> { self.grammar.exprs@ }
  pub open spec fn rs(&self) -> Seq<Rule> { self.grammar.rules@ }
}
'''
STEP = 'done(old(self).rs(), old(self).es(), final(self).es(), %s), same_but_exprs(old(self).grammar, final(self).grammar), arena(final(self).es())'

RESOLVE_SPEC = '''
requires arena(grammar.exprs@), forall|k: int| 0 <= k < grammar.rules@.len() ==> (#[trigger] grammar.rules@[k]).expr_idx < grammar.exprs@.len()
ensures r is Value, same_but_exprs(grammar, r->Value_0),
  done(grammar.rules@, grammar.exprs@, r->Value_0.exprs@, |j: int| exists|k: int| 0 <= k < grammar.rules@.len() && occurs(grammar.exprs@, (#[trigger] grammar.rules@[k]).expr_idx as int, j))'''

def unit():
    u = Unit('resolve')
    astlib.ast(u)
    u.raw(SPEC)
    u.struct(F, 'ResolveNonTerminal')
    u.fn(astlib.AST, 'Grammar', 'expr_by_index', trait='ExprByIndex', spec='requires index < self.exprs.len() ensures r == self.exprs@[index as int]')
    u.fn(astlib.AST, 'Rule', 'ident', trait='ItemIdent', spec='ensures r@ == self.name@')
    u.fn(F, 'ResolveNonTerminal', 'expr_by_index', trait='ExprByIndex', spec='requires index < self.es().len() ensures r == self.es()[index as int]')
    def node(this, cond, dec):
        return dict(spec='requires arena(old(self).es()), %s < old(self).es().len(), %s\nensures %s%s' % (this, cond, STEP % ('|j: int| occurs(old(self).es(), %s as int, j)' % this), '\ndecreases %s, %dint' % (this, dec) if dec is not None else ''))
    E = 'old(self).es()[%s as int]'
    def unary(this, ctor, dec):
        d = node(this, '%s == %s' % (E % this, ctor), dec)
        d['proof'] = 'proof { let es = self.es(); assert(kids(es[%s as int]) =~= seq![$2]); assert(kids(es[%s as int])[0] == $2); assert forall|j: int| #[trigger] occurs(es, %s as int, j) implies j == %s || occurs(es, $2 as int, j) by { } assert(resolved(self.rs(), es[%s as int]) == es[%s as int]); }' % ((this,) * 6)
        return d
    S = {}
    S['visit_expr'] = node('$1', 'true', 20)
    S['walk_expr'] = node('$1', 'true', 15)
    for n, c, t in (('visit_str_literal', 'StrLiteral($2)', '$1'), ('visit_non_terminal_symbol', 'NonTerminalSymbol(*$2)', '$1'), ('visit_any_single_char', 'AnySingleChar', '$1'), ('visit_character_class', 'CharacterClass($2)', '$1')):
        S[n] = node(t, '%s == %s' % (E % t, c), 10)
    S['visit_atom'] = node('$1', 'kids(%s).len() == 0, !(%s is ExternalNonTerminalSymbol)' % (E % '$1', E % '$1'), 5)
    S['visit_external_non_terminal_symbol'] = node('$1', '%s == ExternalNonTerminalSymbol(*$2)' % (E % '$1'), 10)
    S['visit_external_non_terminal_symbol'].update(
        proof='let ghost rs0 = self.rs(); let ghost es0 = self.es(); proof { assert(kids(es0[$1 as int]).len() == 0); assert forall|j: int| #[trigger] occurs(es0, $1 as int, j) implies j == $1 by {} let es2 = es0.update($1 as int, resolved(rs0, es0[$1 as int])); lemma_done(rs0, es0, es2, es2, |j: int| occurs(es0, $1 as int, j), |j: int| false); if resolved(rs0, es0[$1 as int]) == es0[$1 as int] { assert(es2 =~= es0); } }',
        loops=[Loop('chain', 'invariant $i <= $s.len(), $s@ == self.rs(), $go == !$o, $o ==> names_rule(self.rs(), *ident), forall|k: int| 0 <= k < $i ==> (#[trigger] self.rs()[k]).name@ != ident@ || $o\n decreases $s.len() - $i', it='any')])
    for n, t, a in (('visit_sequence', '$1', 'Sequence'), ('visit_choice', '$1', 'Choice')):
        S[n] = node(t, '%s == %s($2)' % (E % t, a), 10)
        S[n]['proof'] = 'proof { let es = self.es(); assert(kids(es[$1 as int]) == $2@); assert(below($2@, $1 as int)) by { assert forall|k: int| 0 <= k < $2@.len() implies (#[trigger] $2@[k]) < $1 by { assert(kids(es[$1 as int])[k] < $1); } } assert(resolved(self.rs(), es[$1 as int]) == es[$1 as int]); assert forall|j: int| #[trigger] occurs(es, $1 as int, j) implies j == $1 || occurs_any(es, $2@, j) by {} assert forall|j: int| occurs_any(es, $2@, j) implies #[trigger] occurs(es, $1 as int, j) by { let k = choose|k: int| 0 <= k < $2@.len() && occurs(es, (#[trigger] $2@[k]) as int, j); assert(kids(es[$1 as int])[k] < $1); } }'
    for n, t, c in (('visit_spanned_expr', '$1', 'SpannedExpr($2)'), ('visit_range_expr', '$1', 'RangeExpr($2)'), ('visit_optional', '$1', 'ZeroOrOne($2)'),
                    ('visit_semantic_action', '$1', 'SemanticAction($2, $3, $4)'), ('visit_type_ascription', '$1', 'TypeAscription($2, $3)'),
                    ('visit_zero_or_more', '$1', 'ZeroOrMore($2)'), ('visit_one_or_more', '$1', 'OneOrMore($2)'), ('visit_not_predicate', '$1', 'NotPredicate($2)'), ('visit_and_predicate', '$1', 'AndPredicate($2)')):
        S[n] = unary(t, c, 10)
    for n in ('visit_repeat', 'visit_syntactic_predicate'):
        S[n] = node('$1', 'kids(%s) == seq![$2], !(%s is ExternalNonTerminalSymbol)' % (E % '$1', E % '$1'), 5)
        S[n]['proof'] = S['visit_optional']['proof']
    S['walk_exprs'] = dict(spec='requires arena(old(self).es()), forall|k: int| 0 <= k < $1@.len() ==> (#[trigger] $1@[k]) < old(self).es().len()\nensures ' + STEP % '|j: int| occurs_any(old(self).es(), $1@, j)' + '\ndecreases vx_top($1@) + 1, 1int',
        proof='let ghost es0 = self.es(); let ghost rs0 = self.rs(); let ghost g0 = self.grammar; proof { lemma_done_self(rs0, es0, |j: int| occurs_any(es0, $1@.take(0), j)); }',
        loops=[Loop('chain', '''invariant $i <= $s.len(), $s@ == $1@, es0 == old(self).es(), rs0 == old(self).rs(), g0 == old(self).grammar, arena(es0), arena(self.es()), same_but_exprs(g0, self.grammar),
     forall|k: int| 0 <= k < $1@.len() ==> (#[trigger] $1@[k]) < es0.len(),
     done(rs0, es0, self.es(), |j: int| occurs_any(es0, $1@.take($i as int), j))
  decreases $s.len() - $i''', it='map.collect',
          body='let ghost es1 = self.es(); proof { lemma_top($1@, $i as int); }',
          tail='''proof { lemma_done_step(rs0, es0, es1, self.es(), $1@, $i as int); }''', after='proof { assert($1@.take($i as int) =~= $1@); }')])
    u.raw('''
pub open spec fn vx_top(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { -1 } else { let t = vx_top(s.drop_last()); if s.last() > t { s.last() as int } else { t } } }
pub proof fn lemma_top(s: Seq<usize>, k: int) requires 0 <= k < s.len() ensures s[k] <= vx_top(s) decreases s.len() { if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); lemma_top(s.drop_last(), k); } }
pub proof fn lemma_top_below(s: Seq<usize>, i: int) requires below(s, i), i >= 0 ensures -1 <= vx_top(s) < i decreases s.len() { if s.len() > 0 { assert(s[s.len() - 1] < i); assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]) < i by { assert(s[k] < i); } lemma_top_below(s.drop_last(), i); } }
''')
    for n in ('visit_sequence', 'visit_choice'):
        S[n]['proof'] += ' proof { lemma_top_below($2@, $1 as int); }'
    astlib.visitor(u, F, 'ResolveNonTerminal', '()', S, default_val='()')
    u.fn(F, 'ResolveNonTerminal', 'resolve', spec=RESOLVE_SPEC,
        loops=[Loop('chain', 'invariant $i <= $s.len(), $o.len() == $i, $s@ == grammar.rules@, forall|k: int| 0 <= k < $i ==> $o@[k] == (#[trigger] grammar.rules@[k]).expr_idx\n decreases $s.len() - $i', it='map.collect'),
               Loop('for', '''invariant vx_it.seq() == vx_q1, es0 == grammar.exprs@, rs0 == grammar.rules@, arena(es0), arena(resolver.es()), same_but_exprs(grammar, resolver.grammar),
     forall|k: int| 0 <= k < vx_q1.len() ==> (#[trigger] vx_q1[k]) < es0.len(),
     done(rs0, es0, resolver.es(), |j: int| occurs_any(es0, vx_q1.take(vx_it.index@ as int), j))''', it='vx_it', hoist=True,
   pre2='let ghost es0 = grammar.exprs@; let ghost rs0 = grammar.rules@; proof { lemma_done_self(rs0, es0, |j: int| occurs_any(es0, vx_q1.take(0), j)); assert forall|k: int| 0 <= k < vx_q1.len() implies (#[trigger] vx_q1[k]) < es0.len() by { assert(vx_q1[k] == rs0[k].expr_idx); } }',
   body='let ghost es1 = resolver.es();', tail='proof { lemma_done_step(rs0, es0, es1, resolver.es(), vx_q1, vx_it.index@ as int); }',
   after='''proof { let s = vx_q1; assert(s.take(s.len() as int) =~= s); assert forall|j: int| 0 <= j < es0.len() implies #[trigger] occurs_any(es0, s, j) == (exists|k: int| 0 <= k < rs0.len() && occurs(es0, (#[trigger] rs0[k]).expr_idx as int, j)) by {
     if occurs_any(es0, s, j) { let k = choose|k: int| 0 <= k < s.len() && occurs(es0, (#[trigger] s[k]) as int, j); assert(rs0[k].expr_idx == s[k]); }
     if exists|k: int| 0 <= k < rs0.len() && occurs(es0, (#[trigger] rs0[k]).expr_idx as int, j) { let k = choose|k: int| 0 <= k < rs0.len() && occurs(es0, (#[trigger] rs0[k]).expr_idx as int, j); assert(s[k] == rs0[k].expr_idx); } } }''')])
    return u
