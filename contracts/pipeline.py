"""Contracts of src/liboak/middle/{mod.rs,analysis/mod.rs,typing/mod.rs}: the passes put together (C12, C13, C14, C17).

The passes have here the contracts they are proved to have in their own units (`trusted`); what one of them requires is
proved from what the ones before it ensure, starting with what the parser is proved to hand over (unit front)."""
import re
from vx import *
import astlib, ityping, duplicate, resolve, wellformed, chaining, surface, front
M = 'src/liboak/middle/mod.rs'
N = 'src/liboak/middle/analysis/mod.rs'
TY = 'src/liboak/middle/typing/mod.rs'
A = front.A
WF = 'src/liboak/middle/analysis/well_formedness.rs'
UC = 'src/liboak/middle/analysis/useless_chaining.rs'
AT = 'src/liboak/middle/analysis/attribute.rs'
DE = 'src/liboak/middle/typing/depth.rs'

def defs(text, *names):
    """the definitions with these names, as they stand in the specification of another unit"""
    out = ''
    for n in names:
        m = re.search(r'^(?:#\[verifier::opaque\] )?pub (?:open spec fn|uninterp spec fn|proof fn|type) %s\b.*\n(?:[ {}].*\n)*' % n, text, re.M)
        if m is None:
            raise LostAnchor('specification %s' % n)
        out += m.group(0)
    return out

SPEC = r'''
pub type IGrammar = Grammar<ExpressionInfo<IType>>;
pub type TGrammar = Grammar<ExpressionInfo<Type>>;
impl VxMapFn { pub fn new() -> (r: VxMapFn) { vx_any() } }
impl VxAttrs { pub fn default() -> (r: VxAttrs) { vx_any() } }
#[verifier::external_body] pub fn vx_any<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body] pub fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// the type named Stream among the items, if there is one
#[verifier::external_body] pub fn vx_find_stream(s: &Vec<SynItem>) -> (r: Option<SynItemType>) { unimplemented!() }
// ---- refusing: the procedure does not come back
pub uninterp spec fn may_refuse() -> bool;
#[verifier::external_body] pub fn vx_refuse() -> ! requires may_refuse() /* [C12] */ { unimplemented!() }
pub fn vx_faked<T>(p: Partial<T>) -> (r: Partial<T>) ensures r == (match p { Value(x) => Fake(x), x => x }) { match p { Value(x) => Fake(x), x => x } }
// ---- what the passes say of a grammar (the meaning is given in their own units)
pub ghost struct Gr { pub es: Seq<Expression>, pub rs: Seq<Rule> }
pub uninterp spec fn ext_consumes() -> bool;
pub uninterp spec fn ranked(g: Gr) -> bool;                                     // wellformed: no rule leads to itself before anything is read
pub uninterp spec fn rules_halt(g: Gr, m: int) -> bool;                         // wellformed
pub open spec fn halts(es: Seq<Expression>, rs: Seq<Rule>) -> bool { ext_consumes() ==> forall|m: int| m >= -1 ==> #[trigger] rules_halt(Gr { es: es, rs: rs }, m) }
pub uninterp spec fn loops(es: Seq<Expression>, rs: Seq<Rule>) -> bool;         // wellformed: refused
pub uninterp spec fn warned(es: Seq<Expression>, rs: Seq<Rule>) -> bool;        // chaining: every rule has been gone through
pub uninterp spec fn ill_typed(es: Seq<Expression>, rs: Seq<Rule>) -> bool;     // surface: refused
pub uninterp spec fn fresh(g: &IGrammar) -> bool;                               // surface
pub uninterp spec fn inferred(g: &IGrammar, r: Partial<TGrammar>) -> bool;      // surface
pub open spec fn types_of(es: Seq<Expression>, rs: Seq<Rule>, t: TGrammar) -> bool { exists|g: IGrammar| g.rules@ == rs && g.exprs@ == es.push(SpannedExpr(0)) && fresh(&g) && #[trigger] inferred(&g, Value(t)) }
'''

MEANING = r'''
pub open spec fn asc_ok(e: Expression) -> bool { match e { TypeAscription(_, t) => t is Invisible || t is Regular && (t->Regular_0 is Unit || t->Regular_0 is Rust), _ => true } }
// what the parser hands over
pub open spec fn read(g: FGrammar) -> bool { fok(g) && laid(g) }
// every expression, with the names of rules resolved
pub open spec fn resolution(rs: Seq<Rule>, es: Seq<Expression>) -> Seq<Expression> { Seq::new(es.len(), |j: int| resolved(rs, es[j])) }
pub open spec fn repeated(g: FGrammar) -> bool { !distinct(g.rules@) || !distinct(funs_of(g.rust_items@)) }
pub open spec fn refusable(g: FGrammar) -> bool { g.rules@.len() == 0 || repeated(g) || loops(resolution(g.rules@, g.exprs@), g.rules@) || ill_typed(resolution(g.rules@, g.exprs@), g.rules@) }
// `calls` is any relation in which a rule stands to the rules it refers to: that of the grammar at hand is one (assumed: there is one grammar)
#[verifier::external_body] pub proof fn axiom_calls(es: Seq<Expression>, rs: Seq<Rule>) ensures forall|i: int| 0 <= i < es.len() - 1 && (#[trigger] es[i]) is NonTerminalSymbol ==> calls(own(es, rs)(i), es[i]->NonTerminalSymbol_0@) {}

pub proof fn lemma_firsts_in<T: ItemIdent>(s: Seq<T>) ensures forall|k: int| 0 <= k < firsts(s).len() ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == #[trigger] firsts(s)[k] decreases s.len()
{
  if s.len() > 0 {
    let a = s.drop_last(); lemma_firsts_in(a);
    assert forall|k: int| 0 <= k < firsts(s).len() implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == #[trigger] firsts(s)[k] by {
      if k < firsts(a).len() { assert(firsts(s)[k] == firsts(a)[k]); let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == firsts(a)[k]; assert(s[j] == firsts(s)[k]); } else { assert(s[s.len() - 1] == firsts(s)[k]); }
    }
  }
}
// every expression is under that of a rule
pub proof fn lemma_under(es: Seq<Expression>, v: Seq<usize>, j: int) requires arena(es), 0 <= j < es.len(), forall|j: int| #[trigger] top(es, j) ==> among(v, j) ensures occurs_any(es, v, j) decreases es.len() - j
{
  reveal(top);
  if top(es, j) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]) == j; assert(occurs(es, v[k] as int, j)); }
  else {
    let (i, m) = choose|i: int, m: int| 0 <= i < es.len() && 0 <= m < kids(es[i]).len() && (#[trigger] kids(es[i])[m]) == j; assert(kids(es[i])[m] < i);
    lemma_under(es, v, i); let k = choose|k: int| 0 <= k < v.len() && occurs(es, (#[trigger] v[k]) as int, i);
    lemma_occurs_kid(es, v[k] as int, i, m); assert(occurs(es, v[k] as int, j));
  }
}
pub proof fn lemma_occurs_kid(es: Seq<Expression>, a: int, i: int, m: int) requires arena(es), occurs(es, a, i), 0 <= i < es.len(), 0 <= m < kids(es[i]).len() ensures occurs(es, a, kids(es[i])[m] as int) decreases a
{
  assert(kids(es[i])[m] < i);
  if a == i { assert(occurs(es, kids(es[i])[m] as int, kids(es[i])[m] as int)); }
  else { let k = choose|k: int| 0 <= k < kids(es[a]).len() && (#[trigger] kids(es[a])[k]) < a && occurs(es, kids(es[a])[k] as int, i); lemma_occurs_kid(es, kids(es[a])[k] as int, i, m); assert(kids(es[a])[k] < a && occurs(es, kids(es[a])[k] as int, kids(es[i])[m] as int)); }
}
// resolving leaves the trees as they are
pub proof fn lemma_resolution(rs: Seq<Rule>, es: Seq<Expression>, e1: Seq<Expression>, sel: spec_fn(int) -> bool)
  requires done(rs, es, e1, sel), arena(es), forall|i: int| 0 <= i < es.len() ==> sane(#[trigger] es[i])
  ensures arena(e1), forall|i: int| 0 <= i < es.len() ==> kids(#[trigger] e1[i]) == kids(es[i]), forall|i: int| 0 <= i < e1.len() ==> match #[trigger] e1[i] { NonTerminalSymbol(id) => names_rule(rs, id@), Choice(ks) => ks@.len() > 0, Sequence(ks) => ks@.len() > 0, x => asc_ok(x) }
{
  assert forall|i: int| 0 <= i < es.len() implies kids(#[trigger] e1[i]) == kids(es[i]) by { lemma_kids(rs, es[i]); }
  assert forall|i: int, k: int| 0 <= i < e1.len() && 0 <= k < kids(e1[i]).len() implies (#[trigger] kids(e1[i])[k]) < i by { assert(kids(es[i])[k] < i); }
  assert forall|i: int| 0 <= i < e1.len() implies match #[trigger] e1[i] { NonTerminalSymbol(id) => names_rule(rs, id@), Choice(ks) => ks@.len() > 0, Sequence(ks) => ks@.len() > 0, x => asc_ok(x) } by { assert(sane(es[i])); }
}
// all the names, when the trees are those of the rules
pub open spec fn reaches(rs: Seq<Rule>, es: Seq<Expression>, sel: spec_fn(int) -> bool) -> bool { forall|j: int| (exists|k: int| 0 <= k < rs.len() && occurs(es, (#[trigger] rs[k]).expr_idx as int, j)) ==> #[trigger] sel(j) }
pub proof fn lemma_all(g: FGrammar, e1: Seq<Expression>, sel: spec_fn(int) -> bool)
  requires read(g), done(g.rules@, g.exprs@, e1, sel), reaches(g.rules@, g.exprs@, sel)
  ensures e1 == resolution(g.rules@, g.exprs@)
{
  assert forall|j: int| 0 <= j < e1.len() implies #[trigger] e1[j] == resolved(g.rules@, g.exprs@[j]) by {
    lemma_under(g.exprs@, roots(g), j); let k = choose|k: int| 0 <= k < roots(g).len() && occurs(g.exprs@, (#[trigger] roots(g)[k]) as int, j); assert(roots(g)[k] == g.rules@[k].expr_idx);
    assert(sel(j)); assert(e1[j] == resolved(g.rules@, g.exprs@[j]));
  }
  assert(e1 =~= resolution(g.rules@, g.exprs@));
}
// the rule whose tree has j
pub open spec fn owner(es: Seq<Expression>, rs: Seq<Rule>, j: int) -> Seq<char> decreases es.len() - j
{
  if !(0 <= j < es.len()) { Seq::empty() }
  else if top(es, j) { rs[choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).expr_idx == j].name@ }
  else { let i = parent(es, j); if j < i < es.len() { owner(es, rs, i) } else { Seq::empty() } }
}
pub open spec fn parent(es: Seq<Expression>, j: int) -> int { choose|i: int| 0 <= i < es.len() && among(#[trigger] kids(es[i]), j) }
pub proof fn lemma_parent(es: Seq<Expression>, i: int, m: int) requires forest(es), arena(es), 0 <= i < es.len(), 0 <= m < kids(es[i]).len() ensures parent(es, kids(es[i])[m] as int) == i, !top(es, kids(es[i])[m] as int), kids(es[i])[m] < i
{
  reveal(top); reveal(forest); let j = kids(es[i])[m]; assert(among(kids(es[i]), j as int)); let p = parent(es, j as int); assert(0 <= p < es.len() && among(kids(es[p]), j as int));
  let o = choose|o: int| 0 <= o < kids(es[p]).len() && (#[trigger] kids(es[p])[o]) == j; assert(kids(es[i])[m] == kids(es[p])[o]);
}
pub proof fn lemma_distinct(rs: Seq<Rule>, k: int) requires distinct(rs), 0 <= k < rs.len() ensures rule_expr(rs, rs[k].name@) == rs[k].expr_idx, names_rule(rs, rs[k].name@) decreases rs.len()
{
  assert(rs[k].name@ == rs[k].name@);
  if k > 0 {
    let t = rs.drop_first(); assert(rs[0].id() != rs[k].id()); assert(t[k - 1] == rs[k]);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).id() != (#[trigger] t[j]).id() by { assert(t[i] == rs[i + 1] && t[j] == rs[j + 1]); assert(rs[i + 1].id() != rs[j + 1].id()); }
    lemma_distinct(t, k - 1);
  }
}
// what the type inference asks for
pub proof fn lemma_shape(g: FGrammar, e2: Seq<Expression>)
  requires read(g), distinct(g.rules@), g.rules@.len() > 0, e2 == resolution(g.rules@, g.exprs@).push(SpannedExpr(0)), e2.len() <= usize::MAX
  ensures shape(e2, g.rules@)
{
  let es = g.exprs@; let rs = g.rules@; let e1 = resolution(rs, es); let n = es.len() as int; let v = roots(g);
  assert(done(rs, es, e1, |j: int| true)); lemma_resolution(rs, es, e1, |j: int| true);
  assert forall|k: int| 0 <= k < rs.len() implies (#[trigger] rs[k]).expr_idx < n && top(es, rs[k].expr_idx as int) && rs[k].expr_idx == rule_expr(rs, rs[k].name@) by { assert(v[k] == rs[k].expr_idx); assert(top(es, v[k] as int)); lemma_top_le(es, v[k] as int); lemma_distinct(rs, k); }
  assert(n > 0) by { assert(rs[0].expr_idx < n); }
  assert forall|i: int| 0 <= i < n implies (#[trigger] e2[i]) == e1[i] && kids(e2[i]) == kids(es[i]) by { assert(kids(e1[i]) == kids(es[i])); }
  assert forall|i: int, k: int| 0 <= i < e2.len() && 0 <= k < kids(e2[i]).len() implies (#[trigger] kids(e2[i])[k]) < i by { if i < n { assert(kids(e1[i])[k] < i); } }
  // whose is an expression
  let o = |j: int| owner(es, rs, j);
  assert forall|m: Seq<char>| names_rule(rs, m) implies o(#[trigger] rule_expr(rs, m)) == m by {
    let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == m; lemma_distinct(rs, k); let j = rs[k].expr_idx as int;
    assert(v[k] == j); let c = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).expr_idx == j; assert(rs[c].expr_idx == j);
    if c < k { assert(v[c] < v[k]); } if k < c { assert(v[k] < v[c]); }
  }
  assert forall|i: int, k: int| 0 <= i < e2.len() - 1 && 0 <= k < kids(e2[i]).len() implies o((#[trigger] kids(e2[i])[k]) as int) == o(i) by { assert(kids(e2[i]) == kids(es[i])); lemma_parent(es, i, k); }
  assert(owned(e2, rs, o));
  assert(owned(e2, rs, own(e2, rs)));
  assert forall|j: int| 0 <= j < e2.len() - 1 implies #[trigger] rooted(e2, rs, j) by {
    if top(es, j) { assert(among(v, j)); let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]) == j; assert(rs[k].expr_idx == j); }
    else { reveal(top); let (i, m) = choose|i: int, m: int| 0 <= i < es.len() && 0 <= m < kids(es[i]).len() && (#[trigger] kids(es[i])[m]) == j; assert(kids(e2[i]) == kids(es[i])); assert(kids(e2[i])[m] == j); }
  }
  axiom_calls(e2, rs);
  assert forall|i: int| 0 <= i < e2.len() - 1 && (#[trigger] e2[i]) is NonTerminalSymbol implies names_rule(rs, e2[i]->NonTerminalSymbol_0@) && calls(own(e2, rs)(i), e2[i]->NonTerminalSymbol_0@) by { assert(e2[i] == e1[i]); }
  assert forall|i: int| 0 <= i < e2.len() - 1 implies asc_ok(#[trigger] e2[i]) && ((e2[i] is Sequence || e2[i] is Choice) ==> kids(e2[i]).len() > 0) by { assert(e2[i] == e1[i]); }
  assert forall|m: Seq<char>, i: int, k: int| names_rule(rs, m) && 0 <= i < e2.len() - 1 && 0 <= k < kids(e2[i]).len() implies (#[trigger] kids(e2[i])[k]) != #[trigger] rule_expr(rs, m) by {
    let c = choose|c: int| 0 <= c < rs.len() && (#[trigger] rs[c]).name@ == m; lemma_distinct(rs, c); assert(top(es, rs[c].expr_idx as int)); assert(kids(e2[i]) == kids(es[i])); lemma_parent(es, i, k);
  }
}
'''

def h_and_then(em, n):
    """Partial::and_then (crate partial) with its body in place"""
    c = n.args[0]
    em.u.assumed.add('crate partial: Partial::and_then passes on what is held, a Fake stays one; ensure and expect do not come back for Fake and Nothing')
    if c.kind == 'closure' and len(c.params) == 1:
        v, b = em.e(c.params[0].pat), em.e(c.body)
    elif c.kind == 'path':
        v, b = 'vx_v', '%s(vx_v)' % em.e(c)
    else:
        raise Unsupported('Partial::and_then')
    return '(match %s { Value(%s) => { %s }, Fake(%s) => { vx_faked(%s) }, Nothing => Nothing })' % (em.e(n.x), v, b, v, b)

def h_ensure(em, n):
    return '(match %s { Value(vx_v) => Value(vx_v), _ => vx_refuse() })' % em.e(n.x)

def h_expect(em, n):
    return '(match %s { Value(vx_v) => vx_v, _ => vx_refuse() })' % em.e(n.x)

def h_emit(em, n):
    x = n.x
    while x.kind == 'mcall':
        if x.name in ('error', 'warning') and len(x.args) == 1 and em.src[x.args[0].s:x.args[0].e].startswith('"'):
            return 'vx_%s(vx_text(%s))' % (x.name, em.e(x.args[0]))
        x = x.x
    return astlib.h_emit(em, n)

def h_find_map(em, n):
    x = n.x
    if x.kind == 'mcall' and x.name == 'iter' and em.src[x.x.s:x.x.e].endswith('rust_items'):
        em.u.assumed.add('which item redefines Stream (the closure of find_map) is not looked into')
        return 'vx_find_stream(&%s)' % em.e(x.x)
    raise Unsupported('find_map')

TAG = dict(rules='C12', rust_functions='C12', rust_items='C12', exprs='C13')

def unit():
    u = Unit('pipeline')
    astlib.ast(u, itype=False)
    u.out[0] = u.out[0].replace('#[verifier::external_body] pub struct SynItem { x: std::marker::PhantomData<u8> }', 'pub enum SynItem { Fn(SynItemFn), Type(SynItemType), Other(SynType) }')
    u.text_sub += [(r'\bsyn::Attribute\b', 'SynAttribute'), (r'\bAttribute\b', 'SynAttribute')]
    u.raw('pub mod syn { pub use super::SynItem as Item; }\nimpl Clone for SynItemType { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }\n#[verifier::external_body] pub struct SynAttribute { x: std::marker::PhantomData<u8> }\n')
    u.raw(astlib.DIAG)
    u.raw(astlib.PARTIAL)
    u.raw(astlib.STRUCT)
    T = ityping.AST
    u.enum(T, 'RecKind', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)] ', subst=[(r'//[^\n]*', '')])
    u.struct(T, 'RecPath')
    u.struct(T, 'RecSet')
    u.enum(T, 'IType', subst=[(r'//[^\n]*', '')])
    u.enum(T, 'Type', subst=[(r'//[^\n]*', '')])
    u.raw('use IType::*; use Type::*;\n')
    u.struct(T, 'ExpressionInfo')
    u.struct(A, 'FGrammar')
    dup = duplicate.SPEC.replace('pub mod syn { pub use super::SynItem as Item; }\n', '')
    dup = dup.replace('pub struct FExpressionInfo { pub span: Span }\n', '')
    u.raw('#[derive(Clone, Copy)] ')
    u.struct(A, 'FExpressionInfo')
    u.raw(dup)
    f = u.fn(astlib.AST, 'Rule', 'ident', trait='ItemIdent', free='vx_rule: &Rule', rename='vx_rule_ident', generics='')
    f.spec = 'ensures r@ == vx_rule.name@'
    f.path_sub = {'self': 'vx_rule'}
    u.raw(astlib.RULES)
    u.raw(SPEC)
    u.raw(re.sub(r'names_rule\((\w+), (p\.ident\(\)\.unwrap\(\))\)', r'names_rule(\1, \2@)', defs(resolve.SPEC, 'resolved', 'occurs', 'occurs_any', 'done', 'lemma_kids', 'same_but_exprs')))
    u.raw(defs(front.NOTATION, 'forest', 'top', 'among', 'rising', 'loose', 'sane', 'lemma_top_le', 'roots', 'laid', 'fok'))
    u.raw(defs(ityping.TYPES, 'calls'))
    u.raw(defs(surface.SPEC, 'owned', 'own', 'rooted', 'shape'))
    u.raw(defs(wellformed.SPEC, 'grammar_ok'))
    u.raw('pub open spec fn gr(g: &AGrammar) -> Gr { Gr { es: g.exprs@, rs: g.rules@ } }\n' + defs(chaining.SPEC, 'ok'))
    u.raw(MEANING)
    u.mcalls.update(and_then=h_and_then, ensure=h_ensure, expect=h_expect, emit=h_emit, find_map=h_find_map)
    u.macros['parse_quote'] = lambda em, n: 'vx_any()'
    u.calls['HashMap::new'] = lambda em, n: 'VxMapFn::new()'
    u.calls['GrammarAttributes::default'] = lambda em, n: 'VxAttrs::default()'
    for p in ('analysis', 'typing'):
        for x in ('analyse', 'type_inference'):
            u.calls['%s::%s' % (p, x)] = lambda em, n, x=x: '%s(%s)' % (x, em.e(n.args[0]))
    ES = 'resolution($1.rules@, $1.exprs@)'
    def kept(*fs):
        return ''.join('\n  r is Value ==> r->Value_0.%s == $1.%s, // [%s]' % (x, x, TAG.get(x, 'C17')) for x in fs)
    KEPT = kept('start_span', 'rules', 'exprs', 'exprs_info', 'rust_functions')
    u.fn(astlib.AST, 'Grammar', 'new', spec='ensures r.start_span == $1, r.rules@.len() == 0, r.exprs == $2, r.exprs_info == $3')
    # the passes, by their contracts
    u.fn(duplicate.F, None, 'rule_duplicate', spec=duplicate.RULES_SPEC, trusted=True)
    u.fn(duplicate.F, None, 'rust_functions_duplicate', spec=duplicate.FUNS_SPEC, trusted=True)
    for p, x in ((resolve.F, 'ResolveNonTerminal'), (WF, 'WellFormedness'), (UC, 'UselessChaining'), (DE, 'Depth')):
        m = re.search(r"struct\s+%s\s*(<'(\w+)>)?" % x, u.file(p).src)    # only the name: what the passes hold is theirs
        if m is None:
            raise LostAnchor(x)
        u.raw('pub struct %s%s { x: std::marker::PhantomData<%s> }\n' % (x, m.group(1) or '', "&'%s u8" % m.group(2) if m.group(2) else 'u8'))
    u.fn(resolve.F, 'ResolveNonTerminal', 'resolve', spec=resolve.RESOLVE_SPEC.replace('\nensures', ' // [C13]\nensures', 1), trusted=True)
    u.fn(WF, 'WellFormedness', 'analyse', trusted=True, spec=wellformed.ANALYSE_SPEC.replace('\nensures', ' // [C14]\nensures r is Nothing == loops($1.exprs@, $1.rules@),', 1))
    u.fn(UC, 'UselessChaining', 'analyse', trusted=True, spec='requires ok(&$1) // [C16]\nensures r == Partial::Value($1), warned($1.exprs@, $1.rules@)')
    u.fn(AT, None, 'merge_grammar_attributes', trusted=True, spec='ensures ' + ', '.join('final($1).%s == old($1).%s' % (x, x) for x in ('start_span', 'rules', 'exprs', 'exprs_info', 'stream_alias', 'rust_functions', 'rust_items')))
    u.fn(AT, None, 'decorate_with_attributes', spec='ensures r is Value, // [C12]' + kept('rust_items') + KEPT)
    u.fn(ityping.AST, 'IGrammar', 'from', trusted=True, spec=surface.FROM_SPEC)
    u.fn(DE, 'Depth', 'infer', trusted=True, spec=surface.INFER_SPEC.replace(' ensures', ' // [C17]\nensures !(r is Fake), r is Nothing == ill_typed($1.exprs@.drop_last(), $1.rules@), r is Value ==> r->Value_0.rules@ == $1.rules@ && r->Value_0.exprs@ == $1.exprs@,', 1))
    # put together
    u.fn(N, None, 'analyse', spec='''requires read($1)
ensures !(r is Value) == (repeated($1) || loops(%(es)s, $1.rules@)), // [C12 C14]
  r is Value ==> r->Value_0.rules@ =~= $1.rules@, // [C12]
  r is Value ==> r->Value_0.rust_items@ =~= others_of($1.rust_items@) && exists|m: Seq<(Ident, SynItemFn)>| keyed(m) && values(m) =~= funs_of($1.rust_items@) && r->Value_0.rust_functions@ == #[trigger] fn_map(m), // [C12]
  r is Value ==> r->Value_0.exprs@ =~= %(es)s, // [C13]
  r is Value ==> halts(%(es)s, $1.rules@), // [C14]
  r is Value ==> warned(%(es)s, $1.rules@), // [C16]
  r is Value ==> r->Value_0.exprs_info == $1.exprs_info && r->Value_0.start_span == $1.start_span, // [C17]''' % dict(es=ES), proof='''let ghost g0 = $1; proof { lemma_firsts_in(g0.rules@);
  assert forall|rs: Seq<Rule>, e1: Seq<Expression>, sel: spec_fn(int) -> bool| #[trigger] done(rs, g0.exprs@, e1, sel) implies arena(e1) && (forall|i: int| 0 <= i < e1.len() ==> match #[trigger] e1[i] { NonTerminalSymbol(id) => names_rule(rs, id@), Choice(ks) => ks@.len() > 0, _ => true }) by { lemma_resolution(rs, g0.exprs@, e1, sel); }
  assert forall|k: int| 0 <= k < g0.rules@.len() implies (#[trigger] g0.rules@[k]).expr_idx < g0.exprs@.len() by { assert(roots(g0)[k] == g0.rules@[k].expr_idx); lemma_top_le(g0.exprs@, roots(g0)[k] as int); }
  assert forall|e1: Seq<Expression>, sel: spec_fn(int) -> bool| #[trigger] done(g0.rules@, g0.exprs@, e1, sel) && reaches(g0.rules@, g0.exprs@, sel) implies e1 == resolution(g0.rules@, g0.exprs@) by { lemma_all(g0, e1, sel); }
  assert(reaches(g0.rules@, g0.exprs@, |j: int| exists|k: int| 0 <= k < g0.rules@.len() && occurs(g0.exprs@, (#[trigger] g0.rules@[k]).expr_idx as int, j)));}''')
    u.fn(M, None, 'at_least_one_rule_declared', spec='ensures $1.rules@.len() == 0 ==> r is Nothing && exists|m: Seq<char>| #[trigger] said(m), // [C17]\n  $1.rules@.len() > 0 ==> r == Value($1), // [C12]')
    u.fn(M, None, 'extract_stream_type', spec='ensures r is Value, // [C12]' + KEPT)
    u.fn(TY, None, 'type_inference', spec='''requires $1.exprs@.len() == $1.exprs_info@.len(), $1.exprs@.len() < usize::MAX ==> shape($1.exprs@.push(SpannedExpr(0)), $1.rules@) // [C17]
ensures !(r is Fake), r is Nothing == ill_typed($1.exprs@, $1.rules@), // [C17]
  r is Value ==> r->Value_0.rules@ == $1.rules@ && r->Value_0.exprs@ == $1.exprs@.push(SpannedExpr(0)) && types_of($1.exprs@, $1.rules@, r->Value_0), // [C17]''', proof='proof { assert($1.exprs@.push(SpannedExpr(0)).drop_last() =~= $1.exprs@); }')
    u.fn(M, None, 'typecheck', spec='''requires read($1), refusable($1) ==> may_refuse(), may_refuse() ==> refusable($1)
ensures !repeated($1), // [C12]
  r.rules@ =~= $1.rules@, // [C12]
  r.exprs@ =~= %(es)s.push(SpannedExpr(0)), // [C13]
  halts(%(es)s, $1.rules@), // [C14]
  warned(%(es)s, $1.rules@), // [C16]
  types_of(%(es)s, $1.rules@, r), // [C17]''' % dict(es=ES), proof='let ghost g0 = $1; proof { if distinct(g0.rules@) && g0.rules@.len() > 0 { let e2 = resolution(g0.rules@, g0.exprs@).push(SpannedExpr(0)); if e2.len() <= usize::MAX { lemma_shape(g0, e2); } } }')
    return u
