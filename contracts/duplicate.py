"""Contracts of src/liboak/middle/analysis/duplicate.rs (C12)."""
from vx import *
import astlib
F = 'src/liboak/middle/analysis/duplicate.rs'

SPEC = r'''
pub struct FExpressionInfo { pub span: Span }
pub type AGrammar = Grammar<FExpressionInfo>;
pub trait ItemIdent { spec fn id(&self) -> Seq<char>; fn ident(&self) -> (r: Ident) ensures r@ == self.id(); }
pub trait Spanned { }
impl Spanned for Rule { }
impl Spanned for SynItemFn { }
impl ItemIdent for Rule { open spec fn id(&self) -> Seq<char> { self.name@ } fn ident(&self) -> Ident { vx_rule_ident(self) } }
impl SynItemFn { pub uninterp spec fn sig_ident(&self) -> Seq<char>; }
impl ItemIdent for SynItemFn { open spec fn id(&self) -> Seq<char> { self.sig_ident() } #[verifier::external_body] fn ident(&self) -> Ident { unimplemented!() } }
impl VxMapFn { pub uninterp spec fn view(&self) -> Map<Seq<char>, SynItemFn>; }
pub open spec fn fn_map(s: Seq<(Ident, SynItemFn)>) -> Map<Seq<char>, SynItemFn> decreases s.len() { if s.len() == 0 { Map::empty() } else { fn_map(s.drop_last()).insert(s.last().0@, s.last().1) } }
#[verifier::external_body] pub fn vx_collect_map(s: Vec<(Ident, SynItemFn)>) -> (r: VxMapFn) ensures r@ == fn_map(s@) { unimplemented!() }
pub mod syn { pub use super::SynItem as Item; }

// ---- what the analysis means
pub open spec fn named<T: ItemIdent>(s: Seq<T>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id() == n }
pub open spec fn distinct<T: ItemIdent>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id() != (#[trigger] s[j]).id() }
// the first definition of every name, in order
pub open spec fn firsts<T: ItemIdent>(s: Seq<T>) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { let t = firsts(s.drop_last()); if named(t, s.last().id()) { t } else { t.push(s.last()) } }
}
pub open spec fn reported<T: ItemIdent>(s: Seq<T>) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).id() == (#[trigger] s[j]).id() ==> exists|m: Seq<char>| #[trigger] said(m) && mentions(m, s[i].id())
}
pub open spec fn values<T>(s: Seq<(Ident, T)>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn keyed<T: ItemIdent>(s: Seq<(Ident, T)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == s[i].1.id() }
pub proof fn lemma_named<T: ItemIdent>(s: Seq<T>, n: Seq<char>) ensures named(firsts(s), n) == named(s, n) decreases s.len()
{
  if s.len() > 0 {
    let a = s.drop_last(); let f = firsts(a);
    lemma_named(a, n); lemma_named(a, s.last().id());
    if named(s, n) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id() == n; if k < a.len() { assert(a[k] == s[k]); assert(named(a, n)); } }
    if named(a, n) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).id() == n; assert(s[k] == a[k]); }
    if !named(f, s.last().id()) {
      let g = f.push(s.last());
      if named(f, n) { let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).id() == n; assert(g[k] == f[k]); }
      if named(s, n) && !named(f, n) { assert(g[f.len() as int].id() == n); }
      if named(g, n) { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).id() == n; if k < f.len() { assert(f[k] == g[k]); } else { assert(s[s.len() - 1].id() == n); } }
    } else { if named(s, n) && !named(a, n) { assert(s.last().id() == n); } }
  }
}
// all names distinct exactly if nothing is left out; then every item is kept, in order
pub proof fn lemma_firsts<T: ItemIdent>(s: Seq<T>) ensures distinct(firsts(s)), firsts(s).len() <= s.len(), distinct(s) == (firsts(s).len() == s.len()), distinct(s) ==> firsts(s) == s decreases s.len()
{
  if s.len() > 0 {
    let a = s.drop_last(); let f = firsts(a);
    lemma_firsts(a); lemma_named(a, s.last().id());
    if distinct(s) { assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).id() != (#[trigger] a[j]).id() by { assert(s[i].id() != s[j].id()); }
      if named(a, s.last().id()) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).id() == s.last().id(); assert(s[k].id() != s[s.len() - 1].id()); }
      assert(firsts(s) =~= s); }
    if !distinct(a) { let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && (#[trigger] a[i]).id() == (#[trigger] a[j]).id(); assert(s[i].id() == s[j].id()); }
    if named(a, s.last().id()) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).id() == s.last().id(); assert(s[k].id() == s[s.len() - 1].id()); }
    if !named(f, s.last().id()) { let g = f.push(s.last()); assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).id() != (#[trigger] g[j]).id() by { assert(g[i] == f[i]); if j < f.len() { assert(f[i].id() != f[j].id()); } } 
      if distinct(a) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).id() != (#[trigger] s[j]).id() by { assert(s[i] == a[i]); if j < a.len() { assert(a[i].id() != a[j].id()); } } } }
  } else { assert(firsts(s) =~= s); }
}
pub open spec fn funs_of(s: Seq<SynItem>) -> Seq<SynItemFn> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { SynItem::Fn(f) => funs_of(s.drop_last()).push(f), _ => funs_of(s.drop_last()) } } }
pub open spec fn others_of(s: Seq<SynItem>) -> Seq<SynItem> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { SynItem::Fn(f) => others_of(s.drop_last()), x => others_of(s.drop_last()).push(x) } } }
'''
def h_collect(em, n):
    if em.f.name == 'rust_functions_duplicate' and n.x.kind == 'mcall' and n.x.name == 'into_iter':
        em.u.assumed.add('collecting pairs into a HashMap keeps, for every key, the value of its last occurrence')
        return 'vx_collect_map(%s)' % em.e(n.x.x)
def h_into_iter(em, n):
    return em.e(n.x)     # `for x in v` and `for x in v.into_iter()` are the same loop

def OTHER(x, *more):
    return ' && '.join('%s.%s == grammar.%s' % (x, g, g) for g in ('start_span', 'exprs', 'exprs_info', 'stream_alias', 'attributes') + more)
RULES_SPEC = '''
ensures r is Value == distinct($2@), r is Fake == !distinct($2@), r is Fake ==> reported($2@),
  r is Value ==> r->Value_0.rules@ =~= $2@ && %s,
  r is Fake ==> r->Fake_0.rules@ =~= firsts($2@) && %s''' % (OTHER('r->Value_0', 'rust_items', 'rust_functions'), OTHER('r->Fake_0', 'rust_items', 'rust_functions'))
FUNS_SPEC = '''
ensures r is Value == distinct(funs_of($2@)), r is Fake == !distinct(funs_of($2@)), r is Fake ==> reported(funs_of($2@)),
  r is Value ==> r->Value_0.rust_items@ =~= others_of($2@) && %s && exists|m: Seq<(Ident, SynItemFn)>| keyed(m) && values(m) =~= funs_of($2@) && r->Value_0.rust_functions@ == #[trigger] fn_map(m),
  r is Fake ==> r->Fake_0.rust_items@ =~= others_of($2@) && %s''' % (OTHER('r->Value_0', 'rules'), OTHER('r->Fake_0', 'rules'))

def unit():
    u = Unit('duplicate')
    u.struct_subst = []
    astlib.ast(u)
    u.out[0] = u.out[0].replace('#[verifier::external_body] pub struct SynItem { x: std::marker::PhantomData<u8> }', 'pub enum SynItem { Fn(SynItemFn), Type(SynItemType), Other(SynType) }')
    u.text_sub += [(r'\bItemIter\b', 'Vec<Item>'), (r'<Vec<Item>(: Iterator<Item=Item>)?>', ''), (r'where\s+Vec<Item>: Iterator<Item=Item>', '')]
    u.raw(astlib.PARTIAL)
    u.raw(astlib.DIAG)
    u.raw(SPEC)
    u.struct(F, 'DuplicateItem')
    u.raw('''impl<Item: ItemIdent + Spanned> DuplicateItem<Item> {
  pub open spec fn is(&self, s: Seq<Item>) -> bool { keyed(self.items@) && values(self.items@) =~= firsts(s) && self.has_duplicate == !distinct(s) && (self.has_duplicate ==> reported(s)) }
}
''')
    u.mcalls.update(collect=h_collect, into_iter=h_into_iter)
    f = u.fn(astlib.AST, 'Rule', 'ident', trait='ItemIdent', free='vx_rule: &Rule', rename='vx_rule_ident', generics='')
    f.spec = 'ensures r@ == vx_rule.name@'
    f.path_sub = {'self': 'vx_rule'}
    G = dict(generics='', nowhere=True)
    u.fn(F, 'DuplicateItem', 'make', spec='''ensures r == vx_closed(!self.has_duplicate, Some(self.items))''')
    u.fn(F, 'DuplicateItem', 'duplicate_items', spec='''ensures exists|m: Seq<char>| #[trigger] said(m) && mentions(m, $2.id())''')
    u.fn(F, 'DuplicateItem', 'populate', generics='', spec='''requires self.is(Seq::empty())
ensures r.is($1@), r.what_is_duplicated == self.what_is_duplicated''',
        loops=[Loop('for', '''invariant vx_it.seq() == vx_q0, vx_self.is(vx_q0.take(vx_it.index@ as int)), vx_self.what_is_duplicated == what0''', it='vx_it', hoist=True,
                 pre2='let ghost what0 = vx_self.what_is_duplicated; proof { assert(vx_q0.take(0) =~= Seq::<Item>::empty()); }',
                 body='let ghost items0 = vx_self.items@; let ghost s0 = vx_q0.take(vx_it.index@ as int); proof { lemma_named(s0, $var.id()); lemma_firsts(s0); let s1 = vx_q0.take(vx_it.index@ + 1); assert(s1.drop_last() =~= s0); assert(s1.last() == $var); lemma_firsts(s1); lemma_step(items0, s0, s1); }',
                 after='proof { assert(vx_q0.take(vx_q0.len() as int) =~= vx_q0); }'),
               Loop('chain', '''invariant $i <= $s.len(), $s@ == vx_self.items@, $go == !$o, keyed(vx_self.items@), $o ==> named(values(vx_self.items@), ident@), forall|k: int| 0 <= k < $i ==> (#[trigger] vx_self.items@[k]).0@ != ident@ || $o
  decreases $s.len() - $i''', it='any', tail='proof { if $o { assert(values(vx_self.items@)[$i as int] == vx_self.items@[$i as int].1); } }',
                  after='proof { let v = values(vx_self.items@); if named(v, ident@) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).id() == ident@; assert(vx_self.items@[k].0@ == ident@); } }'),
               Loop('chain', '''invariant $i <= $s.len(), $s@ == vx_self.items@, $go == $o.is_none(), $o.is_some() ==> $o.unwrap().0@ == ident@ && keyed(vx_self.items@) && $o.unwrap().1.id() == ident@, forall|k: int| 0 <= k < $i ==> (#[trigger] vx_self.items@[k]).0@ != ident@ || $o.is_some(), keyed(vx_self.items@)
  decreases $s.len() - $i''', it='find', ety='&(Ident, Item)', after='proof { let v = values(vx_self.items@); if named(v, ident@) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).id() == ident@; assert(vx_self.items@[k].0@ == ident@); } }')])
    u.raw('''
pub proof fn lemma_step<T: ItemIdent>(items: Seq<(Ident, T)>, s0: Seq<T>, s1: Seq<T>)
  requires keyed(items), values(items) =~= firsts(s0), s1.len() > 0, s1.drop_last() == s0
  ensures named(values(items), s1.last().id()) == named(s0, s1.last().id()),
    named(s0, s1.last().id()) ==> firsts(s1) == firsts(s0) && !distinct(s1),
    !named(s0, s1.last().id()) ==> firsts(s1) == firsts(s0).push(s1.last()) && distinct(s1) == distinct(s0) && (reported(s0) ==> reported(s1))
      && forall|id: Ident| id@ == s1.last().id() ==> #[trigger] values(items.push((id, s1.last()))) =~= firsts(s1) && keyed(items.push((id, s1.last()))),
    reported(s0) && (exists|m: Seq<char>| #[trigger] said(m) && mentions(m, s1.last().id())) ==> reported(s1),
    distinct(s0) && (exists|m: Seq<char>| #[trigger] said(m) && mentions(m, s1.last().id())) ==> reported(s1),
{
  lemma_named(s0, s1.last().id()); lemma_firsts(s0); lemma_firsts(s1);
  assert(values(items) == firsts(s0));
  assert forall|id: Ident| id@ == s1.last().id() implies #[trigger] values(items.push((id, s1.last()))) =~= firsts(s0).push(s1.last()) && keyed(items.push((id, s1.last()))) by { }
  let n = s1.len() - 1;
  assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] s1[i]) == s0[i] && (#[trigger] s1[j]) == s0[j] by {}
  if !named(s0, s1.last().id()) { assert forall|i: int| 0 <= i < n implies (#[trigger] s1[i]).id() != s1[n].id() by { assert(s0[i] == s1[i]); }
    assert(forall|i: int, j: int| 0 <= i < j < s1.len() && (#[trigger] s1[i]).id() == (#[trigger] s1[j]).id() ==> j < n && s0[i].id() == s0[j].id());
  }
  assert(forall|i: int, j: int| 0 <= i < j < s1.len() && (#[trigger] s1[i]).id() == (#[trigger] s1[j]).id() ==> s1[i].id() == s1.last().id() || (j < n && s0[i].id() == s0[j].id()));
}
''')
    u.fn(F, 'DuplicateItem', 'analyse', generics='', nowhere=True, spec='''
ensures r is Value == distinct($1@), r is Fake == !distinct($1@), !(r is Nothing),
  r is Value ==> keyed(r->Value_0@) && values(r->Value_0@) =~= $1@,
  r is Fake ==> reported($1@) && keyed(r->Fake_0@) && values(r->Fake_0@) =~= firsts($1@)''', proof='proof { lemma_firsts($1@); lemma_firsts(Seq::<Item>::empty()); }')
    u.fn(F, None, 'rule_duplicate', mcalls=dict(map=astlib.h_partial_map), spec=RULES_SPEC,
        loops=[Loop('chain', 'invariant vx_it0.seq() == $s@, $o@ =~= values($s@.take($i as int)), 0 <= $i <= $s@.len()', own=True, after='proof { assert($s@.take($s@.len() as int) =~= $s@); }')])
    u.fn(F, None, 'rust_functions_duplicate', mcalls=dict(map=astlib.h_partial_map), spec=FUNS_SPEC,
        loops=[Loop('for', 'invariant vx_it.seq() == vx_q0, 0 <= vx_it.index@ <= vx_q0.len(), functions@ == funs_of(vx_q0.take(vx_it.index@ as int)), others@ == others_of(vx_q0.take(vx_it.index@ as int))', it='vx_it', hoist=True,
             body='proof { let i = vx_it.index@ as int; let s1 = vx_q0.take(i + 1); assert(s1.drop_last() =~= vx_q0.take(i)); assert(s1.last() == vx_q0[i]); }',
             after='proof { assert(vx_q0.take(vx_q0.len() as int) =~= vx_q0); }')])
    return u
