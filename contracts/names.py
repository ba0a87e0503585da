"""Contracts of src/liboak/back/{name_factory,context}.rs (C23)."""
from vx import *
import astlib
F = 'src/liboak/back/name_factory.rs'
C = 'src/liboak/back/context.rs'

# the kinds of names and the function that makes them
KINDS = (('mark', 'next_mark_name'), ('branch', 'next_branch_failed_name'), ('closure', 'next_closure_name'), ('counter', 'next_counter_name'))

SPEC = r'''
// ---- numbers in decimal
pub open spec fn digit(d: int) -> char { (48 + d) as u8 as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) } }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn no_digit(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> !is_digit(#[trigger] s[k]) }
pub proof fn lemma_dec(n: nat) ensures dec(n).len() > 0, forall|k: int| 0 <= k < dec(n).len() ==> is_digit(#[trigger] dec(n)[k]) decreases n { if n >= 10 { lemma_dec(n / 10); } }
pub proof fn lemma_digit(a: int, b: int) requires 0 <= a < 10, 0 <= b < 10, digit(a) == digit(b) ensures a == b { assert((48 + a) as u8 as char == (48 + b) as u8 as char); assert(((48 + a) as u8 as char) as u32 == ((48 + a) as u8) as u32); assert(((48 + b) as u8 as char) as u32 == ((48 + b) as u8) as u32); }
pub proof fn lemma_dec_same(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a
{
  let x = dec(a); let y = dec(b);
  assert(x.last() == digit((a % 10) as int)); assert(y.last() == digit((b % 10) as int)); lemma_digit((a % 10) as int, (b % 10) as int);
  if a >= 10 { lemma_dec(a / 10); assert(x.len() >= 2); assert(b >= 10); assert(x.drop_last() =~= dec(a / 10)); assert(y.drop_last() =~= dec(b / 10)); lemma_dec_same(a / 10, b / 10); }
  else if b >= 10 { lemma_dec(b / 10); assert(y.len() >= 2); }
}
// a text without digits and a number can be told apart again
pub proof fn lemma_split(a: Seq<char>, i: nat, b: Seq<char>, j: nat) requires no_digit(a), no_digit(b), a + dec(i) == b + dec(j) ensures a == b, i == j
{
  let x = a + dec(i); lemma_dec(i); lemma_dec(j);
  if a.len() < b.len() { assert(x[a.len() as int] == dec(i)[0]); assert((b + dec(j))[a.len() as int] == b[a.len() as int]); assert(false); }
  if b.len() < a.len() { assert((b + dec(j))[b.len() as int] == dec(j)[0]); assert(x[b.len() as int] == a[b.len() as int]); assert(false); }
  assert(a =~= x.take(a.len() as int)); assert(b =~= (b + dec(j)).take(b.len() as int));
  assert(dec(i) =~= x.skip(a.len() as int)); assert(dec(j) =~= (b + dec(j)).skip(b.len() as int));
  lemma_dec_same(i, j);
}
impl VxDisplay for usize { open spec fn display(&self) -> Seq<char> { dec(*self as nat) } }
// format_ident! (assumed: the identifier with that text)
#[verifier::external_body] pub fn vx_ident(s: String) -> (r: Ident) ensures r@ == s@ { unimplemented!() }
// ---- prefixes of variables: numbers written with letters, the last one first
pub open spec fn prefix(u: nat) -> Seq<char> decreases u { if u == 0 { Seq::empty() } else { seq![letter((u % n_letters()) as int)] + prefix(u / n_letters()) } }
pub proof fn lemma_prefix(u: nat) ensures no_digit(prefix(u)), u > 0 ==> prefix(u).len() > 0, u < n_letters() * n_letters() * n_letters() ==> prefix(u).len() <= 3, u < n_letters() * n_letters() ==> prefix(u).len() <= 2, u < n_letters() ==> prefix(u).len() <= 1 decreases u
{
  lemma_letters();
  if u > 0 {
    assert(u / n_letters() < u) by (nonlinear_arith) requires u > 0, n_letters() >= 2;
    lemma_prefix(u / n_letters());
    let p = prefix(u / n_letters());
    assert forall|k: int| 0 <= k < prefix(u).len() implies !is_digit(#[trigger] prefix(u)[k]) by { if k > 0 { assert(prefix(u)[k] == p[k - 1]); } }
    let n = n_letters();
    assert(u < n * n * n ==> u / n < n * n) by (nonlinear_arith) requires n >= 2;
    assert(u < n * n ==> u / n < n) by (nonlinear_arith) requires n >= 2;
    assert(u < n ==> u / n == 0) by (nonlinear_arith) requires n >= 2;
  }
}
pub proof fn lemma_prefix_same(u: nat, v: nat) requires prefix(u) == prefix(v) ensures u == v decreases u
{
  lemma_prefix(u); lemma_prefix(v); lemma_letters();
  if u > 0 && v > 0 {
    let n = n_letters();
    assert(prefix(u)[0] == letter((u % n) as int)); assert(prefix(v)[0] == letter((v % n) as int));
    assert(u % n == v % n);
    assert(prefix(u).drop_first() =~= prefix(u / n)); assert(prefix(v).drop_first() =~= prefix(v / n));
    assert(u / n < u) by (nonlinear_arith) requires u > 0, n >= 2;
    lemma_prefix_same(u / n, v / n);
    assert(u == (u / n) * n + u % n) by (nonlinear_arith) requires n >= 2; assert(v == (v / n) * n + v % n) by (nonlinear_arith) requires n >= 2;
  }
}
pub proof fn lemma_letters() ensures n_letters() >= 2, forall|i: int, j: int| 0 <= i < n_letters() && 0 <= j < n_letters() && #[trigger] letter(i) == #[trigger] letter(j) ==> i == j, forall|i: int| 0 <= i < n_letters() ==> !is_digit(#[trigger] letter(i))
{
  reveal(letters);
  assert forall|i: int, j: int| 0 <= i < n_letters() && 0 <= j < n_letters() && #[trigger] letter(i) == #[trigger] letter(j) implies i == j by { assert((letters()[i] as char) as u32 == letters()[i] as u32); assert((letters()[j] as char) as u32 == letters()[j] as u32); }
}
// ---- the names a factory has made
pub open spec fn numbered(w: Seq<char>, n: int, x: Seq<char>) -> bool { exists|i: int| 1 <= i <= n && x == w + #[trigger] dec(i as nat) }
pub open spec fn variable(n: int, x: Seq<char>) -> bool { exists|p: int, i: int| 1 <= p < n && 0 <= i && x == #[trigger] prefix(p as nat) + #[trigger] dec(i as nat) }
pub open spec fn made(f: NameFactory, x: Seq<char>) -> bool {
  numbered(w_mark(), f.mark_uid as int, x) || numbered(w_branch(), f.branch_failed_uid as int, x) || numbered(w_closure(), f.closure_uid as int, x) || numbered(w_counter(), f.counter_uid as int, x) || variable(f.prefix_uid as int, x)
}
pub open spec fn keeps(a: NameFactory, b: NameFactory) -> bool { a.mark_uid <= b.mark_uid && a.branch_failed_uid <= b.branch_failed_uid && a.closure_uid <= b.closure_uid && a.counter_uid <= b.counter_uid && a.prefix_uid <= b.prefix_uid }
pub proof fn lemma_keeps(a: NameFactory, b: NameFactory) requires keeps(a, b) ensures forall|x: Seq<char>| made(a, x) ==> #[trigger] made(b, x) {
  assert forall|x: Seq<char>| made(a, x) implies #[trigger] made(b, x) by {}
}
// names are numbered by 64 bits, and a function has fewer than 26^3 groups of variables
pub open spec fn room(f: NameFactory) -> bool { f.mark_uid < usize::MAX && f.branch_failed_uid < usize::MAX && f.closure_uid < usize::MAX && f.counter_uid < usize::MAX && 1 <= f.prefix_uid < n_letters() * n_letters() * n_letters() }
pub open spec fn name_kind(w: Seq<char>) -> bool { no_digit(w) && (w.len() > 3) }
pub proof fn lemma_kinds() ensures name_kind(w_mark()), name_kind(w_branch()), name_kind(w_closure()), name_kind(w_counter()),
  w_mark() != w_branch(), w_mark() != w_closure(), w_mark() != w_counter(), w_branch() != w_closure(), w_branch() != w_counter(), w_closure() != w_counter()
{ $REVEAL
  $KINDS }
pub proof fn lemma_numbered(w: Seq<char>, n: int, i: int, v: Seq<char>, m: int, x: Seq<char>) requires name_kind(w), name_kind(v), i > 0, x == w + dec(i as nat) ensures numbered(v, m, x) ==> v == w && i <= m, v == w && i <= m ==> numbered(v, m, x)
{ if numbered(v, m, x) { let k = choose|k: int| 1 <= k <= m && x == v + #[trigger] dec(k as nat); lemma_split(w, i as nat, v, k as nat); } }
// a numbered name was not made before
pub proof fn lemma_new(f: NameFactory, w: Seq<char>, i: int) requires room(f), i > 0, w == w_mark() && i > f.mark_uid || w == w_branch() && i > f.branch_failed_uid || w == w_closure() && i > f.closure_uid || w == w_counter() && i > f.counter_uid
  ensures !made(f, w + dec(i as nat))
{
  let x = w + dec(i as nat); lemma_kinds();
  lemma_numbered(w, i, i, w_mark(), f.mark_uid as int, x); lemma_numbered(w, i, i, w_branch(), f.branch_failed_uid as int, x); lemma_numbered(w, i, i, w_closure(), f.closure_uid as int, x); lemma_numbered(w, i, i, w_counter(), f.counter_uid as int, x);
  if variable(f.prefix_uid as int, x) { let (p, k) = choose|p: int, k: int| 1 <= p < f.prefix_uid && 0 <= k && x == #[trigger] prefix(p as nat) + #[trigger] dec(k as nat); lemma_prefix(p as nat); lemma_split(w, i as nat, prefix(p as nat), k as nat); }
}
pub proof fn lemma_new_var(f: NameFactory, u: int, k: int) requires room(f), f.prefix_uid <= u < n_letters() * n_letters() * n_letters(), k >= 0 ensures !made(f, prefix(u as nat) + dec(k as nat))
{
  let q = prefix(u as nat); let x = q + dec(k as nat); lemma_kinds(); lemma_prefix(u as nat);
  if variable(f.prefix_uid as int, x) { let (p, i) = choose|p: int, i: int| 1 <= p < f.prefix_uid && 0 <= i && x == #[trigger] prefix(p as nat) + #[trigger] dec(i as nat); lemma_prefix(p as nat); lemma_split(q, k as nat, prefix(p as nat), i as nat); lemma_prefix_same(u as nat, p as nat); }
  lemma_not_kind(q, k, w_mark(), f.mark_uid as int); lemma_not_kind(q, k, w_branch(), f.branch_failed_uid as int); lemma_not_kind(q, k, w_closure(), f.closure_uid as int); lemma_not_kind(q, k, w_counter(), f.counter_uid as int);
}
pub proof fn lemma_not_kind(q: Seq<char>, k: int, w: Seq<char>, n: int) requires no_digit(q), q.len() <= 3, name_kind(w), k >= 0 ensures !numbered(w, n, q + dec(k as nat))
{ let x = q + dec(k as nat); if numbered(w, n, x) { let i = choose|i: int| 1 <= i <= n && x == w + #[trigger] dec(i as nat); lemma_split(w, i as nat, q, k as nat); } }
pub proof fn lemma_made_var(f: NameFactory, p: int, i: int) requires 1 <= p < f.prefix_uid, i >= 0 ensures made(f, prefix(p as nat) + dec(i as nat)) { assert(variable(f.prefix_uid as int, prefix(p as nat) + dec(i as nat))); }
// a name without a digit is never made (relied on in unit compilers: lemma_plain)
pub proof fn lemma_plain(f: NameFactory, x: Seq<char>) requires no_digit(x) ensures !made(f, x)
{
  lemma_plain_numbered(w_mark(), f.mark_uid as int, x); lemma_plain_numbered(w_branch(), f.branch_failed_uid as int, x); lemma_plain_numbered(w_closure(), f.closure_uid as int, x); lemma_plain_numbered(w_counter(), f.counter_uid as int, x);
  if variable(f.prefix_uid as int, x) { let (p, i) = choose|p: int, i: int| 1 <= p < f.prefix_uid && 0 <= i && x == #[trigger] prefix(p as nat) + #[trigger] dec(i as nat); lemma_ends(prefix(p as nat), i as nat, x); }
}
pub proof fn lemma_plain_numbered(w: Seq<char>, n: int, x: Seq<char>) requires no_digit(x) ensures !numbered(w, n, x) { if numbered(w, n, x) { let i = choose|i: int| 1 <= i <= n && x == w + #[trigger] dec(i as nat); lemma_ends(w, i as nat, x); } }
pub proof fn lemma_ends(w: Seq<char>, i: nat, x: Seq<char>) requires x == w + dec(i) ensures !no_digit(x) { lemma_dec(i); assert(x[w.len() as int] == dec(i)[0]); assert(is_digit(x[w.len() as int])); }
'''

def literal(u, name):
    """the text before the number in the name that `name` makes"""
    FF, im, f = u.lookup(F, 'NameFactory', name)
    m = re.findall(r'format_ident!\(\s*"([^"{}\\]*)\{\}"\s*,', FF.src[f.body.s:f.body.e])
    if len(m) != 1:
        raise LostAnchor('%s does not make a name of a text and a number any more' % name)
    return m[0]

def letters(u):
    FF, im, f = u.lookup(F, 'NameFactory', 'next_var_prefix')
    m = re.findall(r'\bb"([^"\\]*)"', FF.src[f.body.s:f.body.e])
    if len(m) != 1:
        raise LostAnchor('the letters of next_var_prefix')
    return m[0]

def node_hook(em, n):
    if n.kind == 'item_stmt' and re.match(r"const LETTERS\s*:", em.src[n.s:n.e]):
        return "let LETTERS = vx_letters();"
    if n.kind == 'index' and em.src[n.x.s:n.x.e] == 'self.grammar' :
        return 'vx_info(%s, %s)' % (em.e(n.x), em.e(n.ix))
    if n.kind == 'macro' and n.name == 'vec' and not em.src[n.body_s:n.body_e].strip():
        return 'Vec::new()'

CTX = r'''
// ---- what is left of the rest of the compiler
#[verifier::external_body] pub struct SynStmt { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct TGrammar { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct VxInfo { x: std::marker::PhantomData<u8> }
pub uninterp spec fn width(g: &TGrammar, i: int) -> nat;     // how many values an expression has
impl VxInfo { pub uninterp spec fn w(&self) -> nat; #[verifier::external_body] pub fn type_cardinality(&self) -> (r: usize) ensures r == self.w() { unimplemented!() } }
#[verifier::external_body] pub fn vx_info<'a>(g: &'a TGrammar, i: usize) -> (r: &'a VxInfo) ensures r.w() == width(g, i as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_names(v: &Vec<Ident>) -> (r: Vec<Ident>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_refs(v: &Vec<(Ident, SynType)>) -> (r: Vec<(Ident, SynType)>) ensures r@ == v@ { unimplemented!() }
pub open spec fn distinct(s: Seq<Ident>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub open spec fn holds(s: Seq<Ident>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }
pub open spec fn all_made(f: NameFactory, s: Seq<Ident>) -> bool { forall|i: int| 0 <= i < s.len() ==> made(f, (#[trigger] s[i])@) }
pub open spec fn cok(c: Context) -> bool { room(c.name_factory) && distinct(c.free_variables@) && all_made(c.name_factory, c.free_variables@) && all_made(c.name_factory, c.mark_variables@) }
// everything but the variables of the scope, the names made and the number of combinators
pub open spec fn other(a: Context, b: Context) -> bool { a.grammar == b.grammar && a.closures == b.closures && a.mark_variables == b.mark_variables }
'''

def unit():
    u = Unit('names')
    astlib.text_subs(u)
    u.text_sub += [(r'\bsyn::Stmt\b', 'SynStmt')]
    u.no_use |= {'Formatter', 'Display', 'Error', 'HashMap', 'HashSet'}
    u.raw(astlib.PRE)
    u.raw(astlib.DIAG)
    u.struct(F, 'NameFactory')
    ls = letters(u)
    lits = {k: literal(u, fn) for k, fn in KINDS}
    u.raw('#[verifier::opaque] pub open spec fn letters() -> Seq<u8> { seq![%s] }\n' % ', '.join('%du8' % ord(c) for c in ls))
    u.raw('pub open spec fn n_letters() -> nat { %d }\npub open spec fn letter(i: int) -> char { letters()[i] as char }\n' % len(ls))
    u.raw('#[verifier::external_body] pub fn vx_letters() -> (r: &\'static [u8]) ensures r@ == letters(), r@.len() == n_letters() { unimplemented!() }\n')
    for k, w in lits.items():
        u.raw('pub open spec fn w_%s() -> Seq<char> { "%s"@ }\n' % (k, w))
    rev, facts = [], []
    for k, w in lits.items():
        rev.append('reveal_strlit("%s");' % w)
        facts.append('assert(w_%s().len() == %d);' % (k, len(w)))
    ks = list(lits)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            d = next((j for j, (x, y) in enumerate(zip(lits[a], lits[b])) if x != y), None)
            if d is not None:
                facts.append("assert(w_%s()[%d] != w_%s()[%d]);" % (a, d, b, d))
    u.raw(SPEC.replace('$REVEAL', ' '.join(rev)).replace('$KINDS', ' '.join(facts)))
    u.node_hook = node_hook
    u.macros['format_ident'] = lambda em, n: 'vx_ident(%s)' % em.format(em.src[n.body_s:n.body_e])
    NF = 'NameFactory'
    u.fn(F, NF, 'new', spec='ensures forall|x: Seq<char>| !#[trigger] made(r, x), room(r)', proof='')
    for k, fn in KINDS:
        uid = {'mark': 'mark_uid', 'branch': 'branch_failed_uid', 'closure': 'closure_uid', 'counter': 'counter_uid'}[k]
        rest = ', '.join('final(self).%s == old(self).%s' % (v, v) for v in ('mark_uid', 'branch_failed_uid', 'closure_uid', 'counter_uid', 'prefix_uid') if v != uid)
        u.fn(F, NF, fn, spec='requires room(*old(self)) ensures !made(*old(self), r@), made(*final(self), r@), forall|x: Seq<char>| made(*old(self), x) ==> #[trigger] made(*final(self), x), final(self).%s == old(self).%s + 1, %s' % (uid, uid, rest),
             proof='proof { lemma_new(*self, w_%s(), self.%s + 1); let b = NameFactory { %s: (self.%s + 1) as usize, ..*self }; lemma_keeps(*self, b); assert(numbered(w_%s(), self.%s + 1, w_%s() + dec((self.%s + 1) as nat))); assert(Seq::<char>::empty() + w_%s() =~= w_%s()); }' % (k, uid, uid, uid, k, uid, k, uid, k, k))
    VARS = 'forall|i: int| 0 <= i < r@.len() ==> !made(*old(self), (#[trigger] r@[i])@) && made(*final(self), r@[i]@)'
    SAME = ', '.join('final(self).%s == old(self).%s' % (v, v) for v in ('mark_uid', 'branch_failed_uid', 'closure_uid', 'counter_uid'))
    u.fn(F, NF, 'next_var_prefix', spec='requires room(*old(self)) ensures r@ == prefix(old(self).prefix_uid as nat), final(self).prefix_uid == old(self).prefix_uid + 1, ' + SAME,
         loops=[Loop('while', 'invariant room(*self), *self == *old(self), LETTERS@ == letters(), LETTERS@.len() == n_letters(), num_letter <= self.prefix_uid, prefix@ + spec_prefix(num_letter as nat) == spec_prefix(self.prefix_uid as nat)\n  decreases num_letter'.replace('spec_prefix', 'crate::prefix'),
                     pre='proof { assert(Seq::<char>::empty() + crate::prefix(self.prefix_uid as nat) =~= crate::prefix(self.prefix_uid as nat)); }',
                     body='let ghost p0 = prefix@; let ghost n0 = num_letter as nat; proof { let n = n_letters(); assert(n0 / n < n0) by (nonlinear_arith) requires n0 > 0, n >= 2; assert(crate::prefix(n0) == seq![letter((n0 % n) as int)] + crate::prefix(n0 / n)); assert(p0 + crate::prefix(n0) =~= p0.push(letter((n0 % n) as int)) + crate::prefix(n0 / n)); }',
                     after='proof { assert(prefix@ + crate::prefix(0) =~= prefix@); }')])
    u.fn(F, NF, 'fresh_vars', spec='requires room(*old(self)) ensures r@.len() == $1, forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@, %s, forall|x: Seq<char>| made(*old(self), x) ==> #[trigger] made(*final(self), x), final(self).prefix_uid == old(self).prefix_uid + 1, %s' % (VARS, SAME),
         loops=[Loop('chain', 'invariant $lo == 0, $lo <= $i <= $hi || $hi < $lo, prefix@ == crate::prefix(u0), $o@.len() == $i, forall|k: int| 0 <= k < $o@.len() ==> (#[trigger] $o@[k])@ == crate::prefix(u0) + dec(k as nat)\n  decreases $hi - $i', ety='Vec<Ident>',
                     pre='let ghost u0 = old(self).prefix_uid as nat;', body='proof { assert(Seq::<char>::empty() + prefix@ =~= prefix@); }',
                     tail='',
                     after="""proof { lemma_keeps(*old(self), *self);
   assert forall|i: int, j: int| 0 <= i < j < $o@.len() implies (#[trigger] $o@[i])@ != (#[trigger] $o@[j])@ by { lemma_prefix(u0); if $o@[i]@ == $o@[j]@ { lemma_split(crate::prefix(u0), i as nat, crate::prefix(u0), j as nat); } }
   assert forall|i: int| 0 <= i < $o@.len() implies !made(*old(self), (#[trigger] $o@[i])@) && made(*self, $o@[i]@) by { lemma_new_var(*old(self), u0 as int, i); lemma_made_var(*self, u0 as int, i); } }""")])
    # ---- the context
    u.raw(CTX)
    u.struct(C, 'Context')
    u.struct(C, 'Scope')
    CX = 'Context'
    KEEP = 'final(self).free_variables == old(self).free_variables && final(self).mut_ref_free_variables == old(self).mut_ref_free_variables && final(self).num_combinators_compiled == old(self).num_combinators_compiled, other(*final(self), *old(self))'
    GROW = 'forall|x: Seq<char>| made(old(self).name_factory, x) ==> #[trigger] made(final(self).name_factory, x)'
    for k, fn in KINDS:
        if fn == 'next_closure_name':
            continue
        u.fn(C, CX, fn, spec='requires cok(*old(self)) ensures !made(old(self).name_factory, r@), made(final(self).name_factory, r@), %s, %s' % (GROW, KEEP))
    u.fn(C, CX, 'next_free_var', spec='requires cok(*old(self)), old(self).free_variables@.len() > 0 ensures holds(old(self).free_variables@, r@), !holds(final(self).free_variables@, r@), made(final(self).name_factory, r@), final(self).free_variables@ == old(self).free_variables@.drop_last(), final(self).name_factory == old(self).name_factory, final(self).mut_ref_free_variables == old(self).mut_ref_free_variables, other(*final(self), *old(self)), cok(*final(self))')
    u.fn(C, CX, 'expr_cardinality', spec='ensures r == width(self.grammar, $1 as int)')
    u.fn(C, CX, 'next_free_var_skip', spec='requires cok(*old(self)), old(self).free_variables@.len() > width(old(self).grammar, $1 as int) ensures holds(old(self).free_variables@, r@), !holds(final(self).free_variables@, r@), made(final(self).name_factory, r@), r == old(self).free_variables@[old(self).free_variables@.len() - 1 - width(old(self).grammar, $1 as int)], final(self).free_variables@.len() == old(self).free_variables@.len() - 1, final(self).name_factory == old(self).name_factory, final(self).mut_ref_free_variables == old(self).mut_ref_free_variables, other(*final(self), *old(self)), cok(*final(self))')
    u.fn(C, CX, 'free_variables', spec='ensures r@ == self.free_variables@')
    u.fn(C, CX, 'push_mark', spec='requires cok(*old(self)), made(old(self).name_factory, $1@) ensures final(self).mark_variables@ == old(self).mark_variables@.push($1), cok(*final(self)), final(self).free_variables == old(self).free_variables, final(self).mut_ref_free_variables == old(self).mut_ref_free_variables, final(self).name_factory == old(self).name_factory')
    u.fn(C, CX, 'pop_mark', spec='requires cok(*old(self)), old(self).mark_variables@.len() > 0 ensures final(self).mark_variables@ == old(self).mark_variables@.drop_last(), cok(*final(self)), final(self).free_variables == old(self).free_variables, final(self).mut_ref_free_variables == old(self).mut_ref_free_variables, final(self).name_factory == old(self).name_factory')
    SC = 's.free_variables == {0}.free_variables && s.mut_ref_free_variables == {0}.mut_ref_free_variables && s.num_combinators_compiled == {0}.num_combinators_compiled'
    u.raw('pub open spec fn scope_of(s: Scope, c: Context) -> bool { s.free_variables@ == c.free_variables@ && s.mut_ref_free_variables@ == c.mut_ref_free_variables@ && s.num_combinators_compiled == c.num_combinators_compiled }\n')
    u.fn(C, 'Scope', 'new', spec='ensures r.num_combinators_compiled == $1, r.free_variables == $2, r.mut_ref_free_variables == $3')
    u.fn(C, CX, 'save_scope', spec='ensures scope_of(r, *self)')
    u.fn(C, CX, 'restore_scope', spec='ensures scope_of($1, *final(self)), other(*final(self), *old(self)), final(self).name_factory == old(self).name_factory')
    u.fn(C, CX, 'open_scope', spec='requires cok(*old(self)) ensures scope_of(r, *old(self)), final(self).free_variables@.len() == width(old(self).grammar, $1 as int), distinct(final(self).free_variables@), forall|i: int| 0 <= i < final(self).free_variables@.len() ==> !made(old(self).name_factory, (#[trigger] final(self).free_variables@[i])@), all_made(final(self).name_factory, final(self).free_variables@), all_made(final(self).name_factory, final(self).mark_variables@), final(self).mut_ref_free_variables@.len() == 0, %s, other(*final(self), *old(self))' % GROW)
    u.fn(C, CX, 'close_scope', spec='requires old(self).free_variables@.len() == 0 ensures scope_of($1, *final(self)), other(*final(self), *old(self)), final(self).name_factory == old(self).name_factory')
    def h_clone(em, n):
        t = em.src[n.x.s:n.x.e]
        if t == 'self.free_variables':
            return 'vx_clone_names(&self.free_variables)'
        if t == 'self.mut_ref_free_variables':
            return 'vx_clone_refs(&self.mut_ref_free_variables)'
    u.mcalls.update(clone=h_clone, expect=lambda em, n: '%s.unwrap()' % em.e(n.x))
    return u
