"""Contracts of runtime/src/parse_state.rs (and of the stream traits it is generic over)."""
import os, re
from vx import *
import str_stream as ss
F = 'runtime/src/parse_state.rs'

STREAM = r'''
// ---- what a parse state assumes of its stream type S (StrStream and FileMapStream: contracts proved in unit str_stream)
pub trait HasNext { spec fn more(&self) -> bool; fn has_next(&self) -> (r: bool) ensures r == self.more(); }
pub trait Location { spec fn location_spec(&self) -> Seq<char>; fn location(&self) -> (r: String) ensures r@ == self.location_spec(); }
pub trait CodeSnippet { spec fn snippet_spec(&self, n: nat) -> Seq<char>; fn code_snippet(&self, len_hint: usize) -> (r: String) ensures r@ == self.snippet_spec(len_hint as nat); }
// Items and prefixes of a stream, as a transition of its value (state before, item or prefix, state after)
pub trait Iterator: Sized { type Item; spec fn next_spec(self) -> (Self, Option<Self::Item>); fn next(&mut self) -> (r: Option<Self::Item>) ensures (*final(self), r) == old(self).next_spec(); }
pub trait ConsumePrefix<P>: Sized { spec fn prefix_spec(self, p: P) -> (Self, bool); fn consume_prefix(&mut self, prefix: P) -> (r: bool) ensures (*final(self), r) == old(self).prefix_spec(prefix); }

// `Ord` and `Clone` of S behave: positions are totally ordered, `==` and `>` follow that order, a clone is the same value.
pub open spec fn lawful<S: Ord + Clone>() -> bool {
  &&& S::obeys_eq_spec() && S::obeys_partial_cmp_spec() && S::obeys_cmp_spec()
  &&& (forall|a: S, b: S| #[trigger] call_ensures(S::clone, (&a,), b) ==> a == b)
  &&& (forall|a: S, b: S| #![trigger OrdSpec::cmp_spec(&a, &b)] #![trigger PartialOrdSpec::partial_cmp_spec(&a, &b)] #![trigger PartialEqSpec::eq_spec(&a, &b)]
        PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(OrdSpec::cmp_spec(&a, &b))
        && PartialEqSpec::eq_spec(&a, &b) == (OrdSpec::cmp_spec(&a, &b) == Ordering::Equal))
  &&& (forall|a: S, b: S| #![trigger OrdSpec::cmp_spec(&a, &b)] (OrdSpec::cmp_spec(&a, &b) == Ordering::Less) == (OrdSpec::cmp_spec(&b, &a) == Ordering::Greater))
  &&& (forall|a: S| #![trigger OrdSpec::cmp_spec(&a, &a)] OrdSpec::cmp_spec(&a, &a) == Ordering::Equal)
  &&& (forall|a: S, b: S, c: S| #![trigger OrdSpec::cmp_spec(&a, &b), OrdSpec::cmp_spec(&b, &c)]
        OrdSpec::cmp_spec(&a, &b) != Ordering::Greater && OrdSpec::cmp_spec(&b, &c) != Ordering::Greater ==> OrdSpec::cmp_spec(&a, &c) != Ordering::Greater)
}
pub open spec fn le<S: Ord>(a: S, b: S) -> bool { OrdSpec::cmp_spec(&a, &b) != Ordering::Greater }
pub open spec fn same<S: Ord>(a: S, b: S) -> bool { OrdSpec::cmp_spec(&a, &b) == Ordering::Equal }
'''

SPEC = r'''
// ---- error reporting as a function of the history of failed attempts
pub proof fn lemma_push_set(v: Seq<&'static str>, e: &'static str)
  ensures v.push(e).to_set() == v.to_set().insert(e), seq![e].to_set() == Set::<&'static str>::empty().insert(e), Seq::<&'static str>::empty().to_set() == Set::<&'static str>::empty()
{
  assert forall|x: &'static str| v.push(e).to_set().contains(x) == v.to_set().insert(e).contains(x) by {
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(v.push(e)[i] == x); }
    assert(v.push(e)[v.len() as int] == e);
    if v.push(e).contains(x) { let i = choose|i: int| 0 <= i < v.push(e).len() && v.push(e)[i] == x; if i < v.len() { assert(v[i] == x); } }
  }
  assert(v.push(e).to_set() =~= v.to_set().insert(e));
  assert(seq![e][0] == e);
  assert(seq![e].to_set() =~= Set::<&'static str>::empty().insert(e));
  assert(Seq::<&'static str>::empty().to_set() =~= Set::<&'static str>::empty());
}
// A history is the start of the stream followed by the failed attempts (where, what was expected there), in order.
pub open spec fn items_at<S: Ord>(h: Seq<(S, &'static str)>, at: S) -> Set<&'static str> decreases h.len() {
  if h.len() == 0 { Set::empty() } else {
    let t = items_at(h.drop_last(), at);
    if same(h.last().0, at) { t.insert(h.last().1) } else { t }
  }
}
// `far` is the farthest position among the start and the attempts
pub open spec fn is_farthest<S: Ord>(start: S, h: Seq<(S, &'static str)>, far: S) -> bool {
  le(start, far) && (forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> le(h[i].0, far))
  && (far == start || exists|i: int| #![trigger h[i]] 0 <= i < h.len() && h[i].0 == far)
}
// the state's error information is exactly: the farthest position, and what was expected there
pub open spec fn reports<S: Ord>(far: S, expected: Set<&'static str>, start: S, h: Seq<(S, &'static str)>) -> bool {
  is_farthest(start, h, far) && expected == items_at(h, far)
}
impl<S, T> ParseState<S, T> {
  pub open spec fn info(self) -> (S, Set<&'static str>) { (self.farthest_read, self.expected@.to_set()) }
}
pub proof fn lemma_no_items<S: Ord + Clone>(start: S, h: Seq<(S, &'static str)>, old_far: S, far: S)
  requires lawful::<S>(), is_farthest(start, h, old_far), OrdSpec::cmp_spec(&far, &old_far) == Ordering::Greater
  ensures items_at(h, far) == Set::<&'static str>::empty()
  decreases h.len()
{
  lemma_no_items_le(h, old_far, far);
}
pub proof fn lemma_no_items_le<S: Ord + Clone>(h: Seq<(S, &'static str)>, old_far: S, far: S)
  requires lawful::<S>(), forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> le(h[i].0, old_far), OrdSpec::cmp_spec(&far, &old_far) == Ordering::Greater
  ensures items_at(h, far) == Set::<&'static str>::empty()
  decreases h.len()
{
  if h.len() > 0 {
    assert(le(h[h.len() - 1].0, old_far));
    if same(h.last().0, far) {
      assert(OrdSpec::cmp_spec(&far, &h.last().0) != Ordering::Greater);
      assert(OrdSpec::cmp_spec(&h.last().0, &old_far) != Ordering::Greater);
    }
    assert forall|i: int| #![trigger h.drop_last()[i]] 0 <= i < h.drop_last().len() implies le(h.drop_last()[i].0, old_far) by { assert(h.drop_last()[i] == h[i]); }
    lemma_no_items_le(h.drop_last(), old_far, far);
  }
}
// one failed attempt, as the abstract step
pub open spec fn step<S: Ord>(far: S, expected: Set<&'static str>, cur: S, e: &'static str) -> (S, Set<&'static str>) {
  match OrdSpec::cmp_spec(&cur, &far) {
    Ordering::Greater => (cur, Set::empty().insert(e)),
    Ordering::Equal => (far, expected.insert(e)),
    Ordering::Less => (far, expected),
  }
}
pub proof fn lemma_step<S: Ord + Clone>(far: S, expected: Set<&'static str>, cur: S, e: &'static str, start: S, h: Seq<(S, &'static str)>)
  requires lawful::<S>(), reports(far, expected, start, h)
  ensures ({ let n = step(far, expected, cur, e); reports(n.0, n.1, start, h.push((cur, e))) })
{
  let n = step(far, expected, cur, e);
  let g = h.push((cur, e));
  assert(g.drop_last() =~= h);
  assert(g[h.len() as int] == (cur, e));
  assert(OrdSpec::cmp_spec(&cur, &far) == Ordering::Less ==> OrdSpec::cmp_spec(&far, &cur) == Ordering::Greater);
  assert(OrdSpec::cmp_spec(&far, &cur) == Ordering::Less ==> OrdSpec::cmp_spec(&cur, &far) == Ordering::Greater);
  assert(OrdSpec::cmp_spec(&cur, &cur) == Ordering::Equal);
  if OrdSpec::cmp_spec(&cur, &far) == Ordering::Greater {
    lemma_no_items(start, h, far, cur);
    assert(items_at(g, cur) =~= Set::empty().insert(e));
    assert(le(far, cur));
    assert(le(start, cur));
    assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies le(g[i].0, cur) by { if i < h.len() { assert(g[i] == h[i]); assert(le(h[i].0, far)); } }
    assert(g[h.len() as int].0 == cur);
  } else {
    assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies le(g[i].0, far) by { if i < h.len() { assert(g[i] == h[i]); } }
    if far != start { let i = choose|i: int| #![trigger h[i]] 0 <= i < h.len() && h[i].0 == far; assert(g[i].0 == far); }
  }
}
'''

SETS = r'''
// ---- std::collections::HashSet<&str> (assumed contracts)
#[verifier::external_body]
pub struct VxSet { s: std::collections::HashSet<&'static str> }
impl VxSet {
  pub uninterp spec fn view(&self) -> Set<&'static str>;
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures self.view().finite(), r == self.view().len() { unimplemented!() }
}
// the items in some order, each once
pub open spec fn enumerates(q: Seq<&'static str>, s: Set<&'static str>) -> bool { q.no_duplicates() && q.to_set() =~= s }
#[verifier::external_body]
pub fn vx_set_items(s: &VxSet) -> (r: Vec<&'static str>) ensures enumerates(r@, s.view()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_collect_set(v: Vec<&'static str>) -> (r: VxSet) ensures r.view() == v@.to_set() { unimplemented!() }
// String::truncate (assumed contract)
#[verifier::external_body]
pub fn vx_truncate(s: &mut String, n: usize)
  requires n <= encode_utf8(old(s)@).len() ==> is_char_boundary(encode_utf8(old(s)@), n as int)
  ensures n <= encode_utf8(old(s)@).len() ==> final(s)@ == consumed_of(old(s)@, n as int), n > encode_utf8(old(s)@).len() ==> final(s)@ == old(s)@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_string_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }

pub open spec fn quoted(e: &'static str) -> Seq<char> { seq!['`'] + e@ + seq!['`'] }
// "`a` or `b` or `c`"
pub open spec fn listing(q: Seq<&'static str>) -> Seq<char> decreases q.len() {
  if q.len() == 0 { Seq::empty() } else if q.len() == 1 { quoted(q[0]) } else { listing(q.drop_last()) + " or "@ + quoted(q.last()) }
}
pub open spec fn listing_or(q: Seq<&'static str>) -> Seq<char> { if q.len() == 0 { Seq::empty() } else { listing(q) + " or "@ } }
pub proof fn lemma_or(d: Seq<char>)
  ensures encode_utf8(d + " or "@).len() == encode_utf8(d).len() + 4,
    is_char_boundary(encode_utf8(d + " or "@), encode_utf8(d).len() as int),
    consumed_of(d + " or "@, encode_utf8(d).len() as int) == d
{
  reveal_strlit(" or ");
  encode_utf8_concat(d, " or "@);
  assert(" or "@ =~= seq![' ', 'o', 'r', ' ']);
  let o = seq![' ', 'o', 'r', ' '];
  assert(o.drop_first() =~= seq!['o', 'r', ' ']);
  assert(o.drop_first().drop_first() =~= seq!['r', ' ']);
  assert(o.drop_first().drop_first().drop_first() =~= seq![' ']);
  assert(o.drop_first().drop_first().drop_first().drop_first() =~= Seq::<char>::empty());
  reveal_with_fuel(encode_utf8, 6);
  assert(encode_utf8(o).len() == 4);
  lemma_encoded_boundary(d, o);
  assert(encode_utf8(d + o).subrange(0, encode_utf8(d).len() as int) =~= encode_utf8(d));
  encode_utf8_decode_utf8(d);
}
pub proof fn lemma_listing_step(q: Seq<&'static str>, e: &'static str, d: Seq<char>)
  requires d == listing_or(q) + seq!['`'] + e@ + "` or "@
  ensures d == listing_or(q.push(e))
{
  reveal_strlit("` or "); reveal_strlit(" or ");
  assert("` or "@ =~= seq!['`'] + " or "@);
  assert(q.push(e).drop_last() =~= q);
  assert(d =~= listing_or(q.push(e)));
}

// ---- formatting into a Formatter (assumed: a successful write appends exactly that text)
#[verifier::external_body]
pub struct VxFormatter { f: std::marker::PhantomData<u8> }
pub struct VxError;
impl VxFormatter {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn vx_write(&mut self, s: String) -> (r: std::result::Result<(), VxError>) ensures r.is_ok() ==> final(self).view() == old(self).view() + s@ { unimplemented!() }
}
pub trait VxDebug { spec fn debug(&self) -> Seq<char>; }
impl<'x, T: VxDebug> VxDebug for &'x T { open spec fn debug(&self) -> Seq<char> { (**self).debug() } }
impl<'x, T: VxDisplay> VxDisplay for &'x T { open spec fn display(&self) -> Seq<char> { (**self).display() } }
#[verifier::external_body]
pub fn vx_fmt_dbg<T: VxDebug>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.debug() { unimplemented!() }
impl<S: Location + CodeSnippet> ParseExpectation<S> {
  // "L:C: unexpected `SNIPPET`, expecting ITEMS."
  pub open spec fn message(&self, q: Seq<&'static str>) -> Seq<char> {
    self.farthest_read.location_spec() + ": unexpected `"@ + self.farthest_read.snippet_spec(10) + "`, expecting "@ + listing(q) + "."@
  }
}
'''

def h_truncate(em, n):
    if n.x.kind == 'path':
        em.u.assumed.add('String::truncate keeps the first n bytes')
        return 'vx_truncate(&mut %s, %s)' % (em.e(n.x), em.e(n.args[0]))
def h_len(em, n):
    t = em.src[n.x.s:n.x.e]
    if t == 'desc' and em.f.name == 'expected_items':
        return 'vx_string_len(&desc)'
def h_write_fmt(em, n):
    a = n.args
    if len(a) == 1 and a[0].kind == 'macro' and a[0].name == 'format_args':
        em.u.assumed.add('a successful Formatter write appends exactly the formatted text')
        return '%s.vx_write(%s)' % (em.e(n.x), em.format(em.src[a[0].body_s:a[0].body_e]))
    raise Unsupported('write_fmt')
def h_write_str(em, n):
    return '%s.vx_write(vx_string(%s))' % (em.e(n.x), em.e(n.args[0]))
def h_collect(em, n):
    x = n.x
    if x.kind == 'mcall' and x.name in ('into_iter', 'drain') and em.f.ty == 'ParseExpectation':
        em.u.assumed.add('collecting a vector into a HashSet keeps exactly its elements')
        return 'vx_collect_set(%s)' % em.e(x.x)
    raise Unsupported('collect')
def set_items(t):
    """iterating over the set: some enumeration of it"""
    m = re.match(r'^&?(.*?)(\.iter\(\))?$', t.strip(), re.S)
    return 'vx_set_items(&%s)' % m.group(1)

def unit():
    u = Unit('parse_state')
    u.no_use |= {'HashSet', 'Formatter', 'Debug', 'Error', 'Ord', 'Range', 'Rc', 'min'}
    u.text_sub += [(r"HashSet<&'static str>", 'VxSet'), (r'&mut Formatter', '&mut VxFormatter'), (r'\bError\b', 'VxError'),
                   (r'\bT\s*:\s*Debug', 'T: VxDebug'), (r'R: Stream<Output=S>', 'R: Stream<Output=S>')]
    u.mcalls.update(truncate=h_truncate, write_fmt=h_write_fmt, write_str=h_write_str, collect=h_collect)
    u.macros['write'] = lambda em, n: (lambda parts: '%s.vx_write(%s)' % (parts[0].strip(), em.format(','.join(parts[1:]))))(split_top_macro(em.src[n.body_s:n.body_e]))
    u.raw(ss.LEM)
    u.raw('''pub uninterp spec fn decimal(n: nat) -> Seq<char>;''')
    u.raw(ss.FMT.replace('pub uninterp spec fn decimal(n: nat) -> Seq<char>;', ''))
    u.raw(STREAM)
    u.struct(F, 'ParseExpectation')
    u.enum(F, 'ParseResult')
    u.raw('use ParseResult::*;')
    u.struct(F, 'ParseState')
    u.raw(SPEC)
    u.raw(SETS)
    L = 'requires lawful::<S>()\n'
    u.fn(F, 'ParseState', 'new', spec=L + '''ensures r.farthest_read == stream, r.expected@.to_set() == Set::<&'static str>::empty(), !r.failed, r.current == stream, r.data.is_none(),
  reports(r.farthest_read, r.expected@.to_set(), stream, Seq::<(S, &'static str)>::empty())''',
      proof='proof { lemma_push_set(Seq::empty(), ""); assert(OrdSpec::cmp_spec(&stream, &stream) == Ordering::Equal || !lawful::<S>()); }')
    u.fn(F, 'ParseState', 'is_failed', spec='ensures r == self.failed')
    u.fn(F, 'ParseState', 'is_successful', spec='ensures r == !self.failed')
    u.fn(F, 'ParseState', 'error', spec='''requires lawful::<S>()
ensures final(self).failed, final(self).current == old(self).current, final(self).data == old(self).data,
  final(self).info() == step(old(self).farthest_read, old(self).expected@.to_set(), old(self).current, expect),
  forall|start: S, h: Seq<(S, &'static str)>| #[trigger] reports(old(self).farthest_read, old(self).expected@.to_set(), start, h)
     ==> reports(final(self).farthest_read, final(self).expected@.to_set(), start, h.push((old(self).current, expect)))''',
      proof='''proof { let f = self.farthest_read; let x = self.expected@.to_set(); lemma_push_set(self.expected@, expect); let c = self.current;
   assert forall|start: S, h: Seq<(S, &'static str)>| #[trigger] reports(f, x, start, h) implies ({ let n = step(f, x, c, expect); reports(n.0, n.1, start, h.push((c, expect))) }) by
     { if lawful::<S>() { lemma_step(f, x, c, expect, start, h); } }
   assert(PartialOrdSpec::partial_cmp_spec(&c, &f) == Some(OrdSpec::cmp_spec(&c, &f)) || !lawful::<S>()); }''')
    KEEP = 'r.farthest_read == self.farthest_read, r.expected@.to_set() == self.expected@.to_set()'
    u.fn(F, 'ParseState', 'success', spec='ensures %s, !r.failed, r.current == self.current, r.data == Some(data)' % KEEP)
    u.fn(F, 'ParseState', 'failure', spec='ensures %s, r.failed, r.current == self.current, r.data.is_none()' % KEEP)
    u.fn(F, 'ParseState', 'mark', spec='requires lawful::<S>(), !self.failed ensures r == self.current')
    u.fn(F, 'ParseState', 'restore_from_failure', spec='requires self.failed, self.data.is_none() ensures %s, !r.failed, r.current == mark, r.data.is_none()' % KEEP)
    u.fn(F, 'ParseState', 'restore', spec='requires self.data.is_none() ensures %s, !r.failed, r.current == mark, r.data.is_none()' % KEEP)
    EXP = 'x.farthest_read == self.farthest_read && x.expected.view() == self.expected@.to_set()'
    u.fn(F, 'ParseState', 'into_result', spec='''requires self.data.is_none() ==> self.failed
ensures match r {
  Success(d) => self.data == Some(d) && !self.current.more(),
  Partial(d, x) => self.data == Some(d) && self.current.more() && %s,
  Failure(x) => self.data.is_none() && %s,
}''' % (EXP, EXP))
    u.fn(F, 'ParseState', 'extract_data', spec='''requires !self.failed, self.data.is_some()
ensures r.0.farthest_read == self.farthest_read, r.0.expected@.to_set() == self.expected@.to_set(), !r.0.failed, r.0.current == self.current, r.0.data.is_none(), Some(r.1) == self.data''')
    u.fn(F, 'ParseState', 'unwrap_data', spec='requires self.data.is_some() ensures Some(r) == self.data')
    u.fn(F, 'ParseState', 'discard_data', spec='''
ensures final(self).data.is_none(), final(self).farthest_read == old(self).farthest_read, final(self).expected@.to_set() == old(self).expected@.to_set(), final(self).failed == old(self).failed, final(self).current == old(self).current''')
    REST = ', final(self).farthest_read == old(self).farthest_read, final(self).expected@.to_set() == old(self).expected@.to_set(), final(self).failed == old(self).failed, final(self).data == old(self).data'
    u.fn(F, 'ParseState', 'next', trait='Iterator', spec='ensures (final(self).current, r) == old(self).current.next_spec()' + REST)
    u.fn(F, 'ParseState', 'consume_prefix', trait='ConsumePrefix', spec='ensures (final(self).current, r) == old(self).current.prefix_spec(prefix)' + REST)
    u.fn(F, 'ParseExpectation', 'new', spec='ensures r.farthest_read == farthest_read, r.expected.view() == expected@.to_set()')
    u.fn(F, 'ParseExpectation', 'expected_items', spec='''
ensures exists|q: Seq<&'static str>| #[trigger] enumerates(q, self.expected.view()) && r@ == listing(q)''',
      mcalls=dict(len=h_len),
      proof='''let ghost mut q0: Seq<&'static str> = Seq::empty(); proof { let s = self.expected.view(); if s.finite() && s.len() == 0 { s.lemma_len0_is_empty(); assert(q0.to_set() =~= s); assert(enumerates(q0, s)); assert(listing(q0) =~= Seq::<char>::empty()); } }''',
      loops=[Loop('for', '''
  invariant vx_it.seq() == vx_q0, enumerates(vx_q0, self.expected.view()), desc@ == listing_or(vx_q0.take(vx_it.index@ as int)), 0 <= vx_it.index@ <= vx_q0.len()''', it='vx_it', hoist=True, wrap=set_items,
        pre2='proof { assert(vx_q0.take(0) =~= Seq::<&\'static str>::empty()); }',
        body='let ghost dd = desc@; proof { assert($var == vx_q0[vx_it.index@ as int]); }',
        tail='''proof { let i = vx_it.index@ as int; let q = vx_q0.take(i); assert(vx_q0.take(i + 1) =~= q.push(vx_q0[i]));
          assert(desc@ =~= dd + seq!['`'] + $var@ + "` or "@); lemma_listing_step(q, $var, desc@);  }''',
        after='''proof { let n = vx_q0.len(); assert(vx_q0.take(n as int) =~= vx_q0); 
          vx_q0.unique_seq_to_set(); if n > 0 { lemma_or(listing(vx_q0)); } }''')])
    u.fn(F, 'ParseExpectation', 'fmt', trait='Debug', spec='''
ensures r.is_ok() ==> exists|q: Seq<&'static str>| #[trigger] enumerates(q, self.expected.view()) && final(formatter).view() == old(formatter).view() + self.message(q)''')
    u.fn(F, 'ParseResult', 'fmt', trait='Debug', spec='''
ensures r.is_ok() ==> match self {
  Success(d) => final(formatter).view() == old(formatter).view() + ("Full match, got data `"@ + d.debug() + "`."@),
  Partial(d, x) => exists|q: Seq<&'static str>| #[trigger] enumerates(q, x.expected.view()) && final(formatter).view() == old(formatter).view() + ("Partial match, got data `"@ + d.debug() + "`. It stopped because:\\n\\t"@) + x.message(q),
  Failure(x) => exists|q: Seq<&'static str>| #[trigger] enumerates(q, x.expected.view()) && final(formatter).view() == old(formatter).view() + "Error:\\n\\t"@ + x.message(q),
}''')
    return u
