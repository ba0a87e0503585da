"""Contracts of runtime/src/str_stream.rs."""
import os
from vx import *
F = 'runtime/src/str_stream.rs'
FL = 'runtime/src/lib.rs'
HERE = os.path.dirname(os.path.abspath(__file__))
LEM = open(os.path.join(HERE, 'utf8_lemmas.rs')).read()

SPEC_TYPE = r'''

impl<'a> StrStream<'a> {
  // Type invariant: the offset lies inside the text and on a character boundary.
  pub open spec fn wf(self) -> bool {
    is_char_boundary(encode_utf8(self.raw_data@), self.bytes_offset as int) && fits(self.raw_data@)
  }
  pub open spec fn text(self) -> Seq<char> { self.raw_data@ }
  pub open spec fn consumed(self) -> Seq<char> { consumed_of(self.raw_data@, self.bytes_offset as int) }
  pub open spec fn rest(self) -> Seq<char> { rest_of(self.raw_data@, self.bytes_offset as int) }
  pub open spec fn pos(self) -> int { self.consumed().len() as int }
}
// What a reader of the type relies on: text = consumed ++ rest, the byte offset is the encoded size of consumed.
pub proof fn stream_view(s: StrStream)
  requires s.wf()
  ensures s.text() == s.consumed() + s.rest(),
    s.bytes_offset == encode_utf8(s.consumed()).len(), s.bytes_offset <= encode_utf8(s.text()).len(),
    s.consumed() == s.text().take(s.pos()), s.rest() == s.text().skip(s.pos()),
    (s.rest().len() == 0) == (s.bytes_offset == encode_utf8(s.text()).len()),
    0 <= s.pos() <= s.text().len(),
{ lemma_position(s.raw_data@, s.bytes_offset as int); }
// Rust never allocates a string of more than isize::MAX bytes.
pub open spec fn fits(s: Seq<char>) -> bool { encode_utf8(s).len() <= isize::MAX }
pub open spec fn ordering(a: int, b: int) -> Ordering {
  if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
'''

LINES = r'''
// str indexing of the standard library (assumed contracts; vstd states only their preconditions)
#[verifier::external_body]
pub fn vx_str_range<'x>(s: &'x str, a: usize, b: usize) -> (r: &'x str)
  requires a <= b, is_char_boundary(encode_utf8(s@), a as int), is_char_boundary(encode_utf8(s@), b as int)
  ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int), r@ == decode_utf8(encode_utf8(s@).subrange(a as int, b as int))
{ &s[a..b] }
#[verifier::external_body]
pub fn vx_str_from<'x>(s: &'x str, a: usize) -> (r: &'x str)
  requires is_char_boundary(encode_utf8(s@), a as int)
  ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, encode_utf8(s@).len() as int), r@ == rest_of(s@, a as int)
{ &s[a..] }
#[verifier::external_body]
pub fn vx_str_to<'x>(s: &'x str, a: usize) -> (r: &'x str)
  requires is_char_boundary(encode_utf8(s@), a as int)
  ensures encode_utf8(r@) == encode_utf8(s@).subrange(0, a as int), r@ == consumed_of(s@, a as int)
{ &s[..a] }

// ---- lines and columns of a position, as functions of the characters before it
pub open spec fn line_of(c: Seq<char>) -> nat decreases c.len() {
  if c.len() == 0 { 1 } else { line_of(c.drop_last()) + (if c.last() == '\n' { 1nat } else { 0nat }) }
}
pub open spec fn col_of(c: Seq<char>) -> nat decreases c.len() {
  if c.len() == 0 || c.last() == '\n' { 1 } else { col_of(c.drop_last()) + encode_scalar(c.last() as u32).len() }
}
pub open spec fn no_nl(c: Seq<char>) -> bool { !c.contains('\n') }
pub open spec fn join_nl(p: Seq<&str>) -> Seq<char> decreases p.len() {
  if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0]@ } else { p[0]@ + seq!['\n'] + join_nl(p.drop_first()) }
}
// str::split('\n') of the standard library (assumed contract)
#[verifier::external_body]
pub fn vx_split_nl<'a>(s: &'a str) -> (r: Vec<&'a str>)
  ensures r@.len() >= 1, join_nl(r@) == s@, forall|i: int| 0 <= i < r@.len() ==> no_nl(#[trigger] r@[i]@)
{ unimplemented!() }
pub open spec fn strip_cr(c: Seq<char>) -> Seq<char> { if c.len() > 0 && c.last() == '\r' { c.drop_last() } else { c } }
// str::lines of the standard library: the pieces between '\n', a final '\r' of each dropped, no piece for an
// empty last line (assumed contract)
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a str) -> (r: Vec<&'a str>)
  ensures exists|q: Seq<&str>| #[trigger] join_nl(q) == s@ && q.len() >= 1
    && (forall|i: int| 0 <= i < q.len() ==> no_nl(#[trigger] q[i]@))
    && r@.len() == (if q.last()@.len() == 0 { q.len() - 1 } else { q.len() as int })
    && (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == (if i == q.len() - 1 { q[i]@ } else { strip_cr(q[i]@) }))
{ unimplemented!() }
// str::split_terminator('\n'): as split, without a final empty piece (assumed contract)
#[verifier::external_body]
pub fn vx_split_terminator_nl<'a>(s: &'a str) -> (r: Vec<&'a str>)
  ensures exists|q: Seq<&str>| #[trigger] join_nl(q) == s@ && q.len() >= 1
    && (forall|i: int| 0 <= i < q.len() ==> no_nl(#[trigger] q[i]@))
    && r@ == (if q.last()@.len() == 0 { q.drop_last() } else { q })
{ unimplemented!() }

pub proof fn lemma_line_col_append(d: Seq<char>, t: Seq<char>)
  requires no_nl(t)
  ensures line_of(d + t) == line_of(d), col_of(d + t) == col_of(d) + encode_utf8(t).len()
  decreases t.len()
{
  if t.len() == 0 { assert(d + t =~= d); } else {
    let u = t.drop_last();
    assert((d + t).drop_last() =~= d + u);
    assert forall|k: int| 0 <= k < u.len() implies u[k] != '\n' by { assert(t[k] != '\n'); }
    assert(no_nl(u)) by { if u.contains('\n') { let k = choose|k: int| 0 <= k < u.len() && u[k] == '\n'; assert(u[k] != '\n'); } }
    lemma_line_col_append(d, u);
    assert(t.contains(t[t.len() - 1]));
    assert(t.last() != '\n');
    assert((d + t).last() == t.last());
    encode_utf8_push(u, t.last());
    assert(u.push(t.last()) =~= t);
  }
}
pub proof fn lemma_line_bound(d: Seq<char>) ensures 1 <= line_of(d) <= d.len() + 1 decreases d.len()
{ if d.len() > 0 { lemma_line_bound(d.drop_last()); } }
pub proof fn lemma_line_col_nl(d: Seq<char>)
  ensures line_of(d + seq!['\n']) == line_of(d) + 1, col_of(d + seq!['\n']) == 1,
    encode_utf8(d + seq!['\n']).len() == encode_utf8(d).len() + 1
{
  assert((d + seq!['\n']).drop_last() =~= d);
  encode_utf8_concat(d, seq!['\n']);
  assert(seq!['\n'].drop_first() =~= Seq::<char>::empty());
  lemma_nl_width();
}
pub proof fn lemma_nl_width() ensures encode_utf8(seq!['\n']).len() == 1
{
  assert(seq!['\n'].drop_first() =~= Seq::<char>::empty());
  assert(encode_utf8(seq!['\n']) =~= encode_scalar('\n' as u32) + encode_utf8(Seq::<char>::empty()));
}
// `d` is the text before piece i, `p` the remaining pieces
pub proof fn lemma_line_step(s: Seq<char>, d: Seq<char>, p: Seq<&str>, off: int)
  requires s == d + join_nl(p), p.len() >= 1, no_nl(p[0]@), is_char_boundary(encode_utf8(s), off),
    encode_utf8(d).len() <= off, col_of(d) == 1,
  ensures
    encode_utf8(p[0]@).len() <= encode_utf8(s).len(), d.len() + p[0]@.len() <= s.len(),
    ({ let rem = off - encode_utf8(d).len(); let n = encode_utf8(p[0]@).len();
      &&& (rem <= n ==> line_of(consumed_of(s, off)) == line_of(d) && col_of(consumed_of(s, off)) == rem + 1)
      &&& (p.len() == 1 ==> rem <= n)
      &&& (p.len() > 1 ==> ({ let d2 = d + p[0]@ + seq!['\n'];
            s == d2 + join_nl(p.drop_first()) && line_of(d2) == line_of(d) + 1 && col_of(d2) == 1
              && encode_utf8(d2).len() == encode_utf8(d).len() + n + 1 })) })
{
  let a = d.len() as int; let b = (d + p[0]@).len() as int;
  let c = consumed_of(s, off);
  lemma_position(s, off);
  encode_utf8_concat(d, p[0]@);
  assert(s.take(a) =~= d);
  assert(s.take(b) =~= d + p[0]@);
  let k = c.len() as int;
  lemma_enc_mono(s, b, b);
  if k <= b { lemma_enc_mono(s, k, b); } else { lemma_enc_mono(s, b, k); }
  if a <= k { lemma_enc_mono(s, a, k); } else { lemma_enc_mono(s, k, a); }
  if off - encode_utf8(d).len() <= encode_utf8(p[0]@).len() {
    assert(a <= k <= b);
    let t = p[0]@.take(k - a);
    assert(c =~= d + t);
    assert(no_nl(t)) by { if t.contains('\n') { let j = choose|j: int| 0 <= j < t.len() && t[j] == '\n'; assert(p[0]@[j] == '\n'); } }
    lemma_line_col_append(d, t);
    encode_utf8_concat(d, t);
  }
  if p.len() > 1 {
    lemma_line_col_append(d, p[0]@);
    lemma_line_col_nl(d + p[0]@);
    assert(s =~= d + p[0]@ + seq!['\n'] + join_nl(p.drop_first()));
  }
}
'''

FMT = r'''
// Text formatting: `format!` is the concatenation of its pieces; the Display text of a number is its decimal form.
pub uninterp spec fn decimal(n: nat) -> Seq<char>;
pub trait VxDisplay { spec fn display(&self) -> Seq<char>; }
impl VxDisplay for usize { open spec fn display(&self) -> Seq<char> { decimal(*self as nat) } }
impl VxDisplay for String { open spec fn display(&self) -> Seq<char> { self@ } }
impl<'x> VxDisplay for &'x str { open spec fn display(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
pub fn vx_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_lit(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_arg<T: VxDisplay>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.display() { unimplemented!() }
'''

def h_split(em, n):
    a = n.args
    if len(a) == 1 and a[0].kind == 'lit' and a[0].text in ("'\\n'", '"\\n"'):
        em.u.assumed.add('str::split(\'\\n\') returns the maximal newline-free pieces, in order')
        return 'vx_split_nl(%s)' % em.e(n.x)
    raise Unsupported('split with this argument')
def h_split_term(em, n):
    a = n.args
    if len(a) == 1 and a[0].kind == 'lit' and a[0].text in ("'\\n'", '"\\n"'):
        em.u.assumed.add('str::split_terminator(\'\\n\') is split without a final empty piece')
        return 'vx_split_terminator_nl(%s)' % em.e(n.x)
    raise Unsupported('split_terminator with this argument')
def h_lines(em, n):
    em.u.assumed.add('str::lines splits at newlines, drops one final CR of each line and a final empty line')
    return 'vx_lines(%s)' % em.e(n.x)

def base(u):
    u.str_ranges = True
    u.mcalls.update(split=h_split, split_terminator=h_split_term, lines=h_lines)
    u.raw(LEM)
    it = u.struct(F, 'StrStream')
    u.raw(SPEC_TYPE)
    u.raw(LINES)
    u.raw(FMT)
    u.raw(MORE)
    if u.derives(it, 'Clone'):
        u.raw('''impl<'a> StrStream<'a> { // #[derive(Clone)]: field by field
  pub fn clone(&self) -> (r: StrStream<'a>) ensures r == *self { StrStream { raw_data: self.raw_data, bytes_offset: self.bytes_offset } } }''')
    else:
        u.fn(F, 'StrStream', 'clone', trait='Clone', spec='ensures r == *self')
    return u

PRE = 'proof { if self.wf() { stream_view(*self); encode_utf8_valid_utf8(self.raw_data@); } }'

PRE2 = 'proof { if old(self).wf() { stream_view(*old(self)); encode_utf8_valid_utf8(old(self).raw_data@); } }'

SPAN = r'''
// syntex_pos (assumed): a span is its two byte positions
#[derive(Clone, Copy)]
pub struct BytePos(pub u32);
#[derive(Clone, Copy)]
pub struct Span { pub lo: u32, pub hi: u32 }
#[verifier::external_body]
pub fn mk_sp(lo: BytePos, hi: BytePos) -> (r: Span) ensures r.lo == lo.0, r.hi == hi.0 { unimplemented!() }
// String as the owner of a text
#[verifier::external_body]
pub struct VxText { s: String }
impl VxText {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn as_str<'x>(&'x self) -> (r: &'x str) ensures r@ == self.view() { unimplemented!() }
}
'''

def h_stream(em, n):
    x = em.e(n.x)
    if n.x.kind == 'mcall' and n.x.name == 'as_str':
        return 'stream_of_str(%s)' % x
    raise Unsupported('stream() of this value')

MORE = r'''
pub open spec fn location_text(c: Seq<char>) -> Seq<char> { decimal(line_of(c)) + ":"@ + decimal(col_of(c)) }
// `t` is the longest prefix of `rest` made of whole characters that needs at most `n` bytes
pub open spec fn longest_prefix(rest: Seq<char>, n: int, t: Seq<char>) -> bool {
  t.is_prefix_of(rest) && encode_utf8(t).len() <= n
    && (forall|u: Seq<char>| #[trigger] u.is_prefix_of(rest) && encode_utf8(u).len() <= n ==> u.len() <= t.len())
}
pub proof fn lemma_snippet_zero(s: Seq<char>, a: int)
  requires is_char_boundary(encode_utf8(s), a)
  ensures is_char_boundary(encode_utf8(s), 0), encode_utf8(s).len() >= a
{ encode_utf8_valid_utf8(s); lemma_boundary_range(encode_utf8(s), a); }
pub proof fn lemma_snippet(s: Seq<char>, a: int, e: int, m: int, n: int)
  requires is_char_boundary(encode_utf8(s), a), is_char_boundary(encode_utf8(s), e), a <= e <= m <= encode_utf8(s).len(),
    m - a <= n, m - a == n || m == encode_utf8(s).len(),
    forall|x: int| e < x <= m ==> !is_char_boundary(encode_utf8(s), x)
  ensures longest_prefix(rest_of(s, a), n, decode_utf8(encode_utf8(s).subrange(a, e)))
{
  lemma_position(s, a); lemma_position(s, e);
  let ca = consumed_of(s, a); let ce = consumed_of(s, e);
  if a < e { lemma_position_order(s, a, e); } else { lemma_position_order(s, a, e); }
  let t = ce.skip(ca.len() as int);
  assert(ce =~= ca + t);
  encode_utf8_concat(ca, t);
  lemma_split(s, a); lemma_split(s, e);
  assert(encode_utf8(s).subrange(a, e) =~= encode_utf8(ce).skip(a));
  assert(encode_utf8(ce).skip(a) =~= encode_utf8(t));
  encode_utf8_decode_utf8(t);
  let rest = rest_of(s, a);
  assert(t =~= rest.take(t.len() as int));
  assert forall|u: Seq<char>| #[trigger] u.is_prefix_of(rest) && encode_utf8(u).len() <= n implies u.len() <= t.len() by {
    lemma_advance(s, a, u);
    let x = a + encode_utf8(u).len();
    assert(is_char_boundary(encode_utf8(s), x));
    assert(x <= m);
    assert(x <= e);
    lemma_position_order(s, x, e);
    assert(consumed_of(s, x).len() <= ce.len());
    assert(consumed_of(s, x) == ca + u);
  }
}
pub proof fn lemma_prefix_bytes(s: Seq<char>, i: int, p: Seq<char>)
  requires is_char_boundary(encode_utf8(s), i)
  ensures ({ let b = encode_utf8(s); let q = encode_utf8(p); let j = i + q.len();
    p.is_prefix_of(rest_of(s, i)) == (j <= b.len() && b.subrange(i, j) =~= q) }),
    p.is_prefix_of(rest_of(s, i)) ==> is_char_boundary(encode_utf8(s), i + encode_utf8(p).len())
      && consumed_of(s, i + encode_utf8(p).len()) == consumed_of(s, i) + p
      && rest_of(s, i + encode_utf8(p).len()) == rest_of(s, i).skip(p.len() as int)
{
  lemma_position(s, i);
  let b = encode_utf8(s); let q = encode_utf8(p); let j = i + q.len();
  lemma_encode_prefix(p, rest_of(s, i));
  let rb = encode_utf8(rest_of(s, i));
  assert(rb == b.subrange(i, b.len() as int));
  if p.is_prefix_of(rest_of(s, i)) {
    lemma_advance(s, i, p);
    assert(b.subrange(i, j) =~= rb.take(q.len() as int));
  }
  if j <= b.len() && b.subrange(i, j) == q {
    assert(rb.take(q.len() as int) =~= q);
    assert(q.is_prefix_of(rb));
  }
}
'''

def unit():
    return contracts(Unit('str_stream'))

def contracts(u):
    base(u)
    u.fn(F, 'StrStream', 'new', spec='''
requires fits(raw_data@)
ensures r.raw_data == raw_data, r.bytes_offset == 0, r.wf(), r.pos() == 0, r.text() == raw_data@, r.rest() == raw_data@''',
      proof='proof { encode_utf8_valid_utf8(raw_data@); lemma_position(raw_data@, 0); assert(encode_utf8(raw_data@).subrange(0, 0) =~= Seq::<u8>::empty()); }')
    u.fn(F, 'StrStream', 'assert_same_raw_data', spec='requires self.text() == other.text()')
    u.fn(F, 'StrStream', 'line_column', spec='''
requires self.wf()
ensures r.0 == line_of(self.consumed()), r.1 == col_of(self.consumed())''',
      proof=PRE + ''' let ghost s = self.raw_data@; let ghost off = self.bytes_offset as int; let ghost mut d: Seq<char> = Seq::empty();
        proof { lemma_enc_zero(s); lemma_enc_zero(Seq::<char>::empty()); }''',
      loops=[Loop('for', '''
invariant_except_break
   vx_it.seq() == vx_q0, s == self.raw_data@, off == self.bytes_offset, self.wf(), is_char_boundary(encode_utf8(s), off), fits(s),
   forall|i: int| 0 <= i < vx_q0.len() ==> no_nl(#[trigger] vx_q0[i]@),
   vx_q0.len() >= 1,
   vx_it.index@ < vx_q0.len() ==> s == d + join_nl(vx_q0.skip(vx_it.index@ as int)) && col_of(d) == 1
     && remaining == off - encode_utf8(d).len() && line_no == line_of(d),
   vx_it.index@ < vx_q0.len(),
ensures line_no == line_of(consumed_of(s, off)), remaining + 1 == col_of(consumed_of(s, off)), off == self.bytes_offset, remaining <= off
''', it='vx_it', hoist=True, pre2='proof { assert(vx_q0.skip(0) =~= vx_q0); }',
        body='''proof { let p = vx_q0.skip(vx_it.index@ as int); assert(p[0] == vx_q0[vx_it.index@ as int]); assert(line == p[0]);
           assert(p.drop_first() =~= vx_q0.skip(vx_it.index@ as int + 1));
           lemma_line_step(s, d, p, off); lemma_enc_zero(s); lemma_line_bound(d); d = d + p[0]@ + seq!['\\n']; }''')])
    u.fn(F, 'StrStream', 'bytes_offset', spec='ensures r == self.bytes_offset')
    u.fn(F, 'StrStream', 'current_char', spec='''
requires self.wf()
ensures r == (if self.rest().len() == 0 { None } else { Some(self.rest()[0]) })''', proof=PRE)
    u.fn(F, 'StrStream', 'next', trait='Iterator', spec='''
requires old(self).wf()
ensures final(self).wf(), final(self).raw_data == old(self).raw_data,
  old(self).rest().len() == 0 ==> r.is_none() && *final(self) == *old(self),
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
    && final(self).consumed() == old(self).consumed() + seq![old(self).rest()[0]]
    && final(self).rest() == old(self).rest().skip(1) && final(self).pos() == old(self).pos() + 1''',
      proof=PRE2 + r'''
 proof { if self.wf() && self.rest().len() > 0 { let c = seq![self.rest()[0]]; lemma_advance(self.raw_data@, self.bytes_offset as int, c);
   assert(c.drop_first() =~= Seq::<char>::empty()); reveal_with_fuel(encode_utf8, 2); assert(encode_utf8(c) =~= encode_scalar(c[0] as u32)); lemma_enc_zero(c); } }''')
    SAME = 'requires self.wf(), other.wf(), self.text() == other.text()'
    POS = 'proof { if self.wf() && other.wf() { lemma_position_order(self.raw_data@, self.bytes_offset as int, other.bytes_offset as int); } }'
    u.fn(F, 'StrStream', 'eq', trait='PartialEq', spec=SAME + ' ensures r == (self.pos() == other.pos())', proof=POS)
    u.fn(F, 'StrStream', 'partial_cmp', trait='PartialOrd', spec=SAME + ' ensures r == Some(ordering(self.pos(), other.pos()))', proof=POS)
    u.fn(F, 'StrStream', 'cmp', trait='Ord', spec=SAME + ' ensures r == ordering(self.pos(), other.pos())', proof=POS)
    u.fn(F, 'StrStream', 'location', trait='Location', spec='''
requires self.wf()
ensures r@ == location_text(self.consumed())''')
    u.fn(F, 'StrStream', 'code_snippet', trait='CodeSnippet', spec='''
requires self.wf()
ensures
  self.rest().len() == 0 ==> r@ == "<end-of-file>"@,
  self.rest().len() > 0 ==> longest_prefix(self.rest(), len_hint as int, r@)''',
      proof=PRE + r'''
 proof { if self.wf() { lemma_snippet_zero(self.raw_data@, self.bytes_offset as int); } }''',
      loops=[Loop('while', '''
  invariant self.wf(), current_offset == self.bytes_offset, current_offset <= end_offset <= current_offset + len, current_offset + len <= total_len,
    total_len == encode_utf8(self.raw_data@).len(), len <= len_hint, len == len_hint || current_offset + len == total_len,
    forall|e: int| end_offset < e <= current_offset + len ==> !is_char_boundary(encode_utf8(self.raw_data@), e)
  decreases end_offset''', after='proof { lemma_snippet(self.raw_data@, current_offset as int, end_offset as int, (current_offset + len) as int, len_hint as int); }')])
    u.fn(F, 'StrStream', 'consume_prefix', trait='ConsumePrefix', spec='''
requires old(self).wf(), fits(prefix@)
ensures final(self).wf(), final(self).raw_data == old(self).raw_data,
  r == prefix@.is_prefix_of(old(self).rest()),
  !r ==> *final(self) == *old(self),
  r ==> final(self).consumed() == old(self).consumed() + prefix@ && final(self).rest() == old(self).rest().skip(prefix@.len() as int)
    && final(self).pos() == old(self).pos() + prefix@.len()''',
      proof=PRE2 + r'''
 proof { if self.wf() { lemma_prefix_bytes(self.raw_data@, self.bytes_offset as int, prefix@); } }''')
    u.fn(F, 'StrStream', 'has_next', trait='HasNext', spec='''
requires self.wf()
ensures r == (self.rest().len() > 0)''', proof=PRE)
    u.raw(SPAN)
    u.fn(FL, None, 'make_span', spec='ensures r.lo == lo as u32, r.hi == hi as u32')
    u.fn(F, 'Range', 'stream_span', trait='StreamSpan', rename='stream_span_str', free="vx_self: &Range<StrStream<'a>>", spec='''
requires vx_self.start.wf(), vx_self.end.wf(), vx_self.start.text() == vx_self.end.text(), encode_utf8(vx_self.start.text()).len() <= u32::MAX
ensures r.lo == encode_utf8(vx_self.start.consumed()).len(), r.hi == encode_utf8(vx_self.end.consumed()).len()''',
      proof='proof { stream_view(vx_self.start); stream_view(vx_self.end); }')
    u.text_sub.append((r"&'a String", "&'a VxText"))
    u.fn(F, 'str', 'stream', trait='Stream', rename='stream_of_str', free="vx_self: &'a str", spec='''
requires fits(vx_self@)
ensures r.raw_data == vx_self, r.wf(), r.pos() == 0, r.bytes_offset == 0''')
    u.fn(F, 'String', 'stream', trait='Stream', rename='stream_of_string', free="vx_self: &'a VxText", spec='''
requires fits(vx_self.view())
ensures r.raw_data@ == vx_self.view(), r.wf(), r.pos() == 0, r.bytes_offset == 0''', mcalls=dict(stream=h_stream))
    return u
