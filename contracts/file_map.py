"""Contracts of runtime/src/file_map_stream.rs. StrStream's functions appear with their contracts only (proved in unit str_stream)."""
from vx import *
import str_stream as ss
F = 'runtime/src/file_map_stream.rs'

STUB = r'''
use std::rc::Rc;
// syntex_pos::FileMap (assumed): a text, the position of its first byte, and the positions of its lines as registered
// so far. `next_line`/`count_lines` work on that list through interior mutability; here the list is passed explicitly.
pub struct FileMap { pub start_pos: BytePos, pub src: Option<Rc<VxText>> }
impl FileMap {
  pub open spec fn text(&self) -> Seq<char> { self.src.unwrap().view() }
}
pub open spec fn map_ok(m: &FileMap) -> bool { m.src.is_some() && fits(m.text()) && m.start_pos.0 + encode_utf8(m.text()).len() + 1 <= u32::MAX }
// FileMap::next_line panics when line starts do not increase
pub fn vx_next_line(lines: &mut Vec<BytePos>, pos: BytePos)
  requires old(lines)@.len() == 0 || old(lines)@.last().0 < pos.0
  ensures final(lines)@ == old(lines)@.push(pos)
{ lines.push(pos); }
pub fn vx_pos_add(a: BytePos, b: BytePos) -> (r: BytePos) requires a.0 + b.0 <= u32::MAX ensures r.0 == a.0 + b.0 { BytePos(a.0 + b.0) }
#[verifier::external_body]
pub fn vx_rc_text<'x>(r: &'x Rc<VxText>) -> (t: &'x VxText) ensures t.view() == r.view() { &**r }
impl<'a> FileMapStream<'a> {
  pub open spec fn wf(self) -> bool { self.str_stream.wf() && map_ok(&self.filemap) && self.str_stream.text() == self.filemap.text() }
  pub open spec fn pos(self) -> int { self.str_stream.pos() }
  pub open spec fn rest(self) -> Seq<char> { self.str_stream.rest() }
  pub open spec fn consumed(self) -> Seq<char> { self.str_stream.consumed() }
  pub open spec fn text(self) -> Seq<char> { self.str_stream.text() }
}

// ---- line starts, as a function of the text
pub open spec fn line_starts(c: Seq<char>, base: int) -> Seq<int> decreases c.len() {
  if c.len() == 0 { seq![base] } else {
    let t = line_starts(c.drop_last(), base);
    if c.last() == '\n' { t.push(base + encode_utf8(c).len()) } else { t }
  }
}
// a text that ends with a newline has no line after it
pub open spec fn registered(c: Seq<char>, base: int) -> Seq<int> {
  if c.len() == 0 || c.last() == '\n' { line_starts(c, base).drop_last() } else { line_starts(c, base) }
}
pub open spec fn ints(v: Seq<BytePos>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].0 as int) }
pub proof fn lemma_starts_append(d: Seq<char>, t: Seq<char>, base: int)
  requires no_nl(t)
  ensures line_starts(d + t, base) == line_starts(d, base)
  decreases t.len()
{
  if t.len() == 0 { assert(d + t =~= d); } else {
    let u = t.drop_last();
    assert((d + t).drop_last() =~= d + u);
    assert(no_nl(u)) by { if u.contains('\n') { let k = choose|k: int| 0 <= k < u.len() && u[k] == '\n'; assert(t[k] == '\n'); } }
    lemma_starts_append(d, u, base);
    assert(t.contains(t[t.len() - 1]));
    assert((d + t).last() == t.last());
  }
}
pub open spec fn at_line_start(d: Seq<char>) -> bool { d.len() == 0 || d.last() == '\n' }
pub proof fn lemma_col_pos(c: Seq<char>) ensures col_of(c) >= 1 decreases c.len() { if c.len() > 0 && c.last() != '\n' { lemma_col_pos(c.drop_last()); } }
pub proof fn lemma_starts_step(s: Seq<char>, d: Seq<char>, p: Seq<&str>, base: int)
  requires s == d + join_nl(p), p.len() >= 1, no_nl(p[0]@), at_line_start(d)
  ensures encode_utf8(d).len() + encode_utf8(p[0]@).len() <= encode_utf8(s).len(),
    line_starts(d, base).len() >= 1, line_starts(d, base) == line_starts(d, base).drop_last().push(base + encode_utf8(d).len()),
    line_starts(d + p[0]@, base) == line_starts(d, base),
    line_starts(d, base).len() > 1 ==> line_starts(d, base)[line_starts(d, base).len() - 2] < base + encode_utf8(d).len(),
    p.len() == 1 ==> s == d + p[0]@ && (p[0]@.len() > 0 ==> !at_line_start(s)) && encode_utf8(s).len() == encode_utf8(d).len() + encode_utf8(p[0]@).len(),
    p.len() > 1 ==> ({ let d2 = d + p[0]@ + seq!['\n'];
        at_line_start(d2) && s == d2 + join_nl(p.drop_first()) && line_starts(d2, base).drop_last() == line_starts(d, base)
        && encode_utf8(d2).len() == encode_utf8(d).len() + encode_utf8(p[0]@).len() + 1 })
{
  lemma_starts_append(d, p[0]@, base);
  if d.len() > 0 { lookup(d.drop_last(), base); lemma_line_col_append(d.drop_last(), Seq::empty()); encode_utf8_push(d.drop_last(), d.last()); assert(d =~= d.drop_last().push(d.last())); lemma_scalar_len(d.last()); lemma_col_pos(d.drop_last()); }
  encode_utf8_concat(d, p[0]@);
  lemma_enc_zero(Seq::<char>::empty());
  if d.len() == 0 { assert(d =~= Seq::<char>::empty()); }
  assert(line_starts(d, base) =~= line_starts(d, base).drop_last().push(base + encode_utf8(d).len()));
  let e = d + p[0]@;
  assert(s.take(e.len() as int) =~= e);
  lemma_enc_mono(s, e.len() as int, e.len() as int);
  if p.len() == 1 { assert(s == e); if p[0]@.len() > 0 { assert(s.last() == p[0]@.last()); assert(p[0]@.contains(p[0]@[p[0]@.len() - 1])); } } else {
    let d2 = e + seq!['\n'];
    assert(d2.drop_last() =~= e);
    lemma_line_col_nl(e);
    assert(s =~= d2 + join_nl(p.drop_first()));
    assert(line_starts(d2, base).drop_last() =~= line_starts(d, base));
  }
}
// What the registered lines are for: looking a position up in them gives the line and column that `location` reports.
pub proof fn lookup(c: Seq<char>, base: int)
  ensures line_starts(c, base).len() == line_of(c),
    line_starts(c, base).last() + (col_of(c) - 1) == base + encode_utf8(c).len()
  decreases c.len()
{
  if c.len() > 0 {
    lookup(c.drop_last(), base);
    assert(c =~= c.drop_last().push(c.last()));
    encode_utf8_push(c.drop_last(), c.last());
  } else { assert(c =~= Seq::<char>::empty()); lemma_enc_zero(c); }
}
pub proof fn lookup_prefix(s: Seq<char>, k: int, base: int)
  requires 0 <= k <= s.len()
  ensures line_starts(s.take(k), base).len() <= line_starts(s, base).len(),
    line_starts(s.take(k), base) == line_starts(s, base).take(line_starts(s.take(k), base).len() as int)
  decreases s.len() - k
{
  if k == s.len() { assert(s.take(k) =~= s); assert(line_starts(s, base).take(line_starts(s, base).len() as int) =~= line_starts(s, base)); } else {
    lookup_prefix(s, k + 1, base);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    let n = line_starts(s.take(k), base).len() as int;
    assert(line_starts(s.take(k), base) =~= line_starts(s, base).take(n));
  }
}
'''

def h_count(em, n):
    em.u.assumed.add('FileMap::count_lines is the number of lines registered')
    return 'vx_lines.len()'
def h_next_line(em, n):
    em.u.assumed.add('FileMap::next_line registers one more line start')
    return 'vx_next_line(vx_lines, %s)' % em.e(n.args[0])
def h_stream(em, n):
    x = n.x
    while x.kind == 'paren':
        x = x.x
    if x.kind == 'unary' or x.kind == 'deref':
        return 'stream_of_string(vx_rc_text(%s))' % em.src[x.s:x.e].lstrip('*').strip()
    if x.kind == 'path':
        return 'stream_of_string(vx_rc_text(%s))' % em.e(x)
    raise Unsupported('stream() of this value')
def h_register(em, n):
    return 'FileMapStream::register_lines(%s, vx_rc_text(%s), vx_lines)' % (em.e(n.args[0]), em.e(n.args[1]))
def h_new(em, n):
    return 'FileMapStream::new(%s, vx_lines)' % em.e(n.args[0])
def text_arg(h):
    def g(em, n):
        t = h(em, n)
        i = t.index('(')
        return '%s(%s.as_str())' % (t[:i], t[i + 1:-1])
    return g
def h_add(em, n):
    if n.op == '+' and n.r.kind == 'call' and n.r.f.kind == 'path' and n.r.f.text.split('::')[-1] == 'BytePos':
        return 'vx_pos_add(%s, %s)' % (em.e(n.l), em.e(n.r))

def unit():
    u = Unit('file_map')
    u.trust_all = True
    ss.contracts(u)
    u.trust_all = False
    u.no_use |= {'Rc', 'min', '*'}
    u.text_sub += [(r'&String', '&VxText')]
    u.struct(F, 'FileMapStream')
    u.raw(STUB)
    u.mcalls.update(count_lines=h_count, next_line=h_next_line, stream=h_stream,
                    split=text_arg(ss.h_split), split_terminator=text_arg(ss.h_split_term), lines=text_arg(ss.h_lines))
    u.calls.update({'FileMapStream::register_lines': h_register, 'Self::register_lines': h_register, 'FileMapStream::new': h_new})
    u.cmp_hook = h_add
    T = 'FileMapStream'
    LOG = 'vx_lines: &mut Vec<BytePos>'
    u.fn(F, T, 'register_lines', extra=LOG, spec='''
requires map_ok(filemap), src.view() == filemap.text()
ensures old(vx_lines)@.len() > 0 ==> final(vx_lines)@ == old(vx_lines)@,
  old(vx_lines)@.len() == 0 ==> ints(final(vx_lines)@) == registered(src.view(), filemap.start_pos.0 as int)''',
      proof='let ghost s = src.view(); let ghost base = filemap.start_pos.0 as int; let ghost mut d: Seq<char> = Seq::empty(); proof { lemma_enc_zero(d); }',
      loops=[Loop('for', '''
invariant
   vx_it.seq() == vx_q0, s == src.view(), fits(s), base + encode_utf8(s).len() + 1 <= u32::MAX, base == filemap.start_pos.0,
   join_nl(q) == s, q.len() >= 1, forall|i: int| 0 <= i < q.len() ==> no_nl(#[trigger] q[i]@),
   vx_q0 == (if q.last()@.len() == 0 { q.drop_last() } else { q }),
   vx_it.index@ < q.len() ==> s == d + join_nl(q.skip(vx_it.index@ as int)) && at_line_start(d)
     && byte_pos == base + encode_utf8(d).len() && ints(vx_lines@) =~= line_starts(d, base).drop_last(),
   vx_it.index@ == q.len() ==> ints(vx_lines@) =~= line_starts(s, base) && !at_line_start(s),
   0 <= vx_it.index@ <= q.len(),
''', it='vx_it', hoist=True, pre2='''let ghost q = choose|q: Seq<&str>| #[trigger] join_nl(q) == s && q.len() >= 1
    && (forall|i: int| 0 <= i < q.len() ==> no_nl(#[trigger] q[i]@))
    && vx_q0 == (if q.last()@.len() == 0 { q.drop_last() } else { q });
    proof { assert(q.skip(0) =~= q); assert(line_starts(d, base).drop_last() =~= Seq::<int>::empty()); assert(d + s =~= s); }''',
        body='''let ghost vx_l0 = vx_lines@; proof { let i = vx_it.index@ as int; let p = q.skip(i); assert(p[0] == q[i]); assert($var == p[0]);
           assert(p.drop_first() =~= q.skip(i + 1)); lemma_starts_step(s, d, p, base); lemma_enc_zero(s); lemma_enc_zero(q[i]@);
           if vx_lines@.len() > 0 { assert(ints(vx_lines@)[vx_lines@.len() - 1] == line_starts(d, base).drop_last()[vx_lines@.len() - 1]); } }''',
        tail='''proof { let i = vx_it.index@ as int; assert(ints(vx_lines@) =~= ints(vx_l0).push(base + encode_utf8(d).len())); d = d + q[i]@ + seq!['\\n']; }''',
        after='''proof { let n = q.len() as int; if q.last()@.len() == 0 { let p = q.skip(n - 1); assert(p[0] == q.last()); lemma_starts_step(s, d, p, base);  assert(s =~= d); } }''')])
    u.fn(F, T, 'new', extra=LOG, spec='''
requires map_ok(filemap)
ensures r.wf(), r.pos() == 0, r.filemap == *filemap,
  old(vx_lines)@.len() == 0 ==> ints(final(vx_lines)@) == registered(filemap.text(), filemap.start_pos.0 as int)''')
    u.fn(F, T, 'abs_pos', spec='requires self.wf() ensures r.0 == self.filemap.start_pos.0 + encode_utf8(self.consumed()).len()',
      proof='proof { stream_view(self.str_stream); }')
    fr = 'final(self).filemap == old(self).filemap'
    u.fn(F, T, 'next', trait='Iterator', spec='''
requires old(self).wf()
ensures final(self).wf(), final(self).filemap == old(self).filemap,
  old(self).rest().len() == 0 ==> r.is_none() && final(self).pos() == old(self).pos(),
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1) && final(self).pos() == old(self).pos() + 1''')
    SAME = 'requires self.wf(), other.wf(), self.text() == other.text()'
    u.fn(F, T, 'eq', trait='PartialEq', spec=SAME + ' ensures r == (self.pos() == other.pos())')
    u.fn(F, T, 'partial_cmp', trait='PartialOrd', spec=SAME + ' ensures r == Some(ordering(self.pos(), other.pos()))')
    u.fn(F, T, 'cmp', trait='Ord', spec=SAME + ' ensures r == ordering(self.pos(), other.pos())')
    u.fn(F, T, 'location', trait='Location', spec='requires self.wf() ensures r@ == location_text(self.consumed())')
    u.fn(F, T, 'code_snippet', trait='CodeSnippet', spec='''requires self.wf() ensures
  self.rest().len() == 0 ==> r@ == "<end-of-file>"@,
  self.rest().len() > 0 ==> longest_prefix(self.rest(), len_hint as int, r@)''')
    u.fn(F, T, 'consume_prefix', trait='ConsumePrefix', spec='''
requires old(self).wf(), fits(prefix@)
ensures final(self).wf(), final(self).filemap == old(self).filemap,
  r == prefix@.is_prefix_of(old(self).rest()), !r ==> final(self).pos() == old(self).pos(),
  r ==> final(self).rest() == old(self).rest().skip(prefix@.len() as int) && final(self).pos() == old(self).pos() + prefix@.len()''')
    u.fn(F, T, 'has_next', trait='HasNext', spec='requires self.wf() ensures r == (self.rest().len() > 0)')
    u.fn(F, 'Range', 'stream_span', trait='StreamSpan', rename='stream_span_map', free="vx_self: &Range<FileMapStream<'a>>", spec='''
requires vx_self.start.wf(), vx_self.end.wf(), vx_self.start.filemap == vx_self.end.filemap
ensures r.lo == vx_self.start.filemap.start_pos.0 + encode_utf8(vx_self.start.consumed()).len(),
  r.hi == vx_self.end.filemap.start_pos.0 + encode_utf8(vx_self.end.consumed()).len()''')
    return u
