// Facts about UTF-8 text, proved by the verifier on every run (spec functions of vstd::utf8).
// boundary of a suffix is a boundary of the whole
pub proof fn lemma_boundary_compose(b: Seq<u8>, i: int, j: int)
  requires valid_utf8(b), is_char_boundary(b, i), 0 <= i <= b.len(), 
    valid_utf8(b.subrange(i, b.len() as int)),
  ensures is_char_boundary(b.subrange(i, b.len() as int), j) == (j >= 0 && is_char_boundary(b, i + j)),
  decreases b.len()
{
  let s = b.subrange(i, b.len() as int);
  if i == 0 { assert(s =~= b); 
  } else {
    let n = length_of_first_scalar(b);
    let p = pop_first_scalar(b);
    assert(n > 0);
    assert(is_char_boundary(p, i - n));
    assert(i >= n) by { assert(i - n >= 0); }
    assert(p.subrange(i - n, p.len() as int) =~= s);
    lemma_boundary_compose(p, i - n, j);
  }
}
pub proof fn lemma_boundary_range(b: Seq<u8>, i: int)
  requires valid_utf8(b), is_char_boundary(b, i)
  ensures 0 <= i <= b.len()
{ }
pub proof fn lemma_encode_prefix(p: Seq<char>, s: Seq<char>)
  ensures encode_utf8(p).is_prefix_of(encode_utf8(s)) == p.is_prefix_of(s)
  decreases p.len()
{
  let a = encode_utf8(p); let b = encode_utf8(s);
  if p.is_prefix_of(s) {
    assert(s =~= p + s.skip(p.len() as int));
    encode_utf8_concat(p, s.skip(p.len() as int));
  }
  if a.is_prefix_of(b) && p.len() > 0 {
    encode_utf8_first_scalar(p);
    encode_utf8_concat(p.take(1), p.skip(1));
    assert(p =~= p.take(1) + p.skip(1));
    assert(a.len() > 0);
    if s.len() == 0 { assert(b.len() == 0); assert(false); }
    encode_utf8_first_scalar(s);
    assert(a[0] == b[0]);
    assert(a =~= b.take(a.len() as int));
    assert(p[0] == s[0]);
    let n = encode_scalar(p[0] as u32).len() as int;
    assert(a.skip(n) =~= encode_utf8(p.drop_first()));
    assert(b.skip(n) =~= encode_utf8(s.drop_first()));
    assert(a.skip(n).is_prefix_of(b.skip(n)));
    lemma_encode_prefix(p.drop_first(), s.drop_first());
    assert(p =~= seq![p[0]] + p.drop_first());
    assert(s =~= seq![s[0]] + s.drop_first());
    assert(p.is_prefix_of(s));
  }
}

pub proof fn lemma_split_valid(b: Seq<u8>, i: int)
  requires valid_utf8(b), is_char_boundary(b, i),
  ensures 0 <= i <= b.len(), valid_utf8(b.subrange(0, i)), valid_utf8(b.subrange(i, b.len() as int)),
  decreases b.len()
{
  if i == 0 {
    assert(b.subrange(0, 0) =~= Seq::<u8>::empty());
    assert(b.subrange(0, b.len() as int) =~= b);
  } else {
    let n = length_of_first_scalar(b);
    let p = pop_first_scalar(b);
    lemma_split_valid(p, i - n);
    assert(p.subrange(i - n, p.len() as int) =~= b.subrange(i, b.len() as int));
    let q = b.subrange(0, i);
    assert(valid_first_scalar(q));
    assert(pop_first_scalar(q) =~= p.subrange(0, i - n));
  }
}
pub proof fn lemma_split(s: Seq<char>, i: int)
  requires is_char_boundary(encode_utf8(s), i),
  ensures ({ let b = encode_utf8(s); let p = b.subrange(0, i); let q = b.subrange(i, b.len() as int);
   valid_utf8(b) && valid_utf8(p) && valid_utf8(q) && s == decode_utf8(p) + decode_utf8(q) 
    && encode_utf8(decode_utf8(p)) == p && encode_utf8(decode_utf8(q)) == q && 0 <= i <= b.len() })
{
  let b = encode_utf8(s);
  encode_utf8_valid_utf8(s);
  lemma_split_valid(b, i);
  decode_utf8_split(b, i);
  encode_utf8_decode_utf8(s);
  decode_utf8_encode_utf8(b.subrange(0,i));
  decode_utf8_encode_utf8(b.subrange(i, b.len() as int));
}
// the offset after a whole-character prefix `c` of the rest is a boundary, and splits there
pub proof fn lemma_advance(s: Seq<char>, i: int, c: Seq<char>)
  requires is_char_boundary(encode_utf8(s), i), ({ let b = encode_utf8(s);
     c.is_prefix_of(decode_utf8(b.subrange(i, b.len() as int))) })
  ensures ({ let b = encode_utf8(s); let j = i + encode_utf8(c).len();
    let rest = decode_utf8(b.subrange(i, b.len() as int));
    &&& 0 <= i <= j <= b.len() && is_char_boundary(b, j)
    &&& valid_utf8(b) && valid_utf8(b.subrange(0, j)) && valid_utf8(b.subrange(j, b.len() as int))
    &&& decode_utf8(b.subrange(j, b.len() as int)) == rest.skip(c.len() as int)
    &&& decode_utf8(b.subrange(0, j)) == decode_utf8(b.subrange(0, i)) + c })
{
  let b = encode_utf8(s);
  lemma_split(s, i);
  let q = b.subrange(i, b.len() as int);
  let rest = decode_utf8(q);
  let tl = rest.skip(c.len() as int);
  assert(rest =~= c + tl);
  encode_utf8_concat(c, tl);
  let n = encode_utf8(c).len() as int;
  let j = i + n;
  lemma_encoded_boundary(c, tl);
  assert(q == encode_utf8(rest));
  lemma_boundary_compose(b, i, n);
  lemma_split(s, j);
  assert(q == encode_utf8(c) + encode_utf8(tl));
  assert(q.subrange(n, q.len() as int) =~= encode_utf8(tl));
  assert(q.subrange(0, n) =~= encode_utf8(c));
  assert(b.subrange(j, b.len() as int) =~= q.subrange(n, q.len() as int));
  assert(b.subrange(i, j) =~= q.subrange(0, n));
  encode_utf8_decode_utf8(tl);
  let cons = decode_utf8(b.subrange(0, i));
  encode_utf8_concat(cons, c);
  assert(b.subrange(0, j) =~= b.subrange(0, i) + b.subrange(i, j));
  encode_utf8_decode_utf8(cons + c);
}
pub proof fn lemma_encoded_boundary(c: Seq<char>, t: Seq<char>)
  ensures valid_utf8(encode_utf8(c + t)), is_char_boundary(encode_utf8(c + t), encode_utf8(c).len() as int)
  decreases c.len()
{
  encode_utf8_valid_utf8(c + t);
  if c.len() > 0 {
    encode_utf8_first_scalar(c + t);
    assert((c + t).drop_first() =~= c.drop_first() + t);
    lemma_encoded_boundary(c.drop_first(), t);
    let b = encode_utf8(c + t);
    assert(pop_first_scalar(b) =~= encode_utf8((c + t).drop_first()));
    assert(c =~= seq![c[0]] + c.drop_first());
  }
}

// ---- positions: the number of characters consumed is strictly monotone in the byte offset
pub open spec fn consumed_of(s: Seq<char>, i: int) -> Seq<char> { decode_utf8(encode_utf8(s).subrange(0, i)) }
pub open spec fn rest_of(s: Seq<char>, i: int) -> Seq<char> {
  decode_utf8(encode_utf8(s).subrange(i, encode_utf8(s).len() as int))
}
pub proof fn lemma_scalar_len(c: char)
  ensures 1 <= encode_scalar(c as u32).len() <= 4
{
  let s = seq![c];
  encode_utf8_valid_utf8(s);
  encode_utf8_first_scalar(s);
  assert(s.drop_first() =~= Seq::<char>::empty());
  reveal_with_fuel(encode_utf8, 2);
  assert(encode_utf8(s) =~= encode_scalar(c as u32));
}
pub proof fn lemma_enc_zero(s: Seq<char>)
  ensures encode_utf8(s).len() == 0 <==> s.len() == 0, encode_utf8(s).len() >= s.len()
  decreases s.len()
{
  if s.len() > 0 { lemma_scalar_len(s[0]); lemma_enc_zero(s.drop_first()); }
}
pub proof fn lemma_enc_mono(s: Seq<char>, a: int, b: int)
  requires 0 <= a <= b <= s.len()
  ensures encode_utf8(s.take(a)).len() + encode_utf8(s.subrange(a, b)).len() == encode_utf8(s.take(b)).len(),
    encode_utf8(s.take(b)).len() <= encode_utf8(s).len(),
    a < b ==> encode_utf8(s.take(a)).len() < encode_utf8(s.take(b)).len(),
    a == b ==> encode_utf8(s.take(a)).len() == encode_utf8(s.take(b)).len(),
{
  encode_utf8_concat(s.take(a), s.subrange(a, b));
  assert(s.take(a) + s.subrange(a, b) =~= s.take(b));
  lemma_enc_zero(s.subrange(a, b));
  encode_utf8_concat(s.take(b), s.skip(b));
  assert(s.take(b) + s.skip(b) =~= s);
}
// consumed and rest partition the text; the offset is the encoded length of what was consumed
pub proof fn lemma_position(s: Seq<char>, i: int)
  requires is_char_boundary(encode_utf8(s), i)
  ensures
    s == consumed_of(s, i) + rest_of(s, i),
    consumed_of(s, i).len() <= s.len(),
    consumed_of(s, i) == s.take(consumed_of(s, i).len() as int),
    rest_of(s, i) == s.skip(consumed_of(s, i).len() as int),
    encode_utf8(consumed_of(s, i)).len() == i,
    encode_utf8(rest_of(s, i)).len() == encode_utf8(s).len() - i,
    encode_utf8(s).subrange(i, encode_utf8(s).len() as int) == encode_utf8(rest_of(s, i)),
    (rest_of(s, i).len() == 0) == (i == encode_utf8(s).len()),
    0 <= i <= encode_utf8(s).len(),
{
  lemma_split(s, i);
  lemma_enc_zero(rest_of(s, i));
  assert(s.take(consumed_of(s, i).len() as int) =~= consumed_of(s, i));
  assert(s.skip(consumed_of(s, i).len() as int) =~= rest_of(s, i));
}
pub proof fn lemma_position_order(s: Seq<char>, i: int, j: int)
  requires is_char_boundary(encode_utf8(s), i), is_char_boundary(encode_utf8(s), j)
  ensures (i < j) == (consumed_of(s, i).len() < consumed_of(s, j).len()),
    (i == j) == (consumed_of(s, i).len() == consumed_of(s, j).len()),
{
  lemma_position(s, i); lemma_position(s, j);
  let a = consumed_of(s, i).len() as int; let b = consumed_of(s, j).len() as int;
  if a <= b { lemma_enc_mono(s, a, b); } else { lemma_enc_mono(s, b, a); }
}
