"""Contracts of src/liboak/front/{parser,ast}.rs: grammar text (as syn's tokens) to expressions (C11), classes (C10)."""
from vx import *
import astlib, ityping
P = 'src/liboak/front/parser.rs'
A = 'src/liboak/front/ast.rs'

SYN = r'''
// ---- syn (assumed): a buffer of tokens with a cursor. What a Rust path, type, item or attribute is, and how many tokens
// it takes, is syn's (`read`, uninterpreted); that tokens left over in a group are refused, too.
#[verifier::external_body] pub struct SynAttribute { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynExprPath { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct LitStr { x: std::marker::PhantomData<u8> }
impl LitStr { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[derive(Debug)] #[verifier::external_body] pub struct VxErr { x: std::marker::PhantomData<u8> }
impl VxErr {
  #[verifier::external_body] pub fn new() -> (r: VxErr) { unimplemented!() }
  #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
  #[verifier::external_body] pub fn combine(&mut self, o: VxErr) { unimplemented!() }
}
pub type Result<T> = std::result::Result<T, VxErr>;
impl Span { #[verifier::external_body] pub fn join(&self, o: Span) -> (r: Option<Span>) ensures r is Some { unimplemented!() } }
pub ghost enum Tok { Word(Ident), Punct(char, bool), Str(LitStr), Group(char, Seq<Tok>), Other(int) }
#[verifier::opaque] pub open spec fn size(s: Seq<Tok>) -> nat decreases s { if s.len() == 0 { 0 } else { 1 + inner_size(s[0]) + size(s.skip(1)) } }
pub open spec fn inner_size(t: Tok) -> nat decreases t { match t { Tok::Group(_, i) => size(i), _ => 0 } }
pub proof fn lemma_size(s: Seq<Tok>, n: int) requires 0 < n <= s.len() ensures size(s.skip(n)) < size(s) decreases n
{ reveal(size); if n > 1 { lemma_size(s.skip(1), n - 1); assert(s.skip(1).skip(n - 1) =~= s.skip(n)); } }
// the next tokens are the characters of p, the ones before the last with nothing in between
pub open spec fn punct(s: Seq<Tok>, p: Seq<char>) -> bool { s.len() >= p.len() && forall|k: int| 0 <= k < p.len() ==> is_punct(#[trigger] s[k], p[k], k + 1 < p.len()) }
pub open spec fn is_punct(t: Tok, c: char, joint: bool) -> bool { match t { Tok::Punct(d, j) => d == c && (joint ==> j), _ => false } }
pub open spec fn word(s: Seq<Tok>, p: Seq<char>) -> bool { s.len() > 0 && (s[0] matches Tok::Word(w) && w@ == p) }
// the word at the start is an identifier (not a keyword)
pub open spec fn is_ident(s: Seq<Tok>) -> bool { s.len() > 0 && (s[0] matches Tok::Word(w) && plain(w@)) }
pub uninterp spec fn plain(w: Seq<char>) -> bool;
pub open spec fn is_str(s: Seq<Tok>) -> bool { s.len() > 0 && s[0] is Str }
pub open spec fn is_group(s: Seq<Tok>, c: char) -> bool { s.len() > 0 && (s[0] matches Tok::Group(d, _) && d == c) }
pub open spec fn inside(s: Seq<Tok>) -> Seq<Tok> { match s[0] { Tok::Group(_, i) => i, _ => Seq::empty() } }
pub trait VxParse: Sized {
  // what stands at the start of the tokens, and how many of them it is
  spec fn read(s: Seq<Tok>) -> Option<(Self, nat)>;
  // whether the cursor stays where it is when it does not
  spec fn stays() -> bool;
  proof fn reads(s: Seq<Tok>) ensures Self::read(s) matches Some((v, n)) ==> 0 < n <= s.len();
}
pub trait VxPeek { spec fn at(s: Seq<Tok>) -> bool; }
$TOKENS
pub struct VxIdent; impl VxPeek for VxIdent { open spec fn at(s: Seq<Tok>) -> bool { is_ident(s) } }
pub struct VxLitStr; impl VxPeek for VxLitStr { open spec fn at(s: Seq<Tok>) -> bool { is_str(s) } }
impl VxParse for Ident { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { if is_ident(s) { Some((s[0]->Word_0, 1)) } else { None } } open spec fn stays() -> bool { true } proof fn reads(s: Seq<Tok>) {} }
impl VxParse for LitStr { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { if is_str(s) { Some((s[0]->Str_0, 1)) } else { None } } open spec fn stays() -> bool { true } proof fn reads(s: Seq<Tok>) {} }
pub uninterp spec fn read_path(s: Seq<Tok>) -> Option<(SynPath, nat)>;
pub uninterp spec fn read_expr_path(s: Seq<Tok>) -> Option<(SynExprPath, nat)>;
pub uninterp spec fn read_type(s: Seq<Tok>) -> Option<(SynType, nat)>;
pub uninterp spec fn read_item(s: Seq<Tok>) -> Option<(SynItem, nat)>;
pub uninterp spec fn read_attrs(s: Seq<Tok>) -> Option<(Vec<SynAttribute>, nat)>;
#[verifier::external_body] pub proof fn axiom_reads() ensures
  forall|s: Seq<Tok>| #![trigger read_path(s)] read_path(s) matches Some((v, n)) ==> 0 < n <= s.len(),
  forall|s: Seq<Tok>| #![trigger read_expr_path(s)] read_expr_path(s) matches Some((v, n)) ==> 0 < n <= s.len(),
  forall|s: Seq<Tok>| #![trigger read_type(s)] read_type(s) matches Some((v, n)) ==> 0 < n <= s.len(),
  forall|s: Seq<Tok>| #![trigger read_item(s)] read_item(s) matches Some((v, n)) ==> 0 < n <= s.len(),
  forall|s: Seq<Tok>| #![trigger read_attrs(s)] read_attrs(s) matches Some((v, n)) ==> n <= s.len() {}
impl VxParse for SynPath { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { read_path(s) } open spec fn stays() -> bool { false } proof fn reads(s: Seq<Tok>) { axiom_reads(); } }
impl VxParse for SynExprPath { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { read_expr_path(s) } open spec fn stays() -> bool { false } proof fn reads(s: Seq<Tok>) { axiom_reads(); } }
impl VxParse for SynType { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { read_type(s) } open spec fn stays() -> bool { false } proof fn reads(s: Seq<Tok>) { axiom_reads(); } }
impl VxParse for SynItem { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { read_item(s) } open spec fn stays() -> bool { false } proof fn reads(s: Seq<Tok>) { axiom_reads(); } }
#[verifier::external_body] pub struct Ps { x: std::marker::PhantomData<u8> }
impl Ps {
  pub uninterp spec fn view(&self) -> Seq<Tok>;
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
  #[verifier::external_body] pub fn fork(&self) -> (r: Ps) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn peek<T: VxPeek>(&self, t: T) -> (r: bool) ensures r == T::at(self@) { unimplemented!() }
  #[verifier::external_body] pub fn peek2<T: VxPeek>(&self, t: T) -> (r: bool) ensures r == (self@.len() > 0 && T::at(self@.skip(1))) { unimplemented!() }
  #[verifier::external_body] fn parse_raw<T: VxParse>(&mut self) -> (r: Result<T>) ensures match T::read(old(self)@) { Some((v, n)) => r == Ok::<T, VxErr>(v) && final(self)@ == old(self)@.skip(n as int), None => r is Err && (T::stays() ==> final(self)@ == old(self)@) } { unimplemented!() }
  pub fn parse<T: VxParse>(&mut self) -> (r: Result<T>) ensures match T::read(old(self)@) { Some((v, n)) => r == Ok::<T, VxErr>(v) && final(self)@ == old(self)@.skip(n as int) && 0 < n <= old(self)@.len() && size(final(self)@) < size(old(self)@), None => r is Err && (T::stays() ==> final(self)@ == old(self)@) }
  { proof { T::reads(self@); if T::read(self@) is Some { lemma_size(self@, T::read(self@).unwrap().1 as int); } } self.parse_raw() }
  #[verifier::external_body] fn group_raw(&mut self, Ghost(c): Ghost<char>) -> (r: Result<Ps>) ensures if is_group(old(self)@, c) { r is Ok && r->Ok_0@ == inside(old(self)@) && final(self)@ == old(self)@.skip(1) } else { r is Err && final(self)@ == old(self)@ } { unimplemented!() }
  pub fn vx_group(&mut self, Ghost(c): Ghost<char>) -> (r: Result<Ps>) ensures if is_group(old(self)@, c) { r is Ok && r->Ok_0@ == inside(old(self)@) && final(self)@ == old(self)@.skip(1) && size(final(self)@) < size(old(self)@) && size(r->Ok_0@) < size(old(self)@) } else { r is Err && final(self)@ == old(self)@ }
  { proof { if is_group(self@, c) { lemma_size(self@, 1); reveal(size); assert(inner_size(self@[0]) == size(inside(self@))); } } self.group_raw(Ghost(c)) }
  #[verifier::external_body] fn attributes_raw(&mut self) -> (r: Result<Vec<SynAttribute>>) ensures match read_attrs(old(self)@) { Some((v, n)) => r == Ok::<Vec<SynAttribute>, VxErr>(v) && final(self)@ == old(self)@.skip(n as int), None => r is Err } { unimplemented!() }
  pub fn vx_attributes(&mut self) -> (r: Result<Vec<SynAttribute>>) ensures match read_attrs(old(self)@) { Some((v, n)) => r == Ok::<Vec<SynAttribute>, VxErr>(v) && final(self)@ == old(self)@.skip(n as int) && n <= old(self)@.len() && size(final(self)@) <= size(old(self)@), None => r is Err }
  { proof { axiom_reads(); if read_attrs(self@) is Some { let n = read_attrs(self@).unwrap().1; if n > 0 { lemma_size(self@, n as int); } else { assert(self@.skip(0) =~= self@); } } } self.attributes_raw() }
}
pub uninterp spec fn path_expr(p: SynExprPath) -> SynExpr;
#[verifier::external_body] pub fn vx_path_expr(p: SynExprPath) -> (r: SynExpr) ensures r == path_expr(p) { unimplemented!() }
#[verifier::external_body] pub fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
// the characters of a text, one after the other (std::str::Chars behind Peekable)
#[verifier::external_body] pub struct VxChars { x: std::marker::PhantomData<u8> }
impl VxChars {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
  #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<char>) ensures final(self)@ == old(self)@, r == (if old(self)@.len() > 0 { Some(old(self)@[0]) } else { None }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_chars(s: &String) -> (r: VxChars) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend_from(a: &mut Vec<CharacterInterval>, b: &[CharacterInterval]) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
'''

NOTATION = r'''
// ---- the notation of grammars
pub ghost enum Tree { Str(Seq<char>), Any, Class(Seq<(char, char)>), Call(SynPath), Seq(Seq<Tree>), Choice(Seq<Tree>), Star(Box<Tree>), Plus(Box<Tree>), Opt(Box<Tree>), Not(Box<Tree>), And(Box<Tree>),
  Action(Box<Tree>, bool, SynExprPath), Typed(Box<Tree>, As), Span(Box<Tree>), Range(Box<Tree>) }
pub ghost enum As { Unit, Invisible, Rust(SynType) }
// a class: single characters and ranges `a-b`; `-` stands for itself at the start and at the end
pub open spec fn class(t: Seq<char>) -> Option<Seq<(char, char)>> {
  if t.len() == 0 { None } else if t[0] == '-' { prepend(('-', '-'), members(t.skip(1))) } else { members(t) }
}
pub open spec fn prepend<T>(x: T, r: Option<Seq<T>>) -> Option<Seq<T>> { match r { Some(s) => Some(seq![x] + s), None => None } }
#[verifier::opaque] pub open spec fn members(t: Seq<char>) -> Option<Seq<(char, char)>> decreases t.len() {
  if t.len() == 0 { Some(Seq::empty()) }
  else if t[0] == '-' { if t.len() == 1 { Some(seq![('-', '-')]) } else { None } }
  else if t.len() >= 2 && t[1] == '-' {
    if t.len() == 2 { Some(seq![(t[0], t[0]), ('-', '-')]) }
    else if t[2] == '-' { None }
    else { prepend((t[0], t[2]), members(t.skip(3))) }
  }
  else { prepend((t[0], t[0]), members(t.skip(1))) }
}
// `:` and a type; nothing when there is no `:`
#[verifier::opaque] pub open spec fn p_type(s: Seq<Tok>) -> Option<(Option<As>, Seq<Tok>)> {
  if !punct(s, seq![':']) { Some((None, s)) }
  else {
    let r = s.skip(1);
    if is_group(r, '(') && inside(r).len() == 0 { Some((Some(As::Unit), r.skip(1))) }
    else if is_group(r, '(') && punct(inside(r), seq!['^']) { Some((Some(As::Invisible), r.skip(1))) }
    else { match read_type(r) { Some((t, n)) => Some((Some(As::Rust(t)), r.skip(n as int))), None => None } }
  }
}
// the start of a rule: `name =` or `name: type =`
#[verifier::opaque] pub open spec fn is_rule(s: Seq<Tok>) -> bool { is_ident(s) && (punct(s.skip(1), seq!['=']) || (p_type(s.skip(1)) matches Some((_, r)) && punct(r, seq!['=']))) }
// `"text"`, `.`, `(e)`, a name, a class; nothing when the expression ends here
#[verifier::opaque] pub open spec fn p_atom(s: Seq<Tok>) -> Option<(Option<Tree>, Seq<Tok>)> decreases size(s), 1int {
  if is_str(s) { Some((Some(Tree::Str(s[0]->Str_0@)), s.skip(1))) }
  else if punct(s, seq!['.', '.']) { None }
  else if punct(s, seq!['.']) { Some((Some(Tree::Any), s.skip(1))) }
  else if is_group(s, '(') {
    if inside(s).len() == 0 || size(inside(s)) >= size(s) { None } else { match p_choice(inside(s)) { Some((t, _)) => Some((Some(t), s.skip(1))), None => None } }
  }
  else if read_path(s) is Some {
    if is_rule(s) { Some((None, s)) } else { let (p, n) = read_path(s).unwrap(); Some((Some(Tree::Call(p)), s.skip(n as int))) }
  }
  else if is_group(s, '[') { let i = inside(s); if !is_str(i) { None } else { match class(i[0]->Str_0@) { Some(c) => Some((Some(Tree::Class(c)), s.skip(1))), None => None } } }
  else { Some((None, s)) }
}
// `e*`, `e+`, `e?`
#[verifier::opaque] pub open spec fn p_suffix(s: Seq<Tok>) -> Option<(Option<Tree>, Seq<Tok>)> decreases size(s), 2int {
  match p_atom(s) {
    Some((Some(t), r)) =>
      if punct(r, seq!['*']) { Some((Some(Tree::Star(Box::new(t))), r.skip(1))) }
      else if punct(r, seq!['+']) { Some((Some(Tree::Plus(Box::new(t))), r.skip(1))) }
      else if punct(r, seq!['?']) { Some((Some(Tree::Opt(Box::new(t))), r.skip(1))) }
      else { Some((Some(t), r)) },
    x => x,
  }
}
// `!e`, `&e`
#[verifier::opaque] pub open spec fn p_prefix(s: Seq<Tok>) -> Option<(Option<Tree>, Seq<Tok>)> decreases size(s), 3int {
  if punct(s, seq!['!']) || punct(s, seq!['&']) {
    if size(s.skip(1)) >= size(s) { None } else { match p_suffix(s.skip(1)) {
      Some((Some(t), r)) => Some((Some(if punct(s, seq!['!']) { Tree::Not(Box::new(t)) } else { Tree::And(Box::new(t)) }), r)),
      _ => None,
    } }
  }
  else { p_suffix(s) }
}
// `e: type`
#[verifier::opaque] pub open spec fn p_typed(s: Seq<Tok>) -> Option<(Option<Tree>, Seq<Tok>)> decreases size(s), 4int {
  match p_prefix(s) {
    Some((t, r)) => match p_type(r) {
      Some((None, q)) => Some((t, q)),
      Some((Some(ty), q)) => match t { Some(t) => Some((Some(Tree::Typed(Box::new(t), ty)), q)), None => None },
      None => None,
    },
    None => None,
  }
}
// one after the other, as many as there are
#[verifier::opaque] pub open spec fn p_items(s: Seq<Tok>) -> Option<(Seq<Tree>, Seq<Tok>)> decreases size(s), 5int {
  match p_typed(s) {
    Some((Some(t), r)) => if size(r) < size(s) { more(seq![t], p_items(r)) } else { None },
    Some((None, r)) => Some((Seq::empty(), r)),
    None => None,
  }
}
pub open spec fn more(a: Seq<Tree>, r: Option<(Seq<Tree>, Seq<Tok>)>) -> Option<(Seq<Tree>, Seq<Tok>)> { match r { Some((b, q)) => Some((a + b, q)), None => None } }
#[verifier::opaque] pub open spec fn p_seq(s: Seq<Tok>) -> Option<(Tree, Seq<Tok>)> decreases size(s), 6int {
  match p_items(s) { Some((ts, r)) => if ts.len() == 0 { None } else if ts.len() == 1 { Some((ts[0], r)) } else { Some((Tree::Seq(ts), r)) }, None => None }
}
// `.. e`, `... e` (whose value is not needed)
#[verifier::opaque] pub open spec fn p_span(s: Seq<Tok>) -> Option<(Tree, Seq<Tok>)> decreases size(s), 7int {
  if punct(s, seq!['.', '.', '.']) { if size(s.skip(3)) >= size(s) { None } else { match p_seq(s.skip(3)) { Some((t, r)) => Some((Tree::Range(Box::new(Tree::Typed(Box::new(t), As::Unit))), r)), None => None } } }
  else if punct(s, seq!['.', '.']) { if size(s.skip(2)) >= size(s) { None } else { match p_seq(s.skip(2)) { Some((t, r)) => Some((Tree::Span(Box::new(t)), r)), None => None } } }
  else { p_seq(s) }
}
// `e > f`, `e > box f`
#[verifier::opaque] pub open spec fn p_action(s: Seq<Tok>) -> Option<(Tree, Seq<Tok>)> decreases size(s), 8int {
  match p_span(s) { Some((t, r)) => with_action(t, r), None => None }
}
#[verifier::opaque] pub open spec fn with_action(t: Tree, r: Seq<Tok>) -> Option<(Tree, Seq<Tok>)> {
  if punct(r, seq!['>']) {
    let q = r.skip(1); let boxed = word(q, seq!['b', 'o', 'x']); let q = if boxed { q.skip(1) } else { q };
    match read_expr_path(q) { Some((p, n)) => Some((Tree::Action(Box::new(t), boxed, p), q.skip(n as int))), None => None }
  } else { Some((t, r)) }
}
// `e / e / ..`
#[verifier::opaque] pub open spec fn p_alts(s: Seq<Tok>) -> Option<(Seq<Tree>, Seq<Tok>)> decreases size(s), 9int {
  match p_action(s) {
    Some((t, r)) => if punct(r, seq!['/']) { if size(r.skip(1)) < size(s) { more(seq![t], p_alts(r.skip(1))) } else { None } } else { Some((seq![t], r)) },
    None => None,
  }
}
#[verifier::opaque] pub open spec fn p_choice(s: Seq<Tok>) -> Option<(Tree, Seq<Tok>)> decreases size(s), 10int {
  match p_alts(s) { Some((ts, r)) => if ts.len() == 1 { Some((ts[0], r)) } else { Some((Tree::Choice(ts), r)) }, None => None }
}
// `name = e`, `name: type = e`
#[verifier::opaque] pub open spec fn p_rule(s: Seq<Tok>) -> Option<((Ident, Tree), Seq<Tok>)> {
  if !is_ident(s) { None } else { match p_type(s.skip(1)) {
    Some((ty, r)) => if !punct(r, seq!['=']) { None } else { match p_choice(r.skip(1)) {
      Some((t, q)) => Some(((s[0]->Word_0, match ty { Some(ty) => Tree::Typed(Box::new(t), ty), None => t }), q)),
      None => None } },
    None => None } }
}
#[verifier::opaque] pub open spec fn p_grammar(s: Seq<Tok>) -> Option<Seq<(Ident, Tree)>> decreases size(s) {
  if s.len() == 0 { Some(Seq::empty()) } else {
    match read_attrs(s) {
      None => None,
      Some((_, n)) => { let s1 = s.skip(n as int);
        if is_rule(s1) { match p_rule(s1) { Some((x, r)) => if size(r) < size(s) { prepend(x, p_grammar(r)) } else { None }, None => None } }
        else { match read_item(s1) { Some((_, m)) => { let r = s1.skip(m as int); if size(r) < size(s) { p_grammar(r) } else { None } }, None => None } } }
    }
  }
}
pub open spec fn class_at(s: Seq<Tok>) -> Option<Seq<(char, char)>> { if is_str(s) { class(s[0]->Str_0@) } else { None } }
pub open spec fn add<T>(a: Seq<T>, r: Option<Seq<T>>) -> Option<Seq<T>> { match r { Some(s) => Some(a + s), None => None } }
pub open spec fn itype_is(t: IType, a: Option<As>) -> bool { match a { None => t is Infer, Some(a) => type_is(t, a) } }
pub open spec fn got(p: Option<(Tree, Seq<Tok>)>, r: Result<usize>, es: Seq<Expression>, q: Seq<Tok>) -> bool { match p { Some((t, s)) => r is Ok && r->Ok_0 < es.len() && stands(es, r->Ok_0 as int, t) && q == s, None => r is Err } }
pub open spec fn gotten(p: Option<(Option<Tree>, Seq<Tok>)>, r: Result<Option<usize>>, es: Seq<Expression>, q: Seq<Tok>) -> bool {
  match p { Some((Some(t), s)) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0 < es.len() && stands(es, r->Ok_0->Some_0 as int, t) && q == s, Some((None, s)) => r is Ok && r->Ok_0 is None && q == s, None => r is Err }
}
pub proof fn lemma_more(d: Seq<Tree>, t: Tree, r: Option<(Seq<Tree>, Seq<Tok>)>) ensures more(d, more(seq![t], r)) == more(d.push(t), r), r matches Some((b, q)) ==> (b.len() == 0 ==> more(d.push(t), r) == Some((d.push(t), q)) && more(seq![t], r) == Some((seq![t], q)))
{ if r is Some { assert(d + (seq![t] + r.unwrap().0) =~= d.push(t) + r.unwrap().0); if r.unwrap().0.len() == 0 { assert(d.push(t) + r.unwrap().0 =~= d.push(t)); assert(seq![t] + r.unwrap().0 =~= seq![t]); } } }
pub proof fn lemma_add<T>(d: Seq<T>, t: T, r: Option<Seq<T>>) ensures add(d, prepend(t, r)) == add(d.push(t), r) { if r is Some { assert(d + (seq![t] + r.unwrap()) =~= d.push(t) + r.unwrap()); } }
pub proof fn lemma_add_add<T>(a: Seq<T>, b: Seq<T>, r: Option<Seq<T>>) ensures add(a, add(b, r)) == add(a + b, r) { if r is Some { assert(a + (b + r.unwrap()) =~= (a + b) + r.unwrap()); } }
pub proof fn lemma_pairs_add(a: Seq<CharacterInterval>, b: Seq<CharacterInterval>) ensures pairs(a + b) == pairs(a) + pairs(b) { assert(pairs(a + b) =~= pairs(a) + pairs(b)); }
pub proof fn lemma_members(t: Seq<char>) ensures
    forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 0 ==> pairs(v) == Seq::<(char, char)>::empty(),
    forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 1 ==> pairs(v) == seq![pair(v[0])],
    forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 2 ==> pairs(v) == seq![pair(v[0]), pair(v[1])],
    forall|v: Seq<(char, char)>| #![trigger add(v, members(t.skip(1)))] v.len() == 1 ==> add(v, members(t.skip(1))) == prepend(v[0], members(t.skip(1))),
    t.len() >= 3 ==> t.skip(1).skip(1).skip(1) == t.skip(3), t.len() == 2 ==> t.skip(1).skip(1).len() == 0,
    forall|v: Seq<(char, char)>, q: Seq<char>| #![trigger add(v, members(q))] q.len() == 0 ==> add(v, members(q)) == Some(v)
{
  assert forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 0 implies pairs(v) == Seq::<(char, char)>::empty() by { assert(pairs(v) =~= Seq::<(char, char)>::empty()); }
  assert forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 1 implies pairs(v) == seq![pair(v[0])] by { assert(pairs(v) =~= seq![pair(v[0])]); }
  assert forall|v: Seq<CharacterInterval>| #![trigger pairs(v)] v.len() == 2 implies pairs(v) == seq![pair(v[0]), pair(v[1])] by { assert(pairs(v) =~= seq![pair(v[0]), pair(v[1])]); }
  assert forall|v: Seq<(char, char)>| #![trigger add(v, members(t.skip(1)))] v.len() == 1 implies add(v, members(t.skip(1))) == prepend(v[0], members(t.skip(1))) by { assert(v =~= seq![v[0]]); }
  reveal(members);
  assert forall|v: Seq<(char, char)>, q: Seq<char>| #![trigger add(v, members(q))] q.len() == 0 implies add(v, members(q)) == Some(v) by { assert(v + Seq::<(char, char)>::empty() =~= v); }
  if t.len() >= 3 { assert(t.skip(1).skip(1).skip(1) =~= t.skip(3)); }
}
pub proof fn lemma_class(t: Seq<char>, i: Seq<CharacterInterval>, r: Seq<char>) requires t.len() > 0, t[0] == '-' ==> i.len() == 1 && pair(i[0]) == ('-', '-') && r == t.skip(1), t[0] != '-' ==> i.len() == 0 && r == t ensures add(pairs(i), members(r)) == class(t)
{
  if t[0] == '-' { assert(pairs(i) =~= seq![('-', '-')]); }
  else { assert(pairs(i) =~= Seq::<(char, char)>::empty()); if members(t) is Some { assert(pairs(i) + members(t).unwrap() =~= members(t).unwrap()); } }
}
pub proof fn lemma_nil(r: Option<(Seq<Tree>, Seq<Tok>)>) ensures more(Seq::empty(), r) == r { if r is Some { assert(Seq::<Tree>::empty() + r.unwrap().0 =~= r.unwrap().0); } }
pub proof fn lemma_end(d: Seq<Tree>, q: Seq<Tok>) ensures more(d, Some((Seq::empty(), q))) == Some((d, q)) { assert(d + Seq::<Tree>::empty() =~= d); }
pub proof fn lemma_one(es: Seq<Expression>, v: Seq<usize>, d: Seq<Tree>) requires stand(es, v, d) ensures v.len() == d.len(), forall|k: int| 0 <= k < d.len() ==> stands(es, v[k] as int, #[trigger] d[k]) { reveal(stand); reveal(stands); }
pub proof fn lemma_stand_push(a: Seq<Expression>, b: Seq<Expression>, v: Seq<usize>, d: Seq<Tree>, i: usize, t: Tree) requires stand(a, v, d), a.is_prefix_of(b), stands(b, i as int, t) ensures stand(b, v.push(i), d.push(t))
{ lemma_grow_all(a, b, v, d); reveal(stand); reveal(stands); assert forall|k: int| 0 <= k < d.push(t).len() implies stands(b, v.push(i)[k] as int, #[trigger] d.push(t)[k]) by { if k < d.len() { assert(stands(b, v[k] as int, d[k])); } } }
pub proof fn lemma_rules(a: FGrammar, b: FGrammar, l: Seq<(Ident, Tree)>, x: (Ident, Tree)) requires rules_are(a, l), a.exprs@.is_prefix_of(b.exprs@), b.rules@.len() == a.rules@.len() + 1, forall|k: int| 0 <= k < a.rules@.len() ==> #[trigger] b.rules@[k] == a.rules@[k], b.rules@.last().name == x.0, stands(b.exprs@, b.rules@.last().expr_idx as int, x.1) ensures rules_are(b, l.push(x))
{ assert forall|k: int| 0 <= k < l.push(x).len() implies b.rules@[k].name == (#[trigger] l.push(x)[k]).0 && stands(b.exprs@, b.rules@[k].expr_idx as int, l.push(x)[k].1) by { if k < l.len() { assert(l.push(x)[k] == l[k]); lemma_grow(a.exprs@, b.exprs@, a.rules@[k].expr_idx as int, l[k].1); } } }
// ---- what stands in the arena at i
pub open spec fn type_is(t: IType, a: As) -> bool { match a { As::Unit => t is Regular && t->Regular_0 is Unit, As::Invisible => t is Invisible, As::Rust(x) => t matches Regular(Type::Rust(y)) && x == y } }
pub open spec fn pair(c: CharacterInterval) -> (char, char) { (c.lo, c.hi) }
pub open spec fn pairs(s: Seq<CharacterInterval>) -> Seq<(char, char)> { Seq::new(s.len(), |k: int| pair(s[k])) }
#[verifier::opaque] pub open spec fn stands(es: Seq<Expression>, i: int, t: Tree) -> bool decreases t, 1int { 0 <= i < es.len() && node_is(es, es[i], t) }
pub open spec fn node_is(es: Seq<Expression>, e: Expression, t: Tree) -> bool decreases t, 0int {
  match t {
    Tree::Str(x) => e is StrLiteral && e->StrLiteral_0@ == x,
    Tree::Any => e is AnySingleChar,
    Tree::Class(c) => e is CharacterClass && pairs(e->CharacterClass_0.intervals@) == c,
    Tree::Call(p) => e is ExternalNonTerminalSymbol && e->ExternalNonTerminalSymbol_0 == p,
    Tree::Seq(ts) => e is Sequence && stand(es, e->Sequence_0@, ts),
    Tree::Choice(ts) => e is Choice && stand(es, e->Choice_0@, ts),
    Tree::Star(c) => e is ZeroOrMore && stands(es, e->ZeroOrMore_0 as int, *c),
    Tree::Plus(c) => e is OneOrMore && stands(es, e->OneOrMore_0 as int, *c),
    Tree::Opt(c) => e is ZeroOrOne && stands(es, e->ZeroOrOne_0 as int, *c),
    Tree::Not(c) => e is NotPredicate && stands(es, e->NotPredicate_0 as int, *c),
    Tree::And(c) => e is AndPredicate && stands(es, e->AndPredicate_0 as int, *c),
    Tree::Action(c, b, p) => e is SemanticAction && e->SemanticAction_1 == b && e->SemanticAction_2 == path_expr(p) && stands(es, e->SemanticAction_0 as int, *c),
    Tree::Typed(c, a) => e is TypeAscription && type_is(e->TypeAscription_1, a) && stands(es, e->TypeAscription_0 as int, *c),
    Tree::Span(c) => e is SpannedExpr && stands(es, e->SpannedExpr_0 as int, *c),
    Tree::Range(c) => e is RangeExpr && stands(es, e->RangeExpr_0 as int, *c),
  }
}
#[verifier::opaque] pub open spec fn stand(es: Seq<Expression>, v: Seq<usize>, ts: Seq<Tree>) -> bool decreases ts, 0int { v.len() == ts.len() && forall|k: int| 0 <= k < ts.len() ==> stands(es, v[k] as int, #[trigger] ts[k]) }
// what stands keeps standing as the arena grows
pub open spec fn keeps(a: Seq<Expression>, b: Seq<Expression>) -> bool {
  &&& forall|i: int, t: Tree| #[trigger] stands(a, i, t) ==> stands(b, i, t)
  &&& forall|v: Seq<usize>, t: Seq<Tree>| #[trigger] stand(a, v, t) ==> stand(b, v, t)
  &&& forall|i: int, t: Tree| 0 <= i < a.len() ==> #[trigger] stands(b, i, t) == stands(a, i, t)
}
pub proof fn lemma_alloc(a: Seq<Expression>, b: Seq<Expression>, e: Expression) requires b == a.push(e), arena(a) ensures keeps(a, b), forall|t: Tree| #[trigger] stands(b, a.len() as int, t) == node(b, e, t)
{
  assert(a.is_prefix_of(b));
  assert forall|i: int, t: Tree| #[trigger] stands(a, i, t) implies stands(b, i, t) by { lemma_grow(a, b, i, t); }
  assert forall|v: Seq<usize>, t: Seq<Tree>| #[trigger] stand(a, v, t) implies stand(b, v, t) by { lemma_grow_all(a, b, v, t); }
  assert forall|i: int, t: Tree| 0 <= i < a.len() implies #[trigger] stands(b, i, t) == stands(a, i, t) by { if stands(b, i, t) { lemma_back(a, b, i, t); } }
  reveal(stands); reveal(stand);
}
pub proof fn lemma_below(es: Seq<Expression>, v: Seq<usize>, ts: Seq<Tree>) requires stand(es, v, ts) ensures v.len() == ts.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < es.len()
{ reveal(stand); reveal(stands); assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]) < es.len() by { assert(stands(es, v[k] as int, ts[k])); } }
pub proof fn lemma_grow(a: Seq<Expression>, b: Seq<Expression>, i: int, t: Tree) requires stands(a, i, t), a.is_prefix_of(b) ensures stands(b, i, t) decreases t
{ reveal(stands); reveal(stand);
  assert(b[i] == a[i]);
  match t {
    Tree::Seq(ts) => lemma_grow_all(a, b, a[i]->Sequence_0@, ts), Tree::Choice(ts) => lemma_grow_all(a, b, a[i]->Choice_0@, ts),
    Tree::Star(c) => lemma_grow(a, b, a[i]->ZeroOrMore_0 as int, *c), Tree::Plus(c) => lemma_grow(a, b, a[i]->OneOrMore_0 as int, *c), Tree::Opt(c) => lemma_grow(a, b, a[i]->ZeroOrOne_0 as int, *c),
    Tree::Not(c) => lemma_grow(a, b, a[i]->NotPredicate_0 as int, *c), Tree::And(c) => lemma_grow(a, b, a[i]->AndPredicate_0 as int, *c), Tree::Action(c, _, _) => lemma_grow(a, b, a[i]->SemanticAction_0 as int, *c),
    Tree::Typed(c, _) => lemma_grow(a, b, a[i]->TypeAscription_0 as int, *c), Tree::Span(c) => lemma_grow(a, b, a[i]->SpannedExpr_0 as int, *c), Tree::Range(c) => lemma_grow(a, b, a[i]->RangeExpr_0 as int, *c),
    _ => {}
  }
}
pub proof fn lemma_grow_all(a: Seq<Expression>, b: Seq<Expression>, v: Seq<usize>, ts: Seq<Tree>) requires stand(a, v, ts), a.is_prefix_of(b) ensures stand(b, v, ts) decreases ts
{ reveal(stand); reveal(stands); assert forall|k: int| 0 <= k < ts.len() implies stands(b, v[k] as int, #[trigger] ts[k]) by { lemma_grow(a, b, v[k] as int, ts[k]); } }
pub proof fn lemma_back(a: Seq<Expression>, b: Seq<Expression>, i: int, t: Tree) requires arena(a), 0 <= i < a.len(), stands(b, i, t), a.is_prefix_of(b) ensures stands(a, i, t) decreases t
{ reveal(stands); reveal(stand);
  assert(b[i] == a[i]); let ks = kids(a[i]); assert(forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]) < i); if ks.len() > 0 { assert(ks[0] < i); }
  match t {
    Tree::Seq(ts) => lemma_back_all(a, b, a[i]->Sequence_0@, ts), Tree::Choice(ts) => lemma_back_all(a, b, a[i]->Choice_0@, ts),
    Tree::Star(c) => lemma_back(a, b, a[i]->ZeroOrMore_0 as int, *c), Tree::Plus(c) => lemma_back(a, b, a[i]->OneOrMore_0 as int, *c), Tree::Opt(c) => lemma_back(a, b, a[i]->ZeroOrOne_0 as int, *c),
    Tree::Not(c) => lemma_back(a, b, a[i]->NotPredicate_0 as int, *c), Tree::And(c) => lemma_back(a, b, a[i]->AndPredicate_0 as int, *c), Tree::Action(c, _, _) => lemma_back(a, b, a[i]->SemanticAction_0 as int, *c),
    Tree::Typed(c, _) => lemma_back(a, b, a[i]->TypeAscription_0 as int, *c), Tree::Span(c) => lemma_back(a, b, a[i]->SpannedExpr_0 as int, *c), Tree::Range(c) => lemma_back(a, b, a[i]->RangeExpr_0 as int, *c),
    _ => {}
  }
}
pub proof fn lemma_back_all(a: Seq<Expression>, b: Seq<Expression>, v: Seq<usize>, ts: Seq<Tree>) requires arena(a), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < a.len(), stand(b, v, ts), a.is_prefix_of(b) ensures stand(a, v, ts) decreases ts
{ reveal(stand); reveal(stands); assert forall|k: int| 0 <= k < ts.len() implies stands(a, v[k] as int, #[trigger] ts[k]) by { lemma_back(a, b, v[k] as int, ts[k]); } }
pub open spec fn rules_are(g: FGrammar, l: Seq<(Ident, Tree)>) -> bool { g.rules@.len() == l.len() && forall|k: int| 0 <= k < l.len() ==> g.rules@[k].name == (#[trigger] l[k]).0 && stands(g.exprs@, g.rules@[k].expr_idx as int, l[k].1) }
// ---- whose part is an expression: of one other expression at most, once
#[verifier::opaque] pub open spec fn forest(es: Seq<Expression>) -> bool { forall|i: int, m: int, h: int, n: int| 0 <= i < es.len() && 0 <= m < kids(es[i]).len() && 0 <= h < es.len() && 0 <= n < kids(es[h]).len() && (#[trigger] kids(es[i])[m]) == (#[trigger] kids(es[h])[n]) ==> i == h && m == n }
// j is a part of none
#[verifier::opaque] pub open spec fn top(es: Seq<Expression>, j: int) -> bool { 0 <= j < es.len() && forall|i: int, m: int| 0 <= i < es.len() && 0 <= m < kids(es[i]).len() ==> (#[trigger] kids(es[i])[m]) != j }
pub open spec fn among(v: Seq<usize>, j: int) -> bool { exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]) == j }
pub open spec fn rising(v: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]) < (#[trigger] v[b]) }
pub open spec fn loose(es: Seq<Expression>, v: Seq<usize>) -> bool { rising(v) && forall|k: int| 0 <= k < v.len() ==> top(es, (#[trigger] v[k]) as int) }
// sequences and choices have parts, ascriptions a type; which names are rules is not known yet
pub open spec fn sane(e: Expression) -> bool { match e { Sequence(s) => s@.len() > 0, Choice(s) => s@.len() > 0, NonTerminalSymbol(_) => false, TypeAscription(_, t) => t is Invisible || t is Regular && (t->Regular_0 is Unit || t->Regular_0 is Rust), _ => true } }
// b has one more tree than a, that of r; the trees v more
pub open spec fn adds(a: Seq<Expression>, b: Seq<Expression>, r: int) -> bool { a.len() <= r < b.len() && forall|j: int| #[trigger] top(b, j) == (top(a, j) || j == r) }
pub open spec fn adds_all(a: Seq<Expression>, b: Seq<Expression>, v: Seq<usize>) -> bool { a.len() <= b.len() && rising(v) && (forall|k: int| 0 <= k < v.len() ==> a.len() <= (#[trigger] v[k]) < b.len()) && forall|j: int| #[trigger] top(b, j) == (top(a, j) || among(v, j)) }
pub proof fn lemma_top_le(es: Seq<Expression>, j: int) requires top(es, j) ensures 0 <= j < es.len() { reveal(top); }
pub proof fn lemma_tops_le(es: Seq<Expression>) ensures forall|j: int| #[trigger] top(es, j) ==> 0 <= j < es.len() { reveal(top); }
pub proof fn lemma_tops(a: Seq<Expression>, e: Expression) requires arena(a), forest(a), loose(a, kids(e))
  ensures forest(a.push(e)), forall|j: int| #[trigger] top(a.push(e), j) == (j == a.len() || top(a, j) && !among(kids(e), j))
{
  reveal(forest); reveal(top); let b = a.push(e); let n = a.len() as int;
  assert(b[n] == e);
  assert forall|i: int, m: int| 0 <= i < n && 0 <= m < kids(b[i]).len() implies b[i] == a[i] && (#[trigger] kids(b[i])[m]) < i by { assert(kids(a[i])[m] < i); }
  assert forall|m: int| 0 <= m < kids(e).len() implies (#[trigger] kids(e)[m]) < n && top(a, kids(e)[m] as int) by { assert(top(a, kids(e)[m] as int)); }
  assert forall|i: int, m: int, h: int, o: int| 0 <= i < b.len() && 0 <= m < kids(b[i]).len() && 0 <= h < b.len() && 0 <= o < kids(b[h]).len() && (#[trigger] kids(b[i])[m]) == (#[trigger] kids(b[h])[o]) implies i == h && m == o by {
    if i < n && h < n { assert(kids(a[i])[m] == kids(a[h])[o]); }
    else if i < n { assert(top(a, kids(e)[o] as int)); assert(kids(a[i])[m] != kids(e)[o]); }
    else if h < n { assert(top(a, kids(e)[m] as int)); assert(kids(a[h])[o] != kids(e)[m]); }
    else { if m < o { assert(kids(e)[m] < kids(e)[o]); } else if o < m { assert(kids(e)[o] < kids(e)[m]); } }
  }
  assert forall|j: int| #[trigger] top(b, j) == (j == n || top(a, j) && !among(kids(e), j)) by {
    if top(b, j) && j < n {
      assert forall|i: int, m: int| 0 <= i < a.len() && 0 <= m < kids(a[i]).len() implies (#[trigger] kids(a[i])[m]) != j by { assert(kids(b[i])[m] != j); }
      if among(kids(e), j) { let k = choose|k: int| 0 <= k < kids(e).len() && (#[trigger] kids(e)[k]) == j; assert(kids(b[n])[k] == j); }
    }
    if top(a, j) && !among(kids(e), j) {
      assert forall|i: int, m: int| 0 <= i < b.len() && 0 <= m < kids(b[i]).len() implies (#[trigger] kids(b[i])[m]) != j by { if i < n { assert(kids(a[i])[m] != j); } else { assert(kids(e)[m] != j); } }
    }
    if j == n { assert forall|i: int, m: int| 0 <= i < b.len() && 0 <= m < kids(b[i]).len() implies (#[trigger] kids(b[i])[m]) != j by { if i == n { assert(kids(e)[m] < n); } } }
  }
}
// one more tree, put last
pub proof fn lemma_adds(a: Seq<Expression>, b: Seq<Expression>, c: Seq<Expression>, v: Seq<usize>, r: usize) requires adds_all(a, b, v), adds(b, c, r as int) ensures adds_all(a, c, v.push(r))
{
  let w = v.push(r);
  assert forall|j: int| among(w, j) == (among(v, j) || j == r) by {
    if among(v, j) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]) == j; assert(w[k] == j); }
    if j == r { assert(w[v.len() as int] == j); }
    if among(w, j) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]) == j; if k < v.len() { assert(v[k] == j); } }
  }
  assert forall|k: int| 0 <= k < w.len() implies a.len() <= (#[trigger] w[k]) < c.len() by { if k < v.len() { assert(w[k] == v[k]); } }
  assert forall|x: int, y: int| 0 <= x < y < w.len() implies (#[trigger] w[x]) < (#[trigger] w[y]) by { assert(w[x] == v[x]); if y < v.len() { assert(w[y] == v[y]); } }
}
pub proof fn lemma_adds_one(a: Seq<Expression>, b: Seq<Expression>, v: Seq<usize>) requires adds_all(a, b, v)
  ensures v.len() == 1 ==> adds(a, b, v[0] as int), loose(b, v), forall|c: Seq<Expression>, n: int| #![trigger adds(a, c, n)] n == b.len() && b.len() < c.len() && (forall|j: int| #[trigger] top(c, j) == (j == b.len() || top(b, j) && !among(v, j))) && a.len() <= b.len() ==> adds(a, c, n)
{
  if v.len() == 1 { assert forall|j: int| among(v, j) == (j == v[0]) by { if j == v[0] { assert(v[0] == j); } } }
  assert forall|k: int| 0 <= k < v.len() implies top(b, (#[trigger] v[k]) as int) by { assert(among(v, v[k] as int)); }
  assert forall|c: Seq<Expression>, n: int| n == b.len() && b.len() < c.len() && (forall|j: int| #[trigger] top(c, j) == (j == b.len() || top(b, j) && !among(v, j))) && a.len() <= b.len() implies #[trigger] adds(a, c, n) by {
    assert forall|j: int| #[trigger] top(c, j) == (top(a, j) || j == n) by { if top(a, j) { lemma_top_le(a, j); } }
  }
}
// the trees are those of the rules
pub open spec fn roots(g: FGrammar) -> Seq<usize> { g.rules@.map_values(|x: Rule| x.expr_idx) }
pub open spec fn laid(g: FGrammar) -> bool { loose(g.exprs@, roots(g)) && forall|j: int| #[trigger] top(g.exprs@, j) == among(roots(g), j) }
pub proof fn lemma_laid(a: FGrammar, b: FGrammar) requires laid(a), b.rules@.len() == a.rules@.len() + 1, forall|k: int| 0 <= k < a.rules@.len() ==> #[trigger] b.rules@[k] == a.rules@[k], adds(a.exprs@, b.exprs@, b.rules@.last().expr_idx as int) ensures laid(b)
{
  let v = roots(a); let r = b.rules@.last().expr_idx; assert(roots(b) =~= v.push(r)); let e = Seq::<Expression>::empty();
  assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]) < a.exprs@.len() by { lemma_top_le(a.exprs@, v[k] as int); }
  assert forall|j: int| !(#[trigger] top(e, j)) by { if top(e, j) { lemma_top_le(e, j); } }
  lemma_adds(e, a.exprs@, b.exprs@, v, r);
  assert forall|k: int| 0 <= k < roots(b).len() implies top(b.exprs@, (#[trigger] roots(b)[k]) as int) by { assert(among(roots(b), roots(b)[k] as int)); }
}
// a grammar under construction
pub open spec fn fok(g: FGrammar) -> bool { arena(g.exprs@) && forest(g.exprs@) && (forall|i: int| 0 <= i < g.exprs@.len() ==> sane(#[trigger] g.exprs@[i])) && g.exprs_info@.len() == g.exprs@.len() }
pub open spec fn grows(a: FGrammar, b: FGrammar) -> bool { fok(b) && a.exprs@.is_prefix_of(b.exprs@) && keeps(a.exprs@, b.exprs@) && b.rules == a.rules && b.rust_items == a.rust_items && b.attributes == a.attributes }
'''

def unfold(text):
    """a lemma for every opaque recursive function of the notation: it is its definition, once"""
    out, seen = '', re.findall(r'#\[verifier::opaque\] pub open spec fn (p_\w+)', text)
    for m in re.finditer(r'#\[verifier::opaque\] pub open spec fn (p_\w+)\(s: Seq<Tok>\) -> \S.*?( decreases [^{\n]*?)? (\{\n.*?\n\})\n', text, re.S):
        f, body = m.group(1), m.group(3)
        calls = [g for g in seen if re.search(r'\b%s\(' % g, body) or g == f]
        out += 'pub proof fn def_%s(s: Seq<Tok>) ensures %s(s) == (%s) { %s }\n' % (f, f, body, ' '.join('reveal(%s);' % c for c in calls))
    return out + 'pub open spec fn node(es: Seq<Expression>, e: Expression, t: Tree) -> bool %s\n' % re.search(r'spec fn node_is\(.*?(\{\n.*?\n\})\n', text, re.S).group(1)

def tokens(u):
    """a unit struct for every token named in the parser"""
    toks = sorted(set(re.findall(r'Token!\s*\[\s*([^\]\s]+)\s*\]', u.file(P).src)))
    out = ''
    for t in toks:
        seq = 'seq![%s]' % ', '.join("'%s'" % c for c in t)
        at, n = ('word(s, %s)' % seq, 1) if re.match(r'\w+$', t) else ('punct(s, %s)' % seq, len(t))
        nm = tok_name(t)
        out += 'pub struct %s; impl VxPeek for %s { open spec fn at(s: Seq<Tok>) -> bool { %s } }\n' % (nm, nm, at)
        out += 'impl VxParse for %s { open spec fn read(s: Seq<Tok>) -> Option<(Self, nat)> { if %s { Some((%s, %d)) } else { None } } open spec fn stays() -> bool { true } proof fn reads(s: Seq<Tok>) {} }\n' % (nm, at, nm, n)
    return out

def tok_name(t):
    return 'Tok_' + '_'.join(str(ord(c)) for c in t)

TOKEN = r'Token!\s*\[\s*([^\]\s]+)\s*\]'
GROUP = {'parenthesized': '(', 'bracketed': '[', 'braced': '{'}

def group_of(em, n):
    """(variable, stream, delimiter) when the statement opens a group"""
    x = n.a.get('init') if n.kind == 'let' else n.a.get('x') if n.kind == 'expr_stmt' else None
    if x is not None and x.kind == 'macro' and x.name.split('::')[-1] in GROUP:
        m = re.match(r'\s*(\w+)\s+in\s+(&?\s*\w+)\s*$', em.src[x.body_s:x.body_e])
        if m is None:
            raise Unsupported('group macro')
        return m.group(1), m.group(2), GROUP[x.name.split('::')[-1]]

def cps(em, b):
    """the block of a closure that may leave early because a group does not open"""
    out, close = '', ''
    for s in b.stmts:
        g = group_of(em, s)
        if g:
            out += "match %s.vx_group(Ghost('%s')) { Err(vx_e) => Err(vx_e), Ok(mut %s) => { " % (g[1], g[2], g[0])
            close += ' } }'
        else:
            out += em.e(s) + ' '
    return '({ ' + out + (em.e(b.tail) if b.tail is not None else '') + close + ' })'

def grouped(em):
    if not hasattr(em, 'vx_grouped'):
        em.vx_grouped = set(re.findall(r'(?:%s)!\s*[({\[]\s*(\w+)\s+in\b' % '|'.join(GROUP), em.src[em.f.node.s:em.f.node.e]))
        em.vx_streams = em.vx_grouped | set(re.findall(r'let\s+(?:mut\s+)?(\w+)\s*=\s*\w+\.fork\(\)', em.src[em.f.node.s:em.f.node.e]))
    return em.vx_grouped

def node_hook(em, n):
    k = n.kind
    if k in ('let', 'expr_stmt'):
        g = group_of(em, n)
        if g:
            return "let mut %s = %s.vx_group(Ghost('%s'))?;" % (g[0], g[1], g[2])
    if k == 'let':
        if n.a.get('init') is None and n.pat.kind == 'pat_ident' and n.pat.name in grouped(em):
            return ''
        if n.init is not None and n.init.kind == 'mcall' and n.init.name == 'fork' and n.pat.kind == 'pat_ident':
            return 'let mut %s = %s;' % (n.pat.name, em.e(n.init))
    if k == 'call' and n.f.kind == 'path' and n.f.text in getattr(em, 'bound', {}):
        c = em.bound[n.f.text]
        if not n.args and c.body.kind in ('block', 'blockexpr'):
            b = c.body if c.body.kind == 'block' else c.body.b
            if any(group_of(em, s) for s in b.stmts):
                return cps(em, b)
    if k == 'ref' and n.x.kind == 'path':
        grouped(em)
        if n.x.text in em.vx_streams:
            return '&mut ' + n.x.text
    if k == 'macro' and n.name == 'Token':
        return tok_name(em.src[n.body_s:n.body_e].strip())
    if k == 'match' and any(a.guard is not None for a in n.arms) and n.x.kind == 'tuple' and all(x.kind == 'path' for x in n.x.items):
        def arms(l):    # a guard that fails goes on with the arms below
            out = ''
            for j, a in enumerate(l):
                body = em.e(a.body)
                if a.guard is not None:
                    body = 'if %s { %s } else { %s }' % (em.e(a.guard), body, arms(l[j + 1:]))
                out += '%s => { %s } ' % (em.e(a.pat), body)
            return 'match vx_m { %s}' % out
        return '({ let vx_m = %s; %s })' % (em.e(n.x), arms(n.arms))
    if k == 'cast' and em.src[n.ty.s:n.ty.e].startswith('&'):
        return em.e(n.x)
    if k == 'binary' and n.op in ('==', '!='):
        for a, b in ((n.l, n.r), (n.r, n.l)):
            if em.src[b.s:b.e] == 'IType::Infer':
                return '(%svx_infer(&(%s)))' % ('' if n.op == '==' else '!', em.e(a))

def h_peek(em, n):
    if len(n.args) == 1 and n.args[0].kind == 'path' and n.args[0].text in ('Ident', 'LitStr'):
        return '%s.%s(Vx%s)' % (em.e(n.x), n.name, n.args[0].text)
    if len(n.args) == 1 and n.args[0].kind == 'macro' and n.args[0].name == 'Token':
        return '%s.%s(%s)' % (em.e(n.x), n.name, em.e(n.args[0]))
    if n.name == 'peek' and not n.args:
        return None
    raise Unsupported('peek')

def h_parse(em, n):
    if n.turbo:
        t = n.turbo if isinstance(n.turbo, str) else em.src[n.turbo.s:n.turbo.e]
        t = re.sub(r'^::', '', t.strip())
        return '%s.parse::%s()' % (em.e(n.x), em.sub(t if t.startswith('<') else '<%s>' % t))

def h_map(em, n):
    if n.args[0].kind == 'path' and n.args[0].text == 'Some':
        return '(match %s { Ok(vx_v) => Ok(Some(vx_v)), Err(vx_e) => Err(vx_e) })' % em.e(n.x)

def h_prefix(em, n):
    """a closure that builds an expression says what it builds"""
    out = []
    for a in n.args:
        if a.kind == 'closure' and a.body.kind == 'call' and len(a.params) == 1:
            p = em.src[a.params[0].pat.s:a.params[0].pat.e]
            b = em.e(a.body)
            out.append('|%s: usize| -> (vx_r: Expression) ensures vx_r == (%s) { %s }' % (p, b, b))
        else:
            out.append(em.e(a))
    return '%s.%s(%s)' % (em.e(n.x), n.name, ', '.join(out))

def unit():
    u = Unit('front')
    u.text_sub += [(TOKEN, lambda m: tok_name(m.group(1))), (r"\bPeekable<Chars<'\w+>>", 'VxChars'), (r'\bParseStream\b', '&mut Ps'), (r'\bsyn::ExprPath\b', 'SynExprPath'), (r'\bsyn::Attribute\b', 'SynAttribute'), (r'\bAttribute\b', 'SynAttribute')]
    u.no_use |= {'Chars', 'Peekable'}
    astlib.text_subs(u)
    ast_parts(u)
    u.raw(SYN.replace('$TOKENS', tokens(u)))
    u.raw(NOTATION + unfold(NOTATION))
    u.node_hook = node_hook
    u.calls['Error::new'] = lambda em, n: 'VxErr::new()'
    u.calls['syn::Expr::Path'] = lambda em, n: 'vx_path_expr(%s)' % em.e(n.args[0])
    u.macros['format'] = lambda em, n: 'vx_fmt_new()'
    u.drops.add('src/liboak/front/parser.rs: texts and spans of error messages')
    u.drops.add('src/liboak/front/parser.rs: ParseStream (a shared cursor) as a unique reference to a buffer; parenthesized!/bracketed! as a call that takes a group; Token![..] as a unit struct')
    u.mcalls.update(peek=h_peek, peek2=h_peek, parse=h_parse, map=h_map, parse_prefixed_expr2=h_prefix,
        call=lambda em, n: '%s.vx_attributes()' % em.e(n.x) if em.src[n.args[0].s:n.args[0].e].endswith('Attribute::parse_inner') else None,
        peekable=lambda em, n: 'vx_chars(&%s)' % em.e(n.x.x) if n.x.kind == 'mcall' and n.x.name == 'chars' else None,
        extend=ityping.h_extend, extend_from_slice=lambda em, n: 'vx_extend_from(&mut %s, %s)' % (em.e(n.x), em.e(n.args[0])),
        is_empty=lambda em, n: 'vx_empty(&%s)' % em.e(n.x) if n.x.kind == 'mcall' and n.x.name == 'value' else None)
    G = 'FGrammar'
    AS = astlib.AST
    u.fn(AS, 'CharacterInterval', 'new', spec='ensures r.lo == $1, r.hi == $2')
    u.fn(AS, 'CharacterClassExpr', 'new', spec='ensures r.intervals == $1')
    u.fn(AS, 'Rule', 'new', spec='ensures r.name == $1, r.expr_idx == $2')
    u.fn(A, 'FExpressionInfo', 'spanned', spec='ensures r.span == $1')
    u.fn(A, 'FExpressionInfo', 'span', trait='Spanned', spec='ensures r == self.span')
    u.fn(A, G, 'new', spec='ensures fok(r), r.rules@.len() == 0, r.exprs@.len() == 0, laid(r)', proof='proof { reveal(forest); reveal(top); }')
    u.fn(A, G, 'alloc_expr', spec="""requires fok(*old(self)), forall|k: int| 0 <= k < kids($2).len() ==> (#[trigger] kids($2)[k]) < old(self).exprs@.len(), loose(old(self).exprs@, kids($2)), sane($2)
ensures forall|j: int| #[trigger] top(final(self).exprs@, j) == (j == r || top(old(self).exprs@, j) && !among(kids($2), j)), kids($2).len() == 0 ==> adds(old(self).exprs@, final(self).exprs@, r as int),
  kids($2).len() == 1 ==> forall|j: int| #[trigger] top(final(self).exprs@, j) == (j == r || top(old(self).exprs@, j) && j != kids($2)[0]), final(self).exprs@ == old(self).exprs@.push($2), r == old(self).exprs@.len(), grows(*old(self), *final(self)), forall|t: Tree| #[trigger] stands(final(self).exprs@, r as int, t) == node(final(self).exprs@, $2, t)""", proof='proof { lemma_alloc(self.exprs@, self.exprs@.push($2), $2); lemma_tops(self.exprs@, $2); assert forall|j: int| kids($2).len() == 1 implies among(kids($2), j) == (j == kids($2)[0]) by { if j == kids($2)[0] { assert(among(kids($2), kids($2)[0] as int)); } } }')
    u.fn(A, G, 'push_rule', spec='ensures final(self).rules@.len() == old(self).rules@.len() + 1, forall|k: int| 0 <= k < old(self).rules@.len() ==> #[trigger] final(self).rules@[k] == old(self).rules@[k], final(self).rules@.last().name == $1, final(self).rules@.last().expr_idx == $2, final(self).exprs == old(self).exprs, final(self).exprs_info == old(self).exprs_info')
    SAME = 'final(self).exprs == old(self).exprs, final(self).exprs_info == old(self).exprs_info, final(self).rules == old(self).rules'
    u.fn(A, G, 'push_attrs', spec='ensures ' + SAME)
    u.fn(A, G, 'push_rust_item', spec='ensures ' + SAME)
    u.fn(P, G, 'span_of', spec='requires fok(*self), $1 < self.exprs@.len()')

    # classes (C10)
    u.fn(P, G, 'parse_char_range', spec="""ensures r is Ok && r->Ok_0@.len() == 0 ==> old($2)@.len() == 0 && final($2)@.len() == 0, r is Ok && r->Ok_0@.len() > 0 ==> final($2)@.len() < old($2)@.len(), r is Ok ==> members(old($2)@) == add(pairs(r->Ok_0@), members(final($2)@)), r is Err ==> members(old($2)@) is None, *final(self) == *old(self)""",
         proof='let ghost t0 = $2@; proof { lemma_members(t0); reveal_with_fuel(members, 4); }')
    u.fn(P, G, 'parse_set_of_char_range', attr=LI, spec="""requires fok(*old(self)), $2@.len() > 0
ensures match class($2@) { Some(c) => r is Ok && r->Ok_0 < final(self).exprs@.len() && stands(final(self).exprs@, r->Ok_0 as int, Tree::Class(c)) && grows(*old(self), *final(self)) && adds(old(self).exprs@, final(self).exprs@, r->Ok_0 as int), None => r is Err }""", proof='let ghost t0 = $2@; let ghost f0 = *self;',
         loops=[Loop('loop', 'invariant_except_break add(pairs(intervals@), members(ranges@)) == class(t0), *self == f0, fok(*self)\n  ensures class(t0) == Some(pairs(intervals@)), *self == f0\n decreases ranges@.len()',
                     pre='proof { lemma_class(t0, intervals@, ranges@); }', body='let ghost r0 = ranges@; let ghost i0 = intervals@;', tail='')],
         mcalls=dict(extend_from_slice=lambda em, n: '({ vx_extend_from(&mut %s, %s); proof { reveal(members); lemma_pairs_add(i0, %s@); lemma_add_add(pairs(i0), pairs(%s@), members(ranges@)); assert(intervals@ == i0 + char_set@); assert(intervals@ + Seq::<CharacterInterval>::empty() =~= intervals@); assert(pairs(intervals@) + Seq::<(char, char)>::empty() =~= pairs(intervals@)); } })' % (em.e(n.x), em.e(n.args[0]), em.e(n.args[0].x), em.e(n.args[0].x))))
    E = 'requires fok(*old(self))\nensures got(%s(old($1)@), r, final(self).exprs@, final($1)@), r is Ok ==> grows(*old(self), *final(self)) && adds(old(self).exprs@, final(self).exprs@, r->Ok_0 as int) && size(final($1)@) < size(old($1)@)'
    O = 'requires fok(*old(self))\nensures gotten(%s(old($1)@), r, final(self).exprs@, final($1)@), r is Ok ==> grows(*old(self), *final(self)), r is Ok && r->Ok_0 is Some ==> adds(old(self).exprs@, final(self).exprs@, r->Ok_0->Some_0 as int) && size(final($1)@) < size(old($1)@), r is Ok && r->Ok_0 is None ==> final(self).exprs@ == old(self).exprs@, r is Ok && r->Ok_0 is None ==> size(final($1)@) <= size(old($1)@)'
    def lv(t, n):
        return t + '\ndecreases size(old($1)@), %dint' % n
    INIT = 'let ghost mut done = Seq::<Tree>::empty(); proof { lemma_nil(%s(s0)); reveal(stand); }'
    AFTER = 'proof { lemma_below(self.exprs@, %s@, done); lemma_one(self.exprs@, %s@, done); lemma_adds_one(f0.exprs@, self.exprs@, %s@); }'
    def hd(*names):
        return 'let ghost s0 = $1@; let ghost f0 = *self; proof { lemma_tops_le(self.exprs@); %s}' % ''.join('def_%s(s0); ' % x if x.startswith('p_') else 'reveal(%s); ' % x for x in names)
    u.fn(P, G, 'parse_char_class', spec="""requires fok(*old(self))
ensures match class_at(old($1)@) { Some(c) => r is Ok && r->Ok_0 < final(self).exprs@.len() && stands(final(self).exprs@, r->Ok_0 as int, Tree::Class(c)) && grows(*old(self), *final(self)) && adds(old(self).exprs@, final(self).exprs@, r->Ok_0 as int), None => r is Err }""")
    # structure (C11)
    u.fn(P, G, 'peek_unit_type', spec="ensures r == (is_group(old($1)@, '(') && if $2 { punct(inside(old($1)@), seq!['^']) } else { inside(old($1)@).len() == 0 }), final($1)@ == old($1)@")
    u.fn(P, G, 'parse_type', spec="ensures match p_type(old($1)@) { Some((a, q)) => r is Ok && itype_is(r->Ok_0.1, a) && final($1)@ == q, None => r is Err }, r is Ok ==> size(final($1)@) <= size(old($1)@), r is Ok && !(r->Ok_0.1 is Infer) ==> size(final($1)@) < size(old($1)@)", proof='proof { def_p_type($1@); }')
    u.fn(P, G, 'peek_rule_lhs', spec='ensures r == is_rule(old($1)@), final($1)@ == old($1)@, *final(self) == *old(self)', proof='proof { reveal(is_rule); }')
    u.fn(P, G, 'peek_paren', spec="ensures r == is_group(old($1)@, '('), final($1)@ == old($1)@")
    u.fn(P, G, 'peek_bracket', spec="ensures r == is_group(old($1)@, '['), final($1)@ == old($1)@")
    u.fn(P, G, 'peek_path', spec='ensures r == read_path(old($1)@).is_some(), final($1)@ == old($1)@')
    u.fn(P, G, 'parse_rule_atom', spec=lv(O % 'p_atom', 1), proof=hd('p_atom'))
    u.fn(P, G, 'parse_suffixed_expr', spec=lv(O % 'p_suffix', 2), proof=hd('p_suffix'))
    u.fn(P, G, 'parse_prefixed_expr2', spec="""requires fok(*old(self)), forall|e: usize| #[trigger] call_requires($4, (e,)), forall|e: usize, x: Expression| #[trigger] call_ensures($4, (e,), x) ==> kids(x) == seq![e] && sane(x)
ensures match p_suffix(old($1)@) {
    Some((Some(t), q)) => r is Ok && final($1)@ == q && size(q) < size(old($1)@) && grows(*old(self), *final(self)) && adds(old(self).exprs@, final(self).exprs@, r->Ok_0 as int) && r->Ok_0 + 1 == final(self).exprs@.len() && (forall|u: Tree| #[trigger] stands(final(self).exprs@, r->Ok_0 as int, u) == node(final(self).exprs@, final(self).exprs@[r->Ok_0 as int], u)) && exists|e: usize| call_ensures($4, (e,), final(self).exprs@[r->Ok_0 as int]) && #[trigger] stands(final(self).exprs@, e as int, t),
    _ => r is Err }
decreases size(old($1)@), 3int""", proof=hd())
    u.fn(P, G, 'parse_prefixed_expr', spec=lv(O % 'p_prefix', 4), proof=hd('p_prefix'))
    u.fn(P, G, 'parse_typed_expr', spec=lv(O % 'p_typed', 5), proof=hd('p_typed'))
    u.fn(P, G, 'parse_seq', attr=LI, spec=lv(E % 'p_seq', 6), proof=hd('p_seq') + INIT % 'p_items',
         loops=[Loop('while', """invariant_except_break p_items(s0) == more(done, p_items($1@)), fok(*self), grows(f0, *self), stand(self.exprs@, seq@, done), adds_all(f0.exprs@, self.exprs@, seq@), size($1@) <= size(s0), done.len() > 0 ==> size($1@) < size(s0)
  ensures p_items(s0) == Some((done, $1@)), fok(*self), grows(f0, *self), stand(self.exprs@, seq@, done), adds_all(f0.exprs@, self.exprs@, seq@), size($1@) <= size(s0), done.len() > 0 ==> size($1@) < size(s0)
  decreases size($1@)""", head='let ghost s1 = $1@; let ghost f1 = *self; proof { def_p_items(s1); if p_items(s1) is Some { lemma_end(done, p_items(s1).unwrap().1); } }', body='', tail='', after=AFTER % ('seq', 'seq', 'seq'))],
         mcalls=dict(push=lambda em, n: em.f.place('({ let ghost vx_w = %s@; %s.push(%s); proof { let t = p_typed(s1).unwrap().0.unwrap(); lemma_stand_push(f1.exprs@, self.exprs@, vx_w, done, %s, t); lemma_adds(f0.exprs@, f1.exprs@, self.exprs@, vx_w, %s); lemma_more(done, t, p_items($1@)); done = done.push(t); } })' % (em.e(n.x), em.e(n.x), em.e(n.args[0]), em.e(n.args[0]), em.e(n.args[0])))))
    u.fn(P, G, 'parse_spanned_expr', spec=lv(E % 'p_span', 7), proof=hd('p_span'))
    u.fn(P, G, 'parse_semantic_action', spec="""requires fok(*old(self)), $2 < old(self).exprs@.len(), top(old(self).exprs@, $2 as int)
ensures r is Ok ==> $2 <= r->Ok_0 < final(self).exprs@.len() && (forall|j: int| #[trigger] top(final(self).exprs@, j) == (j == r->Ok_0 || top(old(self).exprs@, j) && j != $2)), r is Ok ==> grows(*old(self), *final(self)) && size(final($1)@) <= size(old($1)@), forall|t: Tree| #[trigger] stands(old(self).exprs@, $2 as int, t) ==> got(with_action(t, old($1)@), r, final(self).exprs@, final($1)@)""", proof=hd('with_action'))
    u.fn(P, G, 'parse_rule_choice', attr=LI, spec=lv(E % 'p_choice', 10), proof=hd('p_choice') + INIT % 'p_alts',
         loops=[Loop('loop', """invariant_except_break p_alts(s0) == more(done, p_alts($1@)), fok(*self), grows(f0, *self), stand(self.exprs@, choices@, done), adds_all(f0.exprs@, self.exprs@, choices@), size($1@) <= size(s0), done.len() > 0 ==> size($1@) < size(s0)
  ensures p_alts(s0) == Some((done, $1@)), fok(*self), grows(f0, *self), stand(self.exprs@, choices@, done), adds_all(f0.exprs@, self.exprs@, choices@), size($1@) < size(s0), done.len() > 0
  decreases size($1@)""", body='let ghost s1 = $1@; let ghost f1 = *self; proof { lemma_tops_le(f1.exprs@); def_p_alts(s1); def_p_action(s1); }', after=AFTER % ('choices', 'choices', 'choices'))],
         mcalls=dict(push=lambda em, n: em.f.place('({ let ghost vx_w = %s@; let vx_p = %s; %s.push(vx_p); proof { let t = p_action(s1).unwrap().0; lemma_stand_push(f1.exprs@, self.exprs@, vx_w, done, vx_p, t); lemma_adds(f0.exprs@, f1.exprs@, self.exprs@, vx_w, vx_p); lemma_more(done, t, Some((Seq::empty(), $1@))); lemma_end(done.push(t), $1@); lemma_end(seq![t], $1@); if size($1@.skip(1)) < size(s1) { lemma_more(done, t, p_alts($1@.skip(1))); } done = done.push(t); } })' % (em.e(n.x), em.e(n.args[0]), em.e(n.x)))))
    u.fn(P, G, 'parse_rule', spec="""requires fok(*old(self)) ensures match p_rule(old($1)@) { Some(((n, t), q)) => r is Ok && final($1)@ == q && fok(*final(self)) && old(self).exprs@.is_prefix_of(final(self).exprs@) && adds(old(self).exprs@, final(self).exprs@, final(self).rules@.last().expr_idx as int) && size(q) < size(old($1)@)
    && final(self).rules@.len() == old(self).rules@.len() + 1 && (forall|k: int| 0 <= k < old(self).rules@.len() ==> #[trigger] final(self).rules@[k] == old(self).rules@[k]) && final(self).rules@.last().name == n && stands(final(self).exprs@, final(self).rules@.last().expr_idx as int, t),
  None => r is Err }""", proof=hd('p_rule'))
    u.fn(P, G, 'parse_blocks', attr=LI, spec="requires fok(*old(self)), laid(*old(self)), old(self).rules@.len() == 0\nensures match p_grammar(old($1)@) { Some(l) => r is Ok && rules_are(*final(self), l) && laid(*final(self)) && fok(*final(self)), None => r is Err }", proof=hd() + 'let ghost mut done = Seq::<(Ident, Tree)>::empty();',
         loops=[Loop('while', 'invariant p_grammar(s0) == add(done, p_grammar($1@)), fok(*self), laid(*self), rules_are(*self, done)\n  decreases size($1@)', body='let ghost s1 = $1@; let ghost f1 = *self; proof { def_p_grammar(s1); }',
                     tail='proof { if is_rule(s1.skip(read_attrs(s1).unwrap().1 as int)) { let x = p_rule(s1.skip(read_attrs(s1).unwrap().1 as int)).unwrap().0; lemma_rules(f1, *self, done, x); lemma_laid(f1, *self); lemma_add(done, x, p_grammar($1@)); done = done.push(x); } }', after='proof { def_p_grammar($1@); assert(done + Seq::<(Ident, Tree)>::empty() =~= done); }')])
    u.fn(P, G, 'parse', trait='Parse', spec='ensures match p_grammar(old($1)@) { Some(l) => r is Ok && rules_are(r->Ok_0, l) && laid(r->Ok_0) && fok(r->Ok_0), None => r is Err }')
    return u

LI = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] '

def ast_parts(u):
    astlib.ast(u, itype=False)
    u.raw(astlib.DIAG)
    u.raw(astlib.STRUCT)
    T = ityping.AST
    u.enum(T, 'RecKind', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)] ', subst=[(r'//[^\n]*', '')])
    u.struct(T, 'RecPath')
    u.struct(T, 'RecSet')
    u.enum(T, 'IType', subst=[(r'//[^\n]*', '')])
    u.enum(T, 'Type', subst=[(r'//[^\n]*', '')])
    u.raw('use IType::*; use Type::*;\npub fn vx_infer(t: &IType) -> (r: bool) ensures r == (*t is Infer) { match t { Infer => true, _ => false } }\n')
    u.struct(A, 'FExpressionInfo')
    u.struct(A, 'FGrammar')
