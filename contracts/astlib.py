"""The syntax tree of liboak (src/liboak/ast.rs, visitor.rs) for the units on the analyses of the middle end.

`Visitor<R>` is monomorphised: for an implementor V its default methods, the methods of `impl Visitor<R> for V`, what
`unit_visitor_impl!` expands to and `walk_expr`/`walk_exprs` become inherent methods of V (`R` is what the impl says,
`visitor` is `self`). proc_macro2 and syn values (Ident, Span, Path, Expr, ..) are opaque.
"""
import re
from vx import *
AST = 'src/liboak/ast.rs'
VIS = 'src/liboak/visitor.rs'

PRE = r'''
// ---- proc_macro2 / syn (assumed): identifiers have a text, two are equal when their texts are
#[verifier::external_body] pub struct Ident { x: std::marker::PhantomData<u8> }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynPath { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynExpr { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynType { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynItem { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynItemType { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct SynItemFn { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct VxMapFn { x: std::marker::PhantomData<u8> }
#[verifier::external_body] pub struct VxAttrs { x: std::marker::PhantomData<u8> }
impl Ident {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
}
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for Ident { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ } }
impl PartialEq<String> for Ident { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
impl SynPath {
  // the identifier, when the path is a single one without arguments
  pub uninterp spec fn ident(&self) -> Option<Ident>;
  #[verifier::external_body] pub fn get_ident(&self) -> (r: Option<&Ident>) ensures r.is_some() == self.ident().is_some(), r.is_some() ==> *r.unwrap() == self.ident().unwrap() { unimplemented!() }
}
'''

def text_subs(u):
    u.text_sub += [(r'\bsyn::Path\b', 'SynPath'), (r'\bsyn::Expr\b', 'SynExpr'), (r'\bsyn::ItemType\b', 'SynItemType'), (r'\bsyn::ItemFn\b', 'SynItemFn'), (r'\bsyn::Item\b', 'SynItem'),
                   (r'\bsyn::Type\b', 'SynType'), (r'\bHashMap<Ident,\s*SynItemFn>', 'VxMapFn'), (r'\bGrammarAttributes\b', 'VxAttrs')]

PARTIAL = r'''
// ---- crate `partial` (assumed)
pub enum Partial<T> { Value(T), Fake(T), Nothing }
use Partial::*;
pub fn vx_open<T>(p: Partial<T>) -> (r: (bool, Option<T>)) ensures p == vx_closed(r.0, r.1) { match p { Value(x) => (true, Some(x)), Fake(x) => (false, Some(x)), Nothing => (false, None) } }
pub open spec fn vx_closed<T>(full: bool, x: Option<T>) -> Partial<T> { match x { Some(x) => if full { Value(x) } else { Fake(x) }, None => Nothing } }
pub fn vx_close<T>(full: bool, x: T) -> (r: Partial<T>) ensures r == vx_closed(full, Some(x)) { if full { Value(x) } else { Fake(x) } }
'''
def h_partial_map(em, n):
    c = n.args[0]
    if c.kind != 'closure' or len(c.params) != 1:
        raise Unsupported('Partial::map of a function')
    em.u.assumed.add('crate partial: Partial::map keeps Value/Fake/Nothing and maps what they hold')
    return '({ let (vx_full, vx_val) = vx_open(%s); match vx_val { Some(%s) => vx_close(vx_full, %s), None => Nothing } })' % (em.e(n.x), em.e(c.params[0].pat), em.e(c.body))

DIAG = r'''
// ---- diagnostics (assumed: emitting one reports it). `said(m)`: a message with the text m is emitted.
pub uninterp spec fn said(m: Seq<char>) -> bool;
pub open spec fn mentions(m: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i <= m.len() - t.len() && #[trigger] m.subrange(i, i + t.len()) == t }
pub proof fn lemma_mentions_app(a: Seq<char>, b: Seq<char>, t: Seq<char>) requires mentions(a, t) ensures mentions(a + b, t)
{ let i = choose|i: int| 0 <= i <= a.len() - t.len() && #[trigger] a.subrange(i, i + t.len()) == t; assert((a + b).subrange(i, i + t.len()) =~= t); }
pub proof fn lemma_mentions_end(a: Seq<char>, t: Seq<char>) ensures mentions(a + t, t) { assert((a + t).subrange(a.len() as int, (a.len() + t.len()) as int) =~= t); }
pub trait VxDisplay { spec fn display(&self) -> Seq<char>; }
impl VxDisplay for String { open spec fn display(&self) -> Seq<char> { self@ } }
impl VxDisplay for Ident { open spec fn display(&self) -> Seq<char> { self@ } }
impl<'x, T: VxDisplay + ?Sized> VxDisplay for &'x T { open spec fn display(&self) -> Seq<char> { (**self).display() } }
#[verifier::external_body] pub fn vx_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt_lit_raw(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt_arg_raw<T: VxDisplay>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.display() { unimplemented!() }
pub fn vx_fmt_lit(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@, forall|x: Seq<char>| mentions(s@, x) ==> #[trigger] mentions(r@, x)
{ let ghost a = s@; let r = vx_fmt_lit_raw(s, t); proof { assert forall|x: Seq<char>| mentions(a, x) implies #[trigger] mentions(r@, x) by { lemma_mentions_app(a, t@, x); } } r }
pub fn vx_fmt_arg<T: VxDisplay>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.display(), mentions(r@, t.display()), forall|x: Seq<char>| mentions(s@, x) ==> #[trigger] mentions(r@, x)
{ let ghost a = s@; let r = vx_fmt_arg_raw(s, t); proof { lemma_mentions_end(a, t.display()); assert forall|x: Seq<char>| mentions(a, x) implies #[trigger] mentions(r@, x) by { lemma_mentions_app(a, t.display(), x); } } r }
#[verifier::external_body] pub fn vx_error(m: String) ensures said(m@) { unimplemented!() }
#[verifier::external_body] pub fn vx_warning(m: String) ensures said(m@) { unimplemented!() }
'''
def h_emit(em, n):
    """span.unstable().error(m).span_note(..).emit() -> vx_error(m); notes and spans are dropped"""
    x = n.x
    while x.kind == 'mcall':
        if x.name in ('error', 'warning') and len(x.args) == 1:
            em.u.drops.add('%s: spans and notes of diagnostics in %s' % (em.f.file, em.f.name))
            return 'vx_%s(%s)' % (x.name, em.e(x.args[0]))
        x = x.x
    raise Unsupported('emit of an unknown diagnostic')

def ast(u, info='FExpressionInfo', itype=True):
    """enum Expression, struct Rule, struct Grammar as they stand in ast.rs"""
    text_subs(u)
    u.no_use |= {'Formatter', 'Display', 'Error', 'HashMap', 'HashSet', 'Index', 'IndexMut', 'swap', 'Default', 'FromIterator', 'Deref', 'self', 'String'}
    u.raw(PRE)
    u.mcalls.setdefault('emit', h_emit)
    if itype:
        u.raw('#[verifier::external_body] pub struct IType { x: std::marker::PhantomData<u8> }\n')
    u.struct(AST, 'CharacterInterval')
    u.struct(AST, 'CharacterClassExpr')
    u.enum(AST, 'Expression', subst=[(r'//[^\n]*', '')])
    u.raw('use Expression::*;\n')
    u.raw('impl Clone for Expression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n')
    u.drops.add('derived Clone of Expression, Rule, Ident: restated as "the copy equals the original"')
    u.struct(AST, 'Rule')
    u.raw('impl Clone for Rule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n')
    u.struct(AST, 'Grammar')

STRUCT = r'''
// ---- the shape of the arena: an expression refers to expressions allocated before it
pub open spec fn kids(e: Expression) -> Seq<usize> {
  match e {
    Sequence(s) => s@, Choice(s) => s@,
    ZeroOrMore(c) => seq![c], OneOrMore(c) => seq![c], ZeroOrOne(c) => seq![c], NotPredicate(c) => seq![c], AndPredicate(c) => seq![c],
    SemanticAction(c, _, _) => seq![c], TypeAscription(c, _) => seq![c], SpannedExpr(c) => seq![c], RangeExpr(c) => seq![c],
    _ => Seq::empty(),
  }
}
pub open spec fn arena(es: Seq<Expression>) -> bool { forall|i: int, k: int| 0 <= i < es.len() && 0 <= k < kids(es[i]).len() ==> (#[trigger] kids(es[i])[k]) < i }
'''

class Piece:
    """a piece of source text with the interface of rs.File"""
    def __init__(self, src):
        self.src = src
        self.items = rs.Parser(src).file()
    def text(self, n):
        return self.src[n.s:n.e]

def impl_like(im):
    return rs.Node('impl', im.s, im.e, attrs=[], generics=im.generics, ty=im.ty, trait=None, where='', items=[])

def macro_arm(F, name, arg):
    """the expansion of `name!(arg)` for a macro of token-literal arms"""
    it = next((x for x in F.items if x.kind == 'macro_item' and x.name == 'macro_rules ' + name), None)
    if it is None:
        raise LostAnchor('macro %s! is gone' % name)
    t = F.text(it)
    m = re.search(r'\(\s*%s\s*\)\s*=>\s*([({])' % re.escape(arg), t)
    if not m:
        raise LostAnchor('macro %s!(%s) is gone' % (name, arg))
    depth, i = 0, m.end() - 1
    for j in range(i, len(t)):
        if t[j] in '({[':
            depth += 1
        elif t[j] in ')}]':
            depth -= 1
            if depth == 0:
                return t[i + 1:j]
    raise LostAnchor('macro %s!' % name)

def h_walk_expr(em, n):
    if em.src[n.args[0].s:n.args[0].e] in ('self', 'visitor'):
        return 'self.walk_expr(%s)' % em.e(n.args[1])
def h_walk_exprs(em, n):
    if em.src[n.args[0].s:n.args[0].e] in ('self', 'visitor'):
        return 'self.walk_exprs(%s)' % em.e(n.args[1])

def visitor(u, file, V, R, specs, default_spec=None, default_val=None, skip=(), generics=None):
    """all methods of `impl Visitor<R> for V`; specs: name -> kwargs of Unit.fn"""
    F = u.file(file)
    VF = u.file(VIS)
    im = next((i for f, i in u.impls(file, V) if re.match(r'(\w+::)*Visitor\b', i.trait or '')), None)
    if im is None:
        raise LostAnchor('impl Visitor for %s not found' % V)
    got = re.match(r'(?:\w+::)*Visitor<(.*)>$', im.trait.strip(), re.S)
    if not got or re.sub(r'\s', '', got.group(1)) != re.sub(r'\s', '', R):
        raise LostAnchor('%s is not a Visitor<%s> any more' % (V, R))
    host = impl_like(im)
    out = []
    have = {}
    for it in im.items:
        if it.kind == 'fn':
            have[it.name] = (F, it)
        elif it.kind == 'macro_item':
            m = re.match(r'(\w+)!\s*[({]\s*(\w+)\s*[)}]', F.text(it))
            P = Piece(macro_arm(VF, m.group(1), m.group(2)))
            for f in P.items:
                have[f.name] = (P, f)
    T = next((x for x in VF.items if x.kind == 'trait' and x.name == 'Visitor'), None)
    if T is None:
        raise LostAnchor('trait Visitor is gone')
    for it in T.items:
        if it.kind == 'fn' and it.name not in have and it.body is not None:
            have[it.name] = (VF, it)
    for it in VF.items:
        if it.kind == 'fn' and it.name in ('walk_expr', 'walk_exprs'):
            have[it.name] = (VF, it)
    for name, (FF, node) in have.items():
        if name in skip:
            continue
        kw = dict(specs.get(name) or (default_spec(name) if default_spec else {}))
        f = Fn(u, file, V, name, **kw)
        f.F, f.im, f.node = FF, host, node
        f.subst = [(r'\bR\b', R)] if FF is VF else []
        f.calls = dict(f.calls or {})
        f.calls.setdefault('walk_expr', h_walk_expr)
        f.calls.setdefault('walk_exprs', h_walk_exprs)
        f.calls['R::default'] = lambda em, n: default_val or '<%s as Default>::default()' % R
        if name.startswith('walk_'):
            ps = [VF.text(p) for p in node.params[1:]]
            f.params = ['&mut self'] + ps
            f.generics = ''
            f.nowhere = True
            f.path_sub = {'visitor': 'self'}
        u.out.append(f)
        u.fns.append(f)
        if u.trust_all:
            f.trusted = True
        out.append(f)
    u.drops.add('trait Visitor<%s> for %s is monomorphised: its methods and walk_expr/walk_exprs become methods of %s' % (R, V, V))
    return out

PEG = r'''
// ---- what an expression recognizes (parsing expression grammars; written from the documentation). `fuel` bounds the depth of the computation.
pub ghost enum Res { Out, Fail, Ok(Seq<char>) }
pub ghost struct Gr { pub es: Seq<Expression>, pub rs: Seq<Rule> }
pub uninterp spec fn ext(p: SynPath, s: Seq<char>) -> Option<Seq<char>>;   // external parsers
pub open spec fn in_class(c: CharacterClassExpr, x: char) -> bool { exists|k: int| 0 <= k < c.intervals@.len() && (#[trigger] c.intervals@[k]).lo <= x <= c.intervals@[k].hi }
pub open spec fn names_rule(rs: Seq<Rule>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n }
pub open spec fn rule_expr(rs: Seq<Rule>, n: Seq<char>) -> int decreases rs.len() { if rs.len() == 0 { -1 } else if rs[0].name@ == n { rs[0].expr_idx as int } else { rule_expr(rs.drop_first(), n) } }
pub open spec fn run(g: Gr, fuel: nat, i: int, s: Seq<char>) -> Res
  decreases fuel, 0nat
{
  if fuel == 0 || !(0 <= i < g.es.len()) { Res::Out } else {
    let f = (fuel - 1) as nat;
    match g.es[i] {
      StrLiteral(l) => if l@.is_prefix_of(s) { Res::Ok(s.skip(l@.len() as int)) } else { Res::Fail },
      AnySingleChar => if s.len() > 0 { Res::Ok(s.drop_first()) } else { Res::Fail },
      CharacterClass(c) => if s.len() > 0 && in_class(c, s[0]) { Res::Ok(s.drop_first()) } else { Res::Fail },
      NonTerminalSymbol(id) => run(g, f, rule_expr(g.rs, id@), s),
      ExternalNonTerminalSymbol(p) => match ext(p, s) { Some(r) => Res::Ok(r), None => Res::Fail },
      Sequence(ks) => run_seq(g, f, ks@, s),
      Choice(ks) => run_choice(g, f, ks@, s),
      ZeroOrMore(c) => run_star(g, f, c as int, s),
      OneOrMore(c) => match run(g, f, c as int, s) { Res::Ok(r) => run_star(g, f, c as int, r), x => x },
      ZeroOrOne(c) => match run(g, f, c as int, s) { Res::Fail => Res::Ok(s), x => x },
      NotPredicate(c) => match run(g, f, c as int, s) { Res::Fail => Res::Ok(s), Res::Ok(_) => Res::Fail, Res::Out => Res::Out },
      AndPredicate(c) => match run(g, f, c as int, s) { Res::Ok(_) => Res::Ok(s), x => x },
      SemanticAction(c, _, _) => run(g, f, c as int, s),
      TypeAscription(c, _) => run(g, f, c as int, s),
      SpannedExpr(c) => run(g, f, c as int, s),
      RangeExpr(c) => run(g, f, c as int, s),
    }
  }
}
pub open spec fn run_seq(g: Gr, fuel: nat, ks: Seq<usize>, s: Seq<char>) -> Res
  decreases fuel, ks.len() + 1
{ if ks.len() == 0 { Res::Ok(s) } else { match run(g, fuel, ks[0] as int, s) { Res::Ok(r) => run_seq(g, fuel, ks.drop_first(), r), x => x } } }
pub open spec fn run_choice(g: Gr, fuel: nat, ks: Seq<usize>, s: Seq<char>) -> Res
  decreases fuel, ks.len() + 1
{ if ks.len() == 0 { Res::Fail } else { match run(g, fuel, ks[0] as int, s) { Res::Fail => run_choice(g, fuel, ks.drop_first(), s), x => x } } }
pub open spec fn run_star(g: Gr, fuel: nat, c: int, s: Seq<char>) -> Res
  decreases fuel, 1nat
{ if fuel == 0 { Res::Out } else { match run(g, fuel, c, s) { Res::Ok(r) => run_star(g, (fuel - 1) as nat, c, r), Res::Fail => Res::Ok(s), Res::Out => Res::Out } } }

// more fuel does not change a result
pub proof fn lemma_fuel(g: Gr, f: nat, h: nat, i: int, s: Seq<char>)
  requires f <= h, run(g, f, i, s) != Res::Out
  ensures run(g, h, i, s) == run(g, f, i, s)
  decreases f, 0nat
{
  if 0 <= i < g.es.len() && f > 0 {
    let a = (f - 1) as nat; let b = (h - 1) as nat;
    match g.es[i] {
      NonTerminalSymbol(id) => lemma_fuel(g, a, b, rule_expr(g.rs, id@), s),
      Sequence(ks) => lemma_fuel_seq(g, a, b, ks@, s),
      Choice(ks) => lemma_fuel_choice(g, a, b, ks@, s),
      ZeroOrMore(c) => lemma_fuel_star(g, a, b, c as int, s),
      OneOrMore(c) => { lemma_fuel(g, a, b, c as int, s); match run(g, a, c as int, s) { Res::Ok(r) => lemma_fuel_star(g, a, b, c as int, r), _ => {} } },
      ZeroOrOne(c) => lemma_fuel(g, a, b, c as int, s), NotPredicate(c) => lemma_fuel(g, a, b, c as int, s), AndPredicate(c) => lemma_fuel(g, a, b, c as int, s),
      SemanticAction(c, _, _) => lemma_fuel(g, a, b, c as int, s), TypeAscription(c, _) => lemma_fuel(g, a, b, c as int, s), SpannedExpr(c) => lemma_fuel(g, a, b, c as int, s), RangeExpr(c) => lemma_fuel(g, a, b, c as int, s),
      _ => {},
    }
  }
}
pub proof fn lemma_fuel_seq(g: Gr, f: nat, h: nat, ks: Seq<usize>, s: Seq<char>)
  requires f <= h, run_seq(g, f, ks, s) != Res::Out ensures run_seq(g, h, ks, s) == run_seq(g, f, ks, s)
  decreases f, ks.len() + 1
{ if ks.len() > 0 { lemma_fuel(g, f, h, ks[0] as int, s); match run(g, f, ks[0] as int, s) { Res::Ok(r) => lemma_fuel_seq(g, f, h, ks.drop_first(), r), _ => {} } } }
pub proof fn lemma_fuel_choice(g: Gr, f: nat, h: nat, ks: Seq<usize>, s: Seq<char>)
  requires f <= h, run_choice(g, f, ks, s) != Res::Out ensures run_choice(g, h, ks, s) == run_choice(g, f, ks, s)
  decreases f, ks.len() + 1
{ if ks.len() > 0 { lemma_fuel(g, f, h, ks[0] as int, s); match run(g, f, ks[0] as int, s) { Res::Fail => lemma_fuel_choice(g, f, h, ks.drop_first(), s), _ => {} } } }
pub proof fn lemma_fuel_star(g: Gr, f: nat, h: nat, c: int, s: Seq<char>)
  requires f <= h, run_star(g, f, c, s) != Res::Out ensures run_star(g, h, c, s) == run_star(g, f, c, s)
  decreases f, 1nat
{ if f > 0 { lemma_fuel(g, f, h, c, s); match run(g, f, c, s) { Res::Ok(r) => lemma_fuel_star(g, (f - 1) as nat, (h - 1) as nat, c, r), _ => {} } } }
'''

# rules by name (the same text as in PEG, for units that do not speak of what an expression recognizes)
RULES = ''.join(l + '\n' for l in PEG.split('\n') if re.match(r'pub open spec fn (names_rule|rule_expr)\b', l)) + r'''pub proof fn lemma_rule(rs: Seq<Rule>, n: Seq<char>) requires names_rule(rs, n) ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n && rule_expr(rs, n) == rs[k].expr_idx && forall|j: int| 0 <= j < k ==> (#[trigger] rs[j]).name@ != n decreases rs.len()
{
  let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).name@ == n;
  if rs[0].name@ != n {
    let t = rs.drop_first(); assert(t[k - 1] == rs[k]); lemma_rule(t, n);
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).name@ == n && rule_expr(t, n) == t[j].expr_idx && forall|m: int| 0 <= m < j ==> (#[trigger] t[m]).name@ != n;
    assert(rs[j + 1] == t[j]);
    assert forall|m: int| 0 <= m < j + 1 implies (#[trigger] rs[m]).name@ != n by { if m > 0 { assert(t[m - 1] == rs[m]); } }
  }
}
'''
