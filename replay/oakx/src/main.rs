// The root of a scratch crate that holds /repo/src/liboak (copied on every run by lib/oakx.py, which drops the
// `proc_macro` entry point and sends diagnostics to `vx_shim` instead of rustc) and prints what it does with grammars.
#![allow(warnings)]
extern crate partial;
extern crate syn;
extern crate quote;
extern crate proc_macro2;

mod ast;
mod visitor;
mod front;
mod middle;
mod back;
mod identifier;

pub mod vx_shim {
  use std::cell::RefCell;
  pub struct Diag { pub level: &'static str, pub msg: String, pub span: VSpan, pub notes: Vec<(VSpan, String)> }
  thread_local!(pub static DIAGS: RefCell<Vec<Diag>> = RefCell::new(vec![]));
  #[derive(Clone, Copy)]
  pub struct VSpan(pub (usize, usize), pub (usize, usize));
  pub trait VxUnstable: Sized { fn vx_unstable(&self) -> VSpan; fn vx_join(self, o: Self) -> Option<Self>; }
  impl VxUnstable for ::proc_macro2::Span {
    fn vx_unstable(&self) -> VSpan {
      let (a, b) = (self.start(), self.end());
      VSpan((a.line, a.column), (b.line, b.column))
    }
    fn vx_join(self, o: Self) -> Option<Self> { self.join(o).or(Some(self)) }
  }
  impl VSpan {
    pub fn error<T: Into<String>>(self, m: T) -> Diag { Diag { level: "error", msg: m.into(), span: self, notes: vec![] } }
    pub fn warning<T: Into<String>>(self, m: T) -> Diag { Diag { level: "warning", msg: m.into(), span: self, notes: vec![] } }
  }
  impl Diag {
    pub fn span_note<T: Into<String>>(mut self, s: VSpan, m: T) -> Diag { self.notes.push((s, m.into())); self }
    pub fn note<T: Into<String>>(mut self, m: T) -> Diag { let s = self.span; self.notes.push((s, m.into())); self }
    pub fn emit(self) { DIAGS.with(|d| d.borrow_mut().push(self)) }
  }
}

use std::io::{Read, Write};
use ast::*;
use ast::Expression::*;
use quote::ToTokens;

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 || c as u32 > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } }
      c => o.push(c)
    }
  }
  o.push('"');
  o
}

fn ity(t: &IType) -> String {
  match t {
    IType::Infer => "[\"infer\"]".to_string(),
    IType::Rec(_) => "[\"rec\"]".to_string(),
    IType::Invisible => "[\"invisible\"]".to_string(),
    IType::External => "[\"external\"]".to_string(),
    IType::Regular(t) => ty(t)
  }
}
fn ty(t: &Type) -> String {
  match t {
    Type::Unit => "[\"unit\"]".to_string(),
    Type::Atom => "[\"atom\"]".to_string(),
    Type::Optional(i) => format!("[\"opt\",{}]", i),
    Type::List(i) => format!("[\"list\",{}]", i),
    Type::Tuple(v) => format!("[\"tuple\",{:?}]", v),
    Type::Rust(t) => format!("[\"rust\",{}]", js(&t.to_token_stream().to_string()))
  }
}
fn expr(e: &Expression) -> String {
  match e {
    StrLiteral(s) => format!("[\"str\",{}]", js(s)),
    AnySingleChar => "[\"any\"]".to_string(),
    CharacterClass(c) => format!("[\"class\",[{}]]", c.intervals.iter().map(|i| format!("[{},{}]", i.lo as u32, i.hi as u32)).collect::<Vec<_>>().join(",")),
    NonTerminalSymbol(i) => format!("[\"nt\",{}]", js(&i.to_string())),
    ExternalNonTerminalSymbol(p) => format!("[\"ext\",{}]", js(&p.to_token_stream().to_string())),
    Sequence(v) => format!("[\"seq\",{:?}]", v),
    Choice(v) => format!("[\"choice\",{:?}]", v),
    ZeroOrMore(i) => format!("[\"star\",{}]", i),
    OneOrMore(i) => format!("[\"plus\",{}]", i),
    ZeroOrOne(i) => format!("[\"opt\",{}]", i),
    NotPredicate(i) => format!("[\"not\",{}]", i),
    AndPredicate(i) => format!("[\"and\",{}]", i),
    SemanticAction(i, b, a) => format!("[\"action\",{},{},{}]", i, b, js(&a.to_token_stream().to_string())),
    TypeAscription(i, t) => format!("[\"ty\",{},{}]", i, ity(t)),
    SpannedExpr(i) => format!("[\"span\",{}]", i),
    RangeExpr(i) => format!("[\"range\",{}]", i),
  }
}
fn rules(r: &Vec<Rule>) -> String {
  format!("[{}]", r.iter().map(|r| format!("[{},{}]", js(&r.name.to_string()), r.expr_idx)).collect::<Vec<_>>().join(","))
}
fn exprs(r: &Vec<Expression>) -> String {
  format!("[{}]", r.iter().map(|e| expr(e)).collect::<Vec<_>>().join(","))
}
fn spans<I: Iterator<Item = proc_macro2::Span>>(i: I) -> String {
  use vx_shim::VxUnstable;
  format!("[{}]", i.map(|s| sp(&s.vx_unstable())).collect::<Vec<_>>().join(","))
}
fn sp(s: &vx_shim::VSpan) -> String { format!("[{},{},{},{}]", (s.0).0, (s.0).1, (s.1).0, (s.1).1) }

fn diags() -> String {
  vx_shim::DIAGS.with(|d| {
    let v: Vec<_> = d.borrow().iter().map(|d| format!("{{\"level\":{},\"msg\":{},\"span\":{},\"notes\":[{}]}}", js(d.level), js(&d.msg), sp(&d.span),
      d.notes.iter().map(|n| format!("[{},{}]", sp(&n.0), js(&n.1))).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", v.join(","))
  })
}

// The fields of the answer, written as they come: what is known is not lost when the compiler does not come back.
struct Out(bool);
impl Out {
  fn push(&mut self, s: String) {
    if self.0 { print!(","); }
    self.0 = true;
    print!("{}", s);
    std::io::stdout().flush().unwrap();
  }
}

fn one(text: &str) {
  let mut o = Out(false);
  print!("{{");
  vx_shim::DIAGS.with(|d| d.borrow_mut().clear());
  let panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    match syn::parse_str::<front::ast::FGrammar>(text) {
      Err(e) => { o.push(format!("\"syntax_error\":{}", js(&e.to_string()))); }
      Ok(g) => {
        o.push(format!("\"front\":{{\"rules\":{},\"exprs\":{},\"spans\":{}}}", rules(&g.rules), exprs(&g.exprs), spans(g.exprs_info.iter().map(|i| i.span))));
        // the analyses on their own, with their own diagnostics
        let fg = syn::parse_str::<front::ast::FGrammar>(text).unwrap();
        if fg.rules.len() > 0 {
          let a = match middle::analysis::analyse(fg) {
            Partial::Value(g) => format!("\"value\",\"rules\":{},\"exprs\":{}", rules(&g.rules), exprs(&g.exprs)),
            Partial::Fake(g) => format!("\"fake\",\"rules\":{},\"exprs\":{}", rules(&g.rules), exprs(&g.exprs)),
            Partial::Nothing => "\"nothing\"".to_string() };
          o.push(format!("\"analysis\":{{\"kind\":{},\"diags\":{}}}", a, diags()));
        }
        vx_shim::DIAGS.with(|d| d.borrow_mut().clear());
        let t = middle::typecheck(g);
        o.push(format!("\"typing_diags\":{}", diags()));
        o.push(format!("\"typed\":{{\"rules\":{},\"exprs\":{},\"types\":[{}],\"functions\":{:?}}}", rules(&t.rules), exprs(&t.exprs),
          t.exprs_info.iter().map(|i| ty(&i.ty)).collect::<Vec<_>>().join(","),
          { let mut v = t.rust_functions.keys().map(|k| k.to_string()).collect::<Vec<_>>(); v.sort(); v }));
        let code = back::compile(t).to_string();
        o.push(format!("\"code\":{}", js(&code)));
      }
    }
  }));
  if let Err(e) = panicked {
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    o.push(format!("\"panic\":{}", js(&m)));
  }
  o.push(format!("\"diags\":{}", diags()));
  println!("}}");
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut s = String::new();
  std::io::stdin().read_to_string(&mut s).unwrap();
  // grammars are separated by a line that holds "\u{1}" alone
  let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    for g in s.split("\n\u{1}\n") {
      one(g);
    }
  }).unwrap();
  h.join().unwrap();
}
