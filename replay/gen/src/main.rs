//! Runs parsers generated by `oak!` (from the grammars lib/gen.py writes into src/gNNN.rs) on inputs from stdin.
#![feature(proc_macro_hygiene)]
#![allow(warnings)]
use oak_runtime::str_stream::StrStream;
use oak_runtime::*;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

include!("mods.rs");

/// What a value looks like. Actions of the grammars return `<name(args)>` as a String.
pub trait Show { fn show(&self) -> String; }
impl Show for () { fn show(&self) -> String { "()".into() } }
impl Show for char { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for String { fn show(&self) -> String { self.clone() } }
impl<T: Show> Show for Box<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } } }
impl Show for Span { fn show(&self) -> String { format!("span({}..{})", self.lo.0, self.hi.0) } }
impl<'a> Show for std::ops::Range<StrStream<'a>> { fn show(&self) -> String { format!("range({}..{})", self.start.bytes_offset(), self.end.bytes_offset()) } }
macro_rules! tup { ($($t:ident),*) => { impl<$($t: Show),*> Show for ($($t,)*) { #[allow(non_snake_case)] fn show(&self) -> String { let ($(ref $t,)*) = *self; format!("({})", vec![$($t.show()),*].join(", ")) } } } }
tup!(A, B); tup!(A, B, C); tup!(A, B, C, D); tup!(A, B, C, D, E); tup!(A, B, C, D, E, F); tup!(A, B, C, D, E, F, G); tup!(A, B, C, D, E, F, G, H); tup!(A, B, C, D, E, F, G, H, I); tup!(A, B, C, D, E, F, G, H, I, J); tup!(A, B, C, D, E, F, G, H, I, J, K); tup!(A, B, C, D, E, F, G, H, I, J, K, L); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S); tup!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T);
pub fn act(name: &str, args: Vec<String>) -> String { format!("<{}({})>", name, args.join(",")) }

/// what actions that are paths name
pub struct Node;
impl Node {
  pub fn f0() -> String { act("Node::f0", vec![]) }
  pub fn f1<A: Show>(a: A) -> String { act("Node::f1", vec![a.show()]) }
}
pub mod node {
  use super::*;
  pub fn f0() -> String { act("node::f0", vec![]) }
  pub fn f2<A: Show, B: Show>(a: A, b: B) -> String { act("node::f2", vec![a.show(), b.show()]) }
  pub struct Kind;
  impl Show for Kind { fn show(&self) -> String { act("Kind", vec![]) } }
}
pub use node::Kind;
pub enum Enum { Left, Right }
impl Show for Enum { fn show(&self) -> String { act(match self { Enum::Left => "Enum::Left", Enum::Right => "Enum::Right" }, vec![]) } }
pub struct Wrap(pub char);
impl Show for Wrap { fn show(&self) -> String { act("Wrap", vec![self.0.show()]) } }

fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect() }

pub fn run<'a, T: Show>(s: &'a str, p: fn(ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, T>) -> String {
  let r = catch_unwind(AssertUnwindSafe(|| {
    let state = p(ParseState::new(s.stream()));
    let mut exp: Vec<String> = state.expected.iter().map(|x| esc(x)).collect();
    exp.sort();
    exp.dedup();
    let data = match &state.data { Some(d) => esc(&d.show()), None => "-".into() };
    let head = format!("{}\t{}\t{}\t{}\t{}", !state.failed, state.current.bytes_offset(), state.farthest_read.bytes_offset(), exp.join("\x02"), data);
    let kind = match state.into_result() { ParseResult::Success(_) => "full", ParseResult::Partial(..) => "partial", ParseResult::Failure(_) => "failure" };
    format!("{}\t{}", head, kind)
  }));
  r.unwrap_or_else(|e| format!("panic {}", esc(&e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let h = std::thread::Builder::new().stack_size(512 << 20).spawn(|| {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let out = std::io::stdout();
    let mut out = std::io::LineWriter::new(out.lock());
    for l in s.split('\x01') {
      if l.is_empty() { continue }
      let (k, text) = l.split_once('\x02').unwrap();
      writeln!(out, "{}", dispatch(k.parse().unwrap(), text)).unwrap();
    }
    out.flush().unwrap();
  }).unwrap();
  if h.join().is_err() { std::process::exit(3); }
}
