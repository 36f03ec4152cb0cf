use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use ttgraph::*;

#[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
pub struct A {
  pub d: usize,
  pub l: NodeIndex,
}
#[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
pub struct B {
  pub d: usize,
  pub ls: BTreeSet<NodeIndex>,
}
node_enum! {
  #[derive(Debug, Clone, Serialize, Deserialize)]
  pub enum N {
    A(A),
    B(B),
  }
}
pub type G = Graph<N>;
pub fn a(d: usize) -> N {
  N::A(A { d, l: NodeIndex::empty() })
}
pub fn b(d: usize) -> N {
  N::B(B { d, ls: BTreeSet::new() })
}
pub fn data(n: &N) -> usize {
  match n {
    N::A(x) => x.d,
    N::B(x) => x.d,
  }
}
pub fn content(g: &G) -> BTreeMap<NodeIndex, usize> {
  g.iter().map(|(i, n)| (i, data(n))).collect()
}
/// A graph of a context of its own, with two nodes that link to each other.
pub fn foreign(d: usize) -> G {
  // of no interest to the other threads
  #[cfg(ttgraph_mc)]
  return ttstd::sched::atomically(|| foreign_graph(d));
  #[cfg(not(ttgraph_mc))]
  foreign_graph(d)
}
fn foreign_graph(d: usize) -> G {
  let ctx = Context::new();
  let mut g = G::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let x = t.alloc_untyped();
  let y = t.insert(N::B(B { d: d + 1, ls: [x].into() }));
  t.fill_back_untyped(x, N::A(A { d, l: y }));
  g.commit(t);
  g
}
