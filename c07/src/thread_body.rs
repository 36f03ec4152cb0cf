//! What a thread does with the shared context. Every letter of a program is one operation.
use crate::node::*;
use std::collections::BTreeMap;
use ttgraph::*;

pub struct Out {
  /// every index handed out, in order
  pub handed: Vec<NodeIndex>,
  /// what must be in the graph
  pub nodes: BTreeMap<NodeIndex, usize>,
  pub graph: G,
}

pub fn body(ctx: &Context, k: usize, prog: &str) -> Out {
  let mut g = G::new(ctx);
  let mut out: Vec<NodeIndex> = Vec::new();
  let mut nodes: BTreeMap<NodeIndex, usize> = BTreeMap::new();
  let mut open: BTreeMap<NodeIndex, usize> = BTreeMap::new();
  let mut own = ctx.clone();
  let mut t = Transaction::new(&own);
  for (n, c) in prog.chars().enumerate() {
    let d = 10000 * (k + 1) + 100 * n;
    match c {
      'I' => {
        let i = t.insert(a(d));
        out.push(i);
        open.insert(i, d);
      },
      'B' => {
        let i = t.alloc(NDiscriminant::B);
        t.fill_back(i, b(d));
        out.push(i);
        open.insert(i, d);
      },
      'U' => {
        let i = t.alloc_untyped();
        t.fill_back_untyped(i, b(d));
        out.push(i);
        open.insert(i, d);
      },
      // a graph moves in from another context
      'S' => {
        let m = foreign(d).switch_context(&own);
        for (i, n) in m.iter() {
          out.push(i);
          open.insert(i, data(n));
        }
        t.merge(m);
      },
      // commit, go on with a new transaction
      'C' => {
        g.commit(std::mem::replace(&mut t, Transaction::new(&own)));
        nodes.append(&mut open);
      },
      'G' => {
        std::mem::replace(&mut t, Transaction::new(&own)).give_up();
        open.clear();
      },
      // a node made and removed again
      'R' => {
        let i = t.insert(a(d));
        out.push(i);
        t.remove(i);
      },
      // go on with a clone of the context
      'N' => {
        own = own.clone();
        g.commit(std::mem::replace(&mut t, Transaction::new(&own)));
        nodes.append(&mut open);
      },
      'X' => {
        for j in 0..3 {
          let i = t.insert(b(d + j));
          out.push(i);
          open.insert(i, d + j);
        }
      },
      _ => panic!("HARNESS: no operation {}", c),
    }
  }
  g.commit(t);
  nodes.append(&mut open);
  Out { handed: out, nodes, graph: g }
}

/// All indexes differ, none is empty, and every node is found under its own.
pub fn judge(ctx: &Context, outs: Vec<Out>) -> Result<(), String> {
  let mut seen: BTreeMap<NodeIndex, (usize, usize)> = BTreeMap::new();
  for (k, o) in outs.iter().enumerate() {
    for (n, i) in o.handed.iter().enumerate() {
      if i.is_empty() {
        return Err(format!("thread {} got the empty index", k));
      }
      if let Some((k2, n2)) = seen.insert(*i, (k, n)) {
        return Err(format!("index {} was handed out twice: to thread {} (as its number {}) and to thread {} (as its number {})", i.0, k2, n2, k, n));
      }
    }
    let got = content(&o.graph);
    if got != o.nodes {
      return Err(format!("thread {} has the graph {:?}, expected {:?}", k, got, o.nodes));
    }
  }
  // all of it fits into one graph
  let mut g = G::new(ctx);
  let mut want = BTreeMap::new();
  for o in outs {
    want.extend(o.nodes);
    let mut t = Transaction::new(ctx);
    t.merge(o.graph);
    g.commit(t);
  }
  if content(&g) != want || g.len() != want.len() {
    return Err(format!("merged: {:?}, expected {:?}", content(&g), want));
  }
  let mut t = Transaction::new(ctx);
  let i = t.insert(a(1));
  if i.is_empty() || seen.contains_key(&i) {
    return Err(format!("index {} is handed out again afterwards", i.0));
  }
  g.commit(t);
  Ok(())
}
