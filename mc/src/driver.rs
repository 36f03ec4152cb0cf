//! Executes label-level histories on the real crate.
use crate::desc::*;
use crate::model::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use ttgraph::*;

pub struct Run<S: Schema> {
  pub desc: std::sync::Arc<Desc>,
  pub ctx: Context,
  pub graph: Graph<S::N>,
  pub map: BTreeMap<L, NodeIndex>,
  pub rev: HashMap<NodeIndex, L>,
  /// indexes handed out twice, or empty, seen while driving
  pub index_fault: Option<String>,
  /// contexts are made by Default
  pub default_ctx: bool,
  /// nodes whose index is not known yet (label, data)
  pub pending: Vec<(L, u32)>,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".into()
  }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

impl<S: Schema> Run<S> {
  pub fn new(desc: &std::sync::Arc<Desc>) -> Self {
    let ctx = Context::new();
    let graph = Graph::<S::N>::new(&ctx);
    Run { desc: desc.clone(), ctx, graph, map: BTreeMap::new(), rev: HashMap::new(), index_fault: None, default_ctx: false, pending: Vec::new() }
  }
  pub fn idx(&self, l: L) -> NodeIndex {
    if l == EMPTY {
      NodeIndex::empty()
    } else if l >= ALIEN {
      NodeIndex(1_000_000 + l as usize)
    } else {
      *self.map.get(&l).unwrap_or_else(|| panic!("harness: label {} has no index", l))
    }
  }
  pub fn label(&self, i: NodeIndex) -> L {
    if i.is_empty() {
      EMPTY
    } else {
      self.rev.get(&i).copied().unwrap_or(ALIEN + (i.0 % 5000) as L)
    }
  }
  pub fn bind(&mut self, l: L, i: NodeIndex) {
    if i.is_empty() {
      self.index_fault = Some(format!("label {} got the empty index", l));
    }
    if let Some(o) = self.rev.get(&i) {
      if *o != l {
        self.index_fault = Some(format!("labels {} and {} got the same index {}", o, l, i));
      }
    }
    self.map.insert(l, i);
    self.rev.insert(i, l);
  }
  pub fn rnode(&self, n: &MNode) -> RNode {
    n.map(&self.desc, |l| self.idx(l))
  }
  pub fn mnode(&self, n: &RNode) -> MNode {
    n.map(&self.desc, |i| self.label(i))
  }
  /// Find the nodes that went in without telling their index.
  pub fn settle(&mut self) {
    for (l, d) in std::mem::take(&mut self.pending) {
      let found: Vec<NodeIndex> = self.graph.iter().filter(|(i, n)| !self.rev.contains_key(i) && S::read(n).data == d).map(|x| x.0).collect();
      match found.first() {
        Some(i) => self.bind(l, *i),
        None => self.pending.push((l, d)),
      }
    }
  }
  /// The graph as seen through `get` on every index handed out so far.
  pub fn state(&self) -> MState {
    let mut s = MState::new();
    for (l, i) in &self.map {
      if let Some(n) = self.graph.get(*i) {
        s.insert(*l, self.mnode(&S::read(n)));
      }
    }
    s
  }
  pub fn edit(&self, e: &Edit<L>) -> Edit<NodeIndex> {
    e.map(&self.desc, |l| self.idx(l))
  }
  /// Perform one call on a transaction.
  pub fn op(&mut self, t: &mut Transaction<'static, S::N>, op: &Op) {
    match op {
      Op::Insert(l, n) => {
        let i = t.insert(S::build(&self.rnode(n)));
        self.bind(*l, i);
      },
      Op::Alloc(l, v) => {
        let i = if l % 2 == 0 { t.alloc(S::disc(*v)) } else { S::alloc_node(t, *v) };
        self.bind(*l, i);
      },
      Op::AllocU(l) => {
        let i = t.alloc_untyped();
        self.bind(*l, i);
      },
      Op::Fill(l, n) => {
        let (i, n) = (self.idx(*l), S::build(&self.rnode(n)));
        t.fill_back(i, n)
      },
      Op::FillU(l, n) => {
        let (i, n) = (self.idx(*l), S::build(&self.rnode(n)));
        t.fill_back_untyped(i, n)
      },
      Op::Remove(l) => t.remove(self.idx(*l)),
      Op::Mutate(l, Edit::IfVar(v, form)) => S::mut_node(t, *v, self.idx(*l), if_var_data(2).1, *form),
      Op::Update(l, Edit::IfVar(v, form)) => S::update_node(t, *v, self.idx(*l), if_var_data(2).1, *form),
      Op::Extend(ns) => {
        let v: Vec<S::N> = ns.iter().map(|(_, n)| S::build(&self.rnode(n))).collect();
        self.pending.extend(ns.iter().map(|(l, n)| (*l, n.data)));
        t.extend(v);
      },
      Op::Mutate(l, e) => {
        let e = self.edit(e);
        let d = self.desc.clone();
        t.mutate(self.idx(*l), move |n| {
          let mut r = S::read(n);
          e.apply(&d, &mut r);
          *n = S::build(&r);
        })
      },
      Op::Update(l, e) => {
        let e = self.edit(e);
        let d = self.desc.clone();
        t.update(self.idx(*l), move |n| {
          let mut r = S::read(&n);
          e.apply(&d, &mut r);
          S::build(&r)
        })
      },
      Op::Redirect(a, b) => t.redirect_links(self.idx(*a), self.idx(*b)),
      Op::RedirectAll(a, b) => t.redirect_all_links(self.idx(*a), self.idx(*b)),
      Op::Merge(ns) => {
        let mut g = Graph::<S::N>::new(&self.ctx);
        let mut t2 = Transaction::new(&self.ctx);
        for (l, n) in ns {
          let i = t2.alloc(S::disc(n.var));
          self.bind(*l, i);
        }
        for (l, n) in ns {
          t2.fill_back(self.idx(*l), S::build(&self.rnode(n)));
        }
        g.commit(t2);
        t.merge(g);
      },
    }
  }
  pub fn begin(&self) -> Transaction<'static, S::N> {
    // a clone is the same context
    Transaction::new(&self.ctx.clone())
  }
  pub fn new_ctx(&self) -> Context {
    if self.default_ctx {
      Context::default()
    } else {
      Context::new()
    }
  }
  /// Start over with a context made by Default.
  pub fn use_default(&mut self) {
    self.default_ctx = true;
    self.ctx = self.new_ctx();
    self.graph = Graph::new(&self.ctx);
  }
  /// Record and commit a transaction; Err carries the panic message.
  pub fn txn(&mut self, ops: &[Op]) -> Result<(), String> {
    guard(|| {
      let mut t = self.begin();
      for o in ops {
        self.op(&mut t, o);
      }
      self.graph.commit(t);
    })
  }
}

/// Full outcome of the model for one transaction.
pub fn model_txn(desc: &Desc, before: &MState, ops: &[Op]) -> Outcome {
  let mut t = Txn::default();
  for o in ops {
    if let Err(e) = t.op(desc, o) {
      return e;
    }
  }
  t.commit(desc, before)
}
