//! Executes histories on the real crate, judges every step, and collects coverage.
use crate::desc::*;
use crate::driver::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ttgraph::serialize::{deserialize_graph, GraphSerializer};
use ttgraph::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
  Txn(Vec<Op>),
  /// commit_checked with recording checks
  Checked(Vec<Op>),
  /// commit_checked where the n-th call of a kind of check (0 node, 1 link add, 2 link remove; +3 for the second one) fails
  CheckedFail(Vec<Op>, u8, u16),
  GiveUp(Vec<Op>),
  Dropped(Vec<Op>),
  /// commit a transaction made from another context
  Foreign(Vec<Op>),
  Switch { skip: u16 },
  Serde,
  /// build another graph in its own context, switch it to this context, merge it
  Adopt { nodes: Vec<(L, MNode)>, skip: u16 },
  /// as Adopt, but without switching the context: must be refused
  AdoptForeign { nodes: Vec<(L, MNode)> },
  /// build another graph in the same context by its own transactions, then merge it along with `ops`
  MergeWith { nodes: Vec<(L, MNode)>, ops: Vec<Op> },
  /// use up indexes of the context
  Burn(u32),
  /// make contexts by Default (only as the first step)
  UseDefault,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
  pub schema: String,
  /// indexes of the context used up before the history starts
  pub burn: u32,
  pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Calls {
  pub node: Vec<(L, MNode)>,
  pub add: Vec<(L, L, MNode, Option<MNode>)>,
  pub remove: Vec<(L, L, MNode, Option<MNode>)>,
}

pub struct Rec<'a> {
  pub desc: &'a Desc,
  pub step: &'a Step,
  pub before: &'a MState,
  pub expect: &'a Outcome,
  pub got: &'a Result<(), String>,
  /// meaningless after a panic
  pub after: &'a MState,
  /// graph.len() after the step
  pub len: usize,
  pub calls: &'a Option<[Calls; 2]>,
  /// result of the graph's own back link check (None: not run)
  pub backlinks: &'a Option<Result<(), String>>,
  /// the graph's own check that all links are internal passes (None: not run)
  pub integrity: Option<bool>,
  /// disagreements between the views of the graph
  pub views: &'a Option<String>,
  /// what the nodes tell about the declarations, against the declarations
  pub decls: &'a Option<String>,
  pub index_fault: &'a Option<String>,
}

#[derive(Clone, Copy, Default)]
pub struct Observe {
  pub backlinks: bool,
  pub views: bool,
  pub decls: bool,
}

pub type Judge = fn(&Rec) -> Option<String>;

fn relabel_by_data<S: Schema>(run: &Run<S>, before: &MState, graph: &Graph<S::N>) -> Result<BTreeMap<L, NodeIndex>, String> {
  let mut by_data: BTreeMap<u32, L> = BTreeMap::new();
  for (l, n) in before {
    if by_data.insert(n.data, *l).is_some() {
      return Err("harness: data not unique".into());
    }
  }
  let mut m = BTreeMap::new();
  for (i, n) in graph.iter() {
    let d = S::read(n).data;
    match by_data.get(&d) {
      Some(l) => {
        if let Some(o) = m.insert(*l, i) {
          return Err(format!("node {} appears twice ({} and {})", l, o, i));
        }
      },
      None => return Err(format!("a node with data {} that was not there before", d)),
    }
  }
  let _ = run;
  Ok(m)
}

/// Every view of the graph against `get`.
pub fn views<S: Schema>(run: &Run<S>, st: &MState) -> Option<String> {
  let g = &run.graph;
  let d = &run.desc;
  let want: BTreeSet<NodeIndex> = st.keys().map(|l| run.idx(*l)).collect();
  let set = |what: &str, v: Vec<NodeIndex>, want: &BTreeSet<NodeIndex>| -> Option<String> {
    let s: BTreeSet<NodeIndex> = v.iter().copied().collect();
    if s.len() != v.len() {
      return Some(format!("{} lists an index twice: {:?}", what, v));
    }
    if s != *want {
      return Some(format!("{} lists {:?}, get knows {:?}", what, s, want));
    }
    None
  };
  if g.len() != st.len() {
    return Some(format!("len() is {} with {} nodes", g.len(), st.len()));
  }
  if g.is_empty() != st.is_empty() {
    return Some("is_empty() is wrong".into());
  }
  if g.get(NodeIndex::empty()).is_some() {
    return Some("get(empty) finds a node".into());
  }
  let mut items = Vec::new();
  let mut it = g.iter();
  let mut left = st.len();
  loop {
    if it.len() != left || it.size_hint() != (left, Some(left)) {
      return Some(format!("iter() reports {:?} with {} items left", it.size_hint(), left));
    }
    match it.next() {
      Some((i, n)) => {
        if left == 0 {
          return Some("iter() yields more than it reported".into());
        }
        left -= 1;
        if run.mnode(&S::read(n)) != *st.get(&run.label(i)).unwrap_or(&MNode { var: 255, links: vec![], data: 0 }) {
          return Some(format!("iter() yields another node for {}", i));
        }
        items.push(i);
      },
      None => break,
    }
  }
  if left != 0 {
    return Some(format!("iter() stops with {} items left", left));
  }
  if it.next().is_some() {
    return Some("iter() yields again after its end".into());
  }
  if let Some(e) = set("iter()", items, &want) {
    return Some(e);
  }
  if let Some(e) = set("&graph", (&run.graph).into_iter().map(|x| x.0).collect(), &want) {
    return Some(e);
  }
  for v in 0..d.vars.len() as u8 {
    let want: BTreeSet<NodeIndex> = st.iter().filter(|(_, n)| n.var == v).map(|(l, _)| run.idx(*l)).collect();
    let it = g.iter_type(S::disc(v));
    if it.len() != want.len() {
      return Some(format!("iter_type({}) reports {} items, there are {}", d.vars[v as usize].name, it.len(), want.len()));
    }
    let mut r = Vec::new();
    for (i, n) in it {
      if S::read(n).var != v {
        return Some(format!("iter_type({}) yields a node of another type", d.vars[v as usize].name));
      }
      r.push(i);
    }
    if let Some(e) = set(&format!("iter_type({})", d.vars[v as usize].name), r, &want) {
      return Some(e);
    }
    match guard(|| S::iter_nodes(g, v)) {
      Ok(r) => {
        for (i, x) in &r {
          if st.get(&run.label(*i)).map(|n| n.data) != Some(*x) {
            return Some(format!("iter_nodes!({}) yields wrong data for {}", d.vars[v as usize].name, i));
          }
        }
        if let Some(e) = set(&format!("iter_nodes!({})", d.vars[v as usize].name), r.into_iter().map(|x| x.0).collect(), &want) {
          return Some(e);
        }
      },
      Err(e) => return Some(format!("iter_nodes!({}) panics: {}", d.vars[v as usize].name, e)),
    }
    for (l, i) in &run.map {
      let w = st.get(l).filter(|n| n.var == v).map(|n| n.data);
      if S::get_node(g, v, *i) != w {
        return Some(format!("get_node!({}) of {} gives {:?}", d.vars[v as usize].name, l, S::get_node(g, v, *i)));
      }
    }
  }
  for (name, vs) in &d.groups {
    let want: BTreeSet<NodeIndex> = st.iter().filter(|(_, n)| vs.contains(&n.var)).map(|(l, _)| run.idx(*l)).collect();
    if let Some(e) = set(&format!("iter_group({})", name), g.iter_group(name).map(|x| x.0).collect(), &want) {
      return Some(e);
    }
  }
  if g.iter_group("no such group").next().is_some() {
    return Some("iter_group of an undeclared group yields nodes".into());
  }
  for (l, n) in st {
    let node = g.get(run.idx(*l)).unwrap();
    for (name, vs) in &d.groups {
      if node.in_group(name) != vs.contains(&n.var) {
        return Some(format!("in_group({}) is wrong for {}", name, l));
      }
    }
  }
  None
}

/// What is known of a schema's links: the link type of every (variant, field), by the nodes' own reflection.
struct LinkTypes<N: NodeEnum> {
  base: u8,
  of: BTreeMap<(u8, u8), N::LinkMirrorEnum>,
}
fn link_types<S: Schema>(d: &Desc) -> LinkTypes<S::N> {
  let mut of = BTreeMap::new();
  for v in 0..d.vars.len() as u8 {
    let n = RNode { var: v, links: (0..d.nfields(v)).map(|f| vec![NodeIndex(900 + f)]).collect(), data: 1 };
    for (i, src) in S::build(&n).iter_sources() {
      of.insert((v, (i.0 - 900) as u8), S::N::to_link_mirror_enum(src));
    }
  }
  LinkTypes { base: base(), of }
}

/// The declared pairs and link types, as the nodes report them.
pub fn decls<S: Schema>(run: &Run<S>, st: &MState) -> Option<String> {
  let d = &run.desc;
  thread_local! {
    static KNOWN: RefCell<Option<(&'static str, Rc<dyn std::any::Any>)>> = const { RefCell::new(None) };
  }
  let known = KNOWN.with(|k| {
    let mut k = k.borrow_mut();
    let name = d.name;
    if let Some((n, l)) = &*k {
      if let Ok(l) = l.clone().downcast::<LinkTypes<S::N>>() {
        if *n == name && l.base == base() {
          return l;
        }
      }
    }
    let l = Rc::new(link_types::<S>(d));
    *k = Some((name, l.clone()));
    l
  });
  let say = |v: u8, f: u8| format!("{}.{}", d.vars[v as usize].name, d.vars[v as usize].fields[f as usize].name);
  for (l, m) in st {
    let node = run.graph.get(run.idx(*l)).unwrap();
    let mut want: Vec<(Vec<L>, Vec<<S::N as NodeEnum>::LinkMirrorEnum>)> = Vec::new();
    for (&(v, f), &link) in &known.of {
      let mut opp: Vec<(u8, u8)> = (0..d.vars.len() as u8).flat_map(|tv| d.opposites(v, f, tv).into_iter().map(move |g| (tv, g))).collect();
      opp.sort();
      let mut opp: Vec<_> = opp.iter().filter_map(|x| known.of.get(x).copied()).collect();
      opp.sort();
      let mut got = node.get_bidiretional_link_mirrors_of(link);
      got.sort();
      if got != opp {
        return Some(format!("the links opposite to {} are reported as {:?}, declared are {:?}", say(v, f), got, opp));
      }
      if v == m.var && !opp.is_empty() {
        let mut ts: Vec<L> = m.links[f as usize].clone();
        ts.sort();
        want.push((ts, opp));
      }
      for tv in 0..d.vars.len() as u8 {
        if S::N::check_link_type(S::disc(tv), link).is_ok() != d.type_ok(v, f, tv) {
          return Some(format!("check_link_type says {} for {} to a {}", !d.type_ok(v, f, tv), say(v, f), d.vars[tv as usize].name));
        }
      }
    }
    let mut got: Vec<(Vec<L>, Vec<_>)> = node
      .get_bidiretional_links()
      .into_iter()
      // a pair with a phantom group has no opposite links
      .filter(|x| !x.1.is_empty())
      .map(|(ts, mut ls)| {
        let mut ts: Vec<L> = ts.into_iter().filter(|i| !i.is_empty()).map(|i| run.label(i)).collect();
        ts.sort();
        ls.sort();
        (ts, ls)
      })
      .collect();
    for w in &mut want {
      w.0.retain(|x| *x != EMPTY);
    }
    // a link declared through several groups may be listed more than once
    got.sort();
    got.dedup();
    want.sort();
    want.dedup();
    if got != want {
      return Some(format!("get_bidiretional_links of node {} gives {:?}, declared are {:?}", l, got, want));
    }
  }
  None
}

/// Consumes the graph through `into_iter` and compares.
pub fn view_into<S: Schema>(run: Run<S>, st: &MState) -> Option<String> {
  let Run { graph, desc, rev, map: _, ctx: _, index_fault: _, default_ctx: _, pending: _ } = run;
  let mut it = graph.into_iter();
  let mut left = st.len();
  let mut got = MState::new();
  loop {
    if it.len() != left {
      return Some(format!("into_iter() reports {} with {} items left", it.len(), left));
    }
    match it.next() {
      Some((i, n)) => {
        if left == 0 {
          return Some("into_iter() yields more than there are nodes".into());
        }
        left -= 1;
        let lab = |i: NodeIndex| if i.is_empty() { EMPTY } else { rev.get(&i).copied().unwrap_or(ALIEN + (i.0 % 5000) as L) };
        if got.insert(lab(i), S::read(&n).map(&desc, lab)).is_some() {
          return Some(format!("into_iter() yields {} twice", i));
        }
      },
      None => break,
    }
  }
  if got != *st {
    return Some(format!("into_iter() yields {:?}, get knew {:?}", got, st));
  }
  None
}

type Shared = Rc<RefCell<(Vec<(NodeIndex, RNode)>, Vec<(NodeIndex, NodeIndex, RNode, Option<RNode>)>, Vec<(NodeIndex, NodeIndex, RNode, Option<RNode>)>)>>;

#[cfg(feature = "debug")]
fn commit_checked<S: Schema>(run: &mut Run<S>, t: Transaction<'static, S::N>, fail: Option<(u8, u16)>) -> (Result<(), String>, [Shared; 2]) {
  let both: [Shared; 2] = [Rc::new(RefCell::new(Default::default())), Rc::new(RefCell::new(Default::default()))];
  let mut c = check::GraphCheck::<S::N>::new();
  // two checks of each kind; `fail` names the one that fails, at its n-th call
  for which in 0..2u8 {
    let f = move |k: u8, n: usize| -> check::CheckResult {
      match fail {
        Some((fk, fi)) if fk == k + 3 * which && n == fi as usize + 1 => Err(()),
        _ => Ok(()),
      }
    };
    let name = |k: &str| format!("{} {}", k, which);
    // a check of the same name is replaced
    c.insert_node_check(name("node"), |_, _| panic!("a replaced node check was called"));
    let s = both[which as usize].clone();
    c.insert_node_check(name("node"), move |i, n| {
      let mut s = s.borrow_mut();
      s.0.push((i, S::read(n)));
      f(0, s.0.len())
    });
    let s = both[which as usize].clone();
    c.insert_link_add_check(name("add"), move |i, j, n, m| {
      let mut s = s.borrow_mut();
      s.1.push((i, j, S::read(n), m.map(|m| S::read(m))));
      f(1, s.1.len())
    });
    let s = both[which as usize].clone();
    c.insert_link_remove_check(name("remove"), move |i, j, n, m| {
      let mut s = s.borrow_mut();
      s.2.push((i, j, S::read(n), m.map(|m| S::read(m))));
      f(2, s.2.len())
    });
  }
  // checks that were taken out again must not be called
  c.insert_node_check("gone".into(), |_, _| panic!("a removed node check was called"));
  c.remove_node_check("gone");
  c.insert_link_add_check("gone".into(), |_, _, _, _| panic!("a removed link add check was called"));
  c.remove_link_add_check("gone");
  c.insert_link_remove_check("gone".into(), |_, _, _, _| panic!("a removed link remove check was called"));
  c.remove_link_remove_check("gone");
  let r = guard(|| run.graph.commit_checked(t, &c));
  (r, both)
}
#[cfg(not(feature = "debug"))]
fn commit_checked<S: Schema>(run: &mut Run<S>, t: Transaction<'static, S::N>, _fail: Option<(u8, u16)>) -> (Result<(), String>, [Shared; 2]) {
  let r = guard(|| run.graph.commit(t));
  (r, [Rc::new(RefCell::new(Default::default())), Rc::new(RefCell::new(Default::default()))])
}

fn plain_done(before: &MState, after: MState) -> Outcome {
  let _ = before;
  Outcome::Ok(Done { after: after.clone(), pre_bidi: after, added: BTreeSet::new(), removed: BTreeSet::new(), touched: BTreeSet::new(), gone: BTreeSet::new() })
}

/// What the documentation says about a step.
pub fn expect(desc: &Desc, before: &MState, step: &Step) -> Outcome {
  match step {
    Step::Txn(ops) | Step::Checked(ops) => model_txn(desc, before, ops),
    Step::CheckedFail(ops, _, _) => model_txn(desc, before, ops),
    Step::GiveUp(ops) | Step::Dropped(ops) => {
      let mut t = Txn::default();
      for o in ops {
        if let Err(e) = t.op(desc, o) {
          return e;
        }
      }
      plain_done(before, before.clone())
    },
    Step::Foreign(_) | Step::AdoptForeign { .. } => Outcome::Panic(Why::NoSuchNode),
    Step::Switch { .. } | Step::Serde => {
      // neither operation is told anything about links that lead nowhere
      for n in before.values() {
        for t in n.links.iter().flatten() {
          if *t != EMPTY && !before.contains_key(t) {
            return Outcome::Unspec("link to an index that is not a node");
          }
        }
      }
      let data: BTreeSet<u32> = before.values().map(|n| n.data).collect();
      if data.len() != before.len() {
        return Outcome::Unspec("nodes can not be told apart");
      }
      // bidirectional maintenance of the copy must find nothing to do
      let added: Vec<Link> = links_of(desc, before).into_iter().collect();
      match bidi(desc, before.clone(), &[], &added) {
        Ok(s) if s == *before => {},
        _ => return Outcome::Unspec("graph with one-sided bidirectional links"),
      }
      for (_, v, f, t) in &added {
        if let Some(n) = before.get(t) {
          if !desc.type_ok(*v, *f, n.var) {
            return Outcome::Unspec("graph with links of the wrong type");
          }
        }
      }
      plain_done(before, before.clone())
    },
    Step::Adopt { nodes, .. } => {
      let ns: MState = nodes.iter().cloned().collect();
      match model_txn(desc, &MState::new(), &crate::enumr::build_ops(&ns)) {
        Outcome::Ok(d) => model_txn(desc, before, &[Op::Merge(d.after.into_iter().collect())]),
        o => o,
      }
    },
    Step::MergeWith { nodes, ops } => {
      let ns: MState = nodes.iter().cloned().collect();
      match model_txn(desc, &MState::new(), &crate::enumr::build_ops(&ns)) {
        Outcome::Ok(d) => {
          let mut all = vec![Op::Merge(d.after.into_iter().collect())];
          all.extend(ops.iter().cloned());
          model_txn(desc, before, &all)
        },
        o => o,
      }
    },
    Step::Burn(_) | Step::UseDefault => plain_done(before, before.clone()),
  }
}

pub struct Exec<'a> {
  pub judge: Judge,
  pub obs: Observe,
  pub acc: &'a mut Acc,
}

/// What a worker has covered.
#[derive(Default)]
pub struct Acc {
  pub states: HashSet<u64>,
  pub transitions: u64,
  pub histories: u64,
  pub unspec: BTreeMap<&'static str, u64>,
  pub refusals: BTreeMap<Why, u64>,
  pub samples: Vec<serde_json::Value>,
}
impl Acc {
  pub fn merge(&mut self, o: Acc) {
    self.states.extend(o.states);
    self.transitions += o.transitions;
    self.histories += o.histories;
    for (k, v) in o.unspec {
      *self.unspec.entry(k).or_default() += v;
    }
    for (k, v) in o.refusals {
      *self.refusals.entry(k).or_default() += v;
    }
    if self.samples.len() < 6 {
      self.samples.extend(o.samples.into_iter().take(1));
    }
  }
  pub fn see<T: Hash>(&mut self, x: &T) {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    self.states.insert(h.finish());
  }
}

/// Perform one step on the real crate. The state of `run.graph` is meaningless after Err.
pub fn perform<S: Schema>(run: &mut Run<S>, before: &MState, step: &Step) -> (Result<(), String>, Option<[Calls; 2]>) {
  let mut calls = None;
  let r = match step {
    Step::Txn(ops) => run.txn(ops),
    Step::Checked(ops) | Step::CheckedFail(ops, _, _) => {
      let fail = match step {
        Step::CheckedFail(_, k, n) => Some((*k, *n)),
        _ => None,
      };
      match guard(|| {
        let mut t = run.begin();
        for o in ops {
          run.op(&mut t, o);
        }
        t
      }) {
        Ok(t) => {
          let (r, sh) = commit_checked(run, t, fail);
          let of = |sh: &Shared| {
            let sh = sh.borrow();
            let mut c = Calls {
              node: sh.0.iter().map(|(i, n)| (run.label(*i), run.mnode(n))).collect(),
              add: sh.1.iter().map(|(i, j, n, m)| (run.label(*i), run.label(*j), run.mnode(n), m.as_ref().map(|m| run.mnode(m)))).collect(),
              remove: sh.2.iter().map(|(i, j, n, m)| (run.label(*i), run.label(*j), run.mnode(n), m.as_ref().map(|m| run.mnode(m)))).collect(),
            };
            c.node.sort_by_key(|x| x.0);
            c.add.sort_by_key(|x| (x.0, x.1));
            c.remove.sort_by_key(|x| (x.0, x.1));
            c
          };
          calls = Some([of(&sh[0]), of(&sh[1])]);
          r
        },
        Err(e) => Err(e),
      }
    },
    Step::GiveUp(ops) | Step::Dropped(ops) => guard(|| {
      let mut t = run.begin();
      for o in ops {
        run.op(&mut t, o);
      }
      if matches!(step, Step::GiveUp(_)) {
        t.give_up();
      }
      run.pending.clear();
    }),
    Step::Foreign(ops) => {
      let other = run.new_ctx();
      let made = guard(|| {
        let mut t = Transaction::new(&other);
        for o in ops {
          match o {
            // indexes of the other context are not bound
            Op::Insert(_, n) => {
              t.insert(S::build(&run.rnode(n)));
            },
            o => run.op(&mut t, o),
          }
        }
        t
      });
      run.pending.clear();
      match made {
        Ok(t) => guard(|| run.graph.commit(t)),
        Err(e) => Err(format!("harness: could not record: {}", e)),
      }
    },
    Step::Switch { skip } => guard(|| {
      let ctx = run.new_ctx();
      burn::<S>(&ctx, *skip as u32);
      let old = std::mem::replace(&mut run.graph, Graph::new(&ctx));
      let g = old.switch_context(&ctx);
      let m = relabel_by_data(run, before, &g).unwrap_or_else(|e| panic!("{}", e));
      run.map.clear();
      run.rev.clear();
      for (l, i) in m {
        run.bind(l, i);
      }
      run.graph = g;
      run.ctx = ctx;
    }),
    Step::Serde => guard(|| {
      // indexes that were not saved belong to nobody in the new context
      run.map.retain(|l, _| before.contains_key(l));
      run.rev.retain(|_, l| before.contains_key(l));
      let (ctx, g) = reload::<S>(std::mem::replace(&mut run.graph, Graph::new(&run.ctx)), before.len());
      run.graph = g;
      run.ctx = ctx;
    }),
    Step::Adopt { nodes, skip } => guard(|| {
      let mut other = Run::<S>::new(&run.desc);
      burn::<S>(&other.ctx, *skip as u32);
      let ns: MState = nodes.iter().cloned().collect();
      other.txn(&crate::enumr::build_ops(&ns)).unwrap_or_else(|e| panic!("{}", e));
      let obefore = other.state();
      let g = other.graph.switch_context(&run.ctx);
      // labels of `nodes` are fresh here, so they can be bound by data
      let mut by: BTreeMap<u32, L> = BTreeMap::new();
      for (l, n) in &obefore {
        by.insert(n.data, *l);
      }
      let pairs: Vec<(L, NodeIndex)> = g.iter().map(|(i, n)| (*by.get(&S::read(n).data).expect("an unknown node after switch_context"), i)).collect();
      for (l, i) in pairs {
        run.bind(l, i);
      }
      let mut t = run.begin();
      t.merge(g);
      run.graph.commit(t);
    }),
    Step::AdoptForeign { nodes } => {
      let ns: MState = nodes.iter().cloned().collect();
      let mut other = Run::<S>::new(&run.desc);
      if run.default_ctx {
        other.use_default();
      }
      match other.txn(&crate::enumr::build_ops(&ns)) {
        Ok(()) => guard(|| {
          let mut t = run.begin();
          t.merge(other.graph);
          run.graph.commit(t);
        }),
        Err(e) => Err(e),
      }
    },
    Step::MergeWith { nodes, ops } => guard(|| {
      let ns: MState = nodes.iter().cloned().collect();
      let mut g2 = Graph::<S::N>::new(&run.ctx);
      let mut t2 = run.begin();
      for o in crate::enumr::build_ops(&ns) {
        run.op(&mut t2, &o);
      }
      g2.commit(t2);
      let mut t = run.begin();
      t.merge(g2);
      for o in ops {
        run.op(&mut t, o);
      }
      run.graph.commit(t);
    }),
    Step::UseDefault => {
      run.use_default();
      Ok(())
    },
    Step::Burn(n) => {
      burn::<S>(&run.ctx, *n);
      Ok(())
    },
  };
  (r, calls)
}

/// Save by value as well as by reference, also in a format that relies on announced lengths and on the order of fields
/// (off: costs time where saving is not what is judged).
pub static ALL_FORMATS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Save and load; with ALL_FORMATS in every way there is, which all have to say the same, and go on with one of them.
fn reload<S: Schema>(g: Graph<S::N>, pick: usize) -> (Context, Graph<S::N>) {
  let text = serde_json::to_string(&g).unwrap();
  let json = |t: &str| deserialize_graph(serde_json::from_str::<GraphSerializer<S::N>>(t).unwrap());
  if !ALL_FORMATS.load(std::sync::atomic::Ordering::Relaxed) {
    return json(&text);
  }
  let bin = |b: &[u8]| deserialize_graph(bincode::deserialize::<GraphSerializer<S::N>>(b).unwrap());
  let bytes = bincode::serialize(&g).unwrap();
  let value = serde_json::to_value(&g).unwrap();
  let nodes = |g: &Graph<S::N>| g.iter().map(|(i, n)| (i, S::read(n))).collect::<BTreeMap<_, _>>();
  let was = (nodes(&g), g.len());
  let owned = GraphSerializer::from(g);
  let (text2, bytes2) = (serde_json::to_string(&owned).unwrap(), bincode::serialize(&owned).unwrap());
  let mut all = vec![
    ("json", json(&text)),
    ("json of GraphSerializer::from", json(&text2)),
    ("bincode", bin(&bytes)),
    ("bincode of GraphSerializer::from", bin(&bytes2)),
    ("GraphSerializer::from", deserialize_graph(owned)),
    ("json value", deserialize_graph(serde_json::from_value::<GraphSerializer<S::N>>(value).unwrap())),
  ];
  for (how, (ctx, g)) in &all {
    assert!((nodes(g), g.len()) == was, "a graph loaded from {} is not the one that was saved", how);
    g.check_backlinks();
    let mut t = Transaction::<S::N>::new(ctx);
    let i = t.alloc_untyped();
    assert!(!was.0.contains_key(&i), "the context of a graph loaded from {} hands out {}, which the graph uses", how, i);
    t.give_up();
  }
  let n = all.len();
  all.swap_remove(pick % n).1
}

pub fn burn<S: Schema>(ctx: &Context, n: u32) {
  if n > 0 {
    let mut t = Transaction::<S::N>::new(ctx);
    for _ in 0..n {
      t.alloc_untyped();
    }
    t.give_up();
  }
}

/// Run a history, judging every step (or only the last one). Returns the step that failed.
pub fn exec<S: Schema>(desc: &Arc<Desc>, case: &Case, from: usize, x: &mut Exec) -> Option<(usize, String)> {
  let mut run = Run::<S>::new(desc);
  burn::<S>(&run.ctx, case.burn);
  let mut before = MState::new();
  let mut alive = true;
  for (k, step) in case.steps.iter().enumerate() {
    let judged = k >= from;
    let want = if judged { expect(desc, &before, step) } else { Outcome::Unspec("") };
    let (got, calls) = perform(&mut run, &before, step);
    let ok = got.is_ok();
    if let Err(e) = &got {
      if e.starts_with("harness:") {
        alive = false;
        // an earlier step lost something this step needs; whoever judges that step reports it
        *x.acc.unspec.entry("harness could not follow").or_default() += 1;
        break;
      }
    }
    if ok {
      run.settle();
    } else {
      run.pending.clear();
    }
    let after = if ok {
      match guard(|| run.state()) {
        Ok(s) => s,
        Err(e) => return Some((k, format!("reading the graph panics: {}", e))),
      }
    } else {
      MState::new()
    };
    if judged {
      let mut bl = None;
      let mut vw = None;
      let mut dc = None;
      let mut integrity = None;
      let mut len = 0;
      if ok {
        if x.obs.backlinks {
          bl = Some(guard(|| run.graph.check_backlinks()));
          integrity = Some(guard(|| run.graph.check_integrity()).is_ok());
        }
        if x.obs.views {
          vw = match guard(|| views(&run, &after)) {
            Ok(v) => v,
            Err(e) => Some(format!("a view panics: {}", e)),
          };
        }
        if x.obs.decls {
          dc = match guard(|| decls(&run, &after)) {
            Ok(v) => v,
            Err(e) => Some(format!("asking a node about the declarations panics: {}", e)),
          };
        }
        len = run.graph.len();
      }
      let rec = Rec { desc, step, before: &before, expect: &want, got: &got, after: &after, len, calls: &calls, backlinks: &bl, integrity, views: &vw, decls: &dc, index_fault: &run.index_fault };
      x.acc.transitions += 1;
      match &want {
        Outcome::Unspec(w) => *x.acc.unspec.entry(w).or_default() += 1,
        Outcome::Panic(w) => *x.acc.refusals.entry(*w).or_default() += 1,
        _ => {},
      }
      if ok {
        let mut h = DefaultHasher::new();
        desc.name.hash(&mut h);
        after.hash(&mut h);
        x.acc.states.insert(h.finish());
      }
      if let Some(why) = (x.judge)(&rec) {
        return Some((k, why));
      }
      if matches!(want, Outcome::Unspec(_)) || matches!(want, Outcome::Panic(_)) || matches!(step, Step::CheckedFail(..)) {
        alive = false;
      }
    }
    if !ok {
      alive = false;
    }
    before = after;
    if !alive {
      break;
    }
  }
  x.acc.histories += 1;
  if x.obs.views && alive && case.steps.len() > 0 {
    let st = before.clone();
    match guard(|| view_into(run, &st)) {
      Ok(None) => {},
      Ok(Some(e)) => return Some((case.steps.len() - 1, e)),
      Err(e) => return Some((case.steps.len() - 1, format!("into_iter panics: {}", e))),
    }
  }
  None
}

#[derive(Clone, Debug)]
pub struct Viol {
  pub case: serde_json::Value,
  pub why: String,
}

/// A schema and how to run a history on it.
#[derive(Clone)]
pub struct Sc {
  pub desc: Arc<Desc>,
  pub exec: fn(&Arc<Desc>, &Case, usize, &mut Exec) -> Option<(usize, String)>,
  pub base: u8,
}
impl Sc {
  pub fn of<S: Schema>() -> Sc {
    Sc { desc: Arc::new(S::desc()), exec: exec::<S>, base: 0 }
  }
  /// A schema whose variants start at `base` in the enum of S.
  pub fn at<S: Schema>(base: u8, desc: Desc) -> Sc {
    Sc { desc: Arc::new(desc), exec: exec::<S>, base }
  }
  pub fn run(&self, case: &Case, from: usize, x: &mut Exec) -> Option<(usize, String)> {
    set_base(self.base);
    (self.exec)(&self.desc, case, from, x)
  }
}

/// Shared control of one run of the checker.
pub struct Ctl {
  pub stop: AtomicBool,
  pub viol: Mutex<Option<Viol>>,
}
pub const THREADS: usize = 8;
pub const HANG: Duration = Duration::from_secs(30);

impl Ctl {
  pub fn new() -> Arc<Ctl> {
    Arc::new(Ctl {
      stop: AtomicBool::new(false),
      viol: Mutex::new(None),
    })
  }
  pub fn report(&self, v: Viol) {
    let mut g = self.viol.lock().unwrap();
    let better = match &*g {
      None => true,
      Some(o) => v.case.to_string().len() < o.case.to_string().len(),
    };
    if better {
      *g = Some(v);
    }
    self.stop.store(true, Ordering::SeqCst);
  }
}

/// Per-worker handle: remembers the running case for the watchdog.
pub struct Worker<'a> {
  pub ctl: &'a Ctl,
  pub id: usize,
  pub acc: Acc,
}
impl<'a> Worker<'a> {
  pub fn stopped(&self) -> bool {
    self.ctl.stop.load(Ordering::Relaxed)
  }
  /// Run one history; false: stop exploring.
  pub fn case(&mut self, sc: &Sc, case: &Case, from: usize, judge: Judge, obs: Observe) -> bool {
    if self.stopped() {
      return false;
    }
    BEAT[self.id].0.store(now_ms(), Ordering::Relaxed);
    BEAT[self.id].1.store(case as *const Case as usize, Ordering::Relaxed);
    let mut x = Exec { judge, obs, acc: &mut self.acc };
    let r = sc.run(case, from, &mut x);
    BEAT[self.id].0.store(0, Ordering::Relaxed);
    if self.acc.samples.is_empty() && self.acc.histories > 50 {
      self.acc.samples.push(serde_json::to_value(case).unwrap());
    }
    if let Some((k, why)) = r {
      let mut c = case.clone();
      c.steps.truncate(k + 1);
      self.ctl.report(Viol { case: serde_json::to_value(&c).unwrap(), why: format!("step {}: {}", k, why) });
      return false;
    }
    true
  }
}

pub static BEAT: [(AtomicU64, AtomicUsize); THREADS] = [const { (AtomicU64::new(0), AtomicUsize::new(0)) }; THREADS];

pub fn now_ms() -> u64 {
  use std::sync::OnceLock;
  static T: OnceLock<Instant> = OnceLock::new();
  T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Run `f(job index, worker)` for all jobs on all cores.
pub fn par(ctl: &Arc<Ctl>, jobs: usize, f: impl Fn(usize, &mut Worker) + Sync) -> Acc {
  let next = AtomicUsize::new(0);
  let total = Mutex::new(Acc::default());
  std::thread::scope(|s| {
    for id in 0..THREADS {
      let (next, total, f, ctl) = (&next, &total, &f, &**ctl);
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn_scoped(s, move || {
          let mut w = Worker { ctl, id, acc: Acc::default() };
          loop {
            let j = next.fetch_add(1, Ordering::SeqCst);
            if j >= jobs || w.stopped() {
              break;
            }
            f(j, &mut w);
          }
          total.lock().unwrap().merge(w.acc);
        })
        .unwrap();
    }
  });
  total.into_inner().unwrap()
}

/// Watches for a case that does not come to an end. Calls `on_hang` with the case.
pub fn watchdog(on_hang: impl Fn(serde_json::Value) + Send + 'static) {
  now_ms();
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(500));
    for b in &BEAT {
      let t = b.0.load(Ordering::Relaxed);
      if t != 0 && now_ms() > t + HANG.as_millis() as u64 {
        let p = b.1.load(Ordering::Relaxed) as *const Case;
        // The worker is stuck inside the case, so it is alive and not being changed.
        let v = if p.is_null() { serde_json::Value::Null } else { serde_json::to_value(unsafe { &*p }).unwrap() };
        on_hang(v);
      }
    }
  });
}
