//! C18: several transactions open at once, on two graphs of one context, in every interleaving.
use crate::desc::*;
use crate::driver::*;
use crate::engine::*;
use crate::enumr::*;
use crate::explore::*;
use crate::model::*;
use crate::with_core_schema;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use ttgraph::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
  /// record calls in a transaction
  Rec(u8, Vec<Op>),
  /// move all of a graph into a transaction; a new graph takes its place
  Merge(u8, u8),
  /// commit a transaction to a graph
  Commit(u8, u8),
  GiveUp(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Weave {
  pub schema: String,
  pub bases: [Vec<Op>; 2],
  pub events: Vec<Ev>,
  pub txns: u8,
}

struct World<S: Schema> {
  run: Run<S>,
  other: Graph<S::N>,
}
impl<S: Schema> World<S> {
  fn on<T>(&mut self, g: u8, f: impl FnOnce(&mut Run<S>) -> T) -> T {
    if g == 1 {
      std::mem::swap(&mut self.run.graph, &mut self.other);
    }
    let r = f(&mut self.run);
    if g == 1 {
      std::mem::swap(&mut self.run.graph, &mut self.other);
    }
    r
  }
}

/// Run one weave. Returns what is wrong with it.
pub fn run_weave<S: Schema>(desc: &Arc<Desc>, q: &Weave, acc: &mut Acc) -> Option<String> {
  let run = Run::<S>::new(desc);
  let other = Graph::<S::N>::new(&run.ctx);
  let mut w = World { run, other };
  let mut real: Vec<Option<_>> = (0..q.txns).map(|_| Some(w.run.begin())).collect();
  let mut model: Vec<Txn> = vec![Txn::default(); q.txns as usize];
  let mut st = [MState::new(), MState::new()];
  // a graph whose commit was refused is not looked at again
  let mut dead = [false; 2];
  acc.histories += 1;
  for g in 0..2u8 {
    if q.bases[g as usize].is_empty() {
      continue;
    }
    match model_txn(desc, &MState::new(), &q.bases[g as usize]) {
      Outcome::Ok(d) => st[g as usize] = d.after,
      _ => return None,
    }
    if let Err(e) = w.on(g, |r| r.txn(&q.bases[g as usize])) {
      return Some(format!("building graph {} panics: {}", g, e));
    }
  }
  let look = |w: &mut World<S>, st: &[MState; 2], dead: &[bool; 2], what: &str| -> Option<String> {
    for g in 0..2u8 {
      if dead[g as usize] {
        continue;
      }
      let want = &st[g as usize];
      let got = guard(|| w.on(g, |r| (r.state(), r.graph.len(), guard(|| r.graph.check_backlinks()))));
      match got {
        Err(e) => return Some(format!("{}: reading graph {} panics: {}", what, g, e)),
        Ok((s, _, _)) if s != *want => return Some(format!("{}: graph {} is {:?}, expected {:?}", what, g, s, want)),
        Ok((_, n, _)) if n != want.len() => return Some(format!("{}: graph {} counts {} nodes, expected {}", what, g, n, want.len())),
        Ok((_, _, Err(e))) => return Some(format!("{}: the back links of graph {} are wrong: {}", what, g, e)),
        _ => {},
      }
    }
    None
  };
  for (k, ev) in q.events.iter().enumerate() {
    acc.transitions += 1;
    match ev {
      Ev::Rec(t, ops) => {
        for op in ops {
          let r = guard(|| w.run.op(real[*t as usize].as_mut().unwrap(), op));
          match (model[*t as usize].op(desc, op), r) {
            (Ok(()), Ok(())) => {},
            (Ok(()), Err(e)) => return Some(format!("event {}: {:?} panics: {}", k, op, e)),
            (Err(Outcome::Panic(w)), Ok(())) => return Some(format!("event {}: {:?} is not refused ({:?})", k, op, w)),
            _ => return None,
          }
        }
      },
      Ev::Merge(t, g) => {
        if dead[*g as usize] {
          return None;
        }
        let fresh = Graph::<S::N>::new(&w.run.ctx);
        let old = w.on(*g, |r| std::mem::replace(&mut r.graph, fresh));
        if let Err(e) = guard(|| real[*t as usize].as_mut().unwrap().merge(old)) {
          return Some(format!("event {}: merging graph {} panics: {}", k, g, e));
        }
        for (l, n) in std::mem::take(&mut st[*g as usize]) {
          model[*t as usize].inc.insert(l, n);
        }
      },
      Ev::GiveUp(t) => {
        let r = real[*t as usize].take().unwrap();
        if t % 2 == 0 {
          r.give_up()
        } else {
          drop(r)
        }
      },
      Ev::Commit(t, g) => {
        if dead[*g as usize] {
          return None;
        }
        let want = model[*t as usize].commit(desc, &st[*g as usize]);
        let r = real[*t as usize].take().unwrap();
        let got = guard(|| w.on(*g, |run| run.graph.commit(r)));
        match (&want, &got) {
          (Outcome::Ok(d), Ok(())) => st[*g as usize] = d.after.clone(),
          (Outcome::Ok(_), Err(e)) => return Some(format!("event {}: the commit panics: {}", k, e)),
          (Outcome::Panic(w), Ok(())) => return Some(format!("event {}: the commit is not refused ({:?})", k, w)),
          (Outcome::Panic(w), Err(_)) => {
            *acc.refusals.entry(*w).or_default() += 1;
            dead[*g as usize] = true;
          },
          (Outcome::Unspec(w), _) => {
            *acc.unspec.entry(w).or_default() += 1;
            dead[*g as usize] = true;
          },
        }
        if got.is_err() && *g == 1 {
          // the panic went through `on`
          std::mem::swap(&mut w.run.graph, &mut w.other);
        }
        if let Some(e) = look(&mut w, &st, &dead, &format!("event {}", k)) {
          return Some(e);
        }
        acc.see(&(desc.name, &st));
      },
    }
  }
  if let Some(e) = look(&mut w, &st, &dead, "at the end") {
    return Some(e);
  }
  if let Some(f) = &w.run.index_fault {
    return Some(f.clone());
  }
  // every link can still be found by its target
  let ops: Vec<Op> = w.run.map.keys().map(|l| Op::RedirectAll(*l, EMPTY)).collect();
  for g in 0..2u8 {
    if dead[g as usize] || st[g as usize].is_empty() {
      continue;
    }
    match model_txn(desc, &st[g as usize], &ops) {
      Outcome::Ok(d) => {
        let got = guard(|| {
          w.on(g, |r| {
            r.txn(&ops)?;
            Ok::<_, String>(r.state())
          })
        });
        match got.and_then(|x| x) {
          Ok(s) if s == d.after => {},
          Ok(s) => return Some(format!("after clearing every link graph {} is {:?}, expected {:?}", g, s, d.after)),
          Err(e) => return Some(format!("clearing every link of graph {} panics: {}", g, e)),
        }
      },
      _ => {},
    }
  }
  None
}

#[derive(Clone)]
struct Txs {
  /// open, with what has to be recorded before it can be committed
  late: Vec<Option<Vec<Op>>>,
  fresh: Vec<L>,
}

#[derive(Clone, Copy)]
pub struct Bounds {
  pub txns: u8,
  pub items: usize,
  pub alpha: Alpha,
  /// give up transactions as well
  pub giveup: bool,
  /// merge whole graphs into transactions
  pub merge: bool,
}

type RunWeave = fn(&Arc<Desc>, &Weave, &mut Acc) -> Option<String>;
fn fn_of(schema: &str) -> RunWeave {
  fn of<S: Schema>() -> RunWeave {
    run_weave::<S>
  }
  with_core_schema!(schema, of)
}

fn go(run: RunWeave, desc: &Arc<Desc>, w: &mut Worker, q: &mut Weave, x: &Txs, known: &mut Vec<(L, u8)>, left: usize, b: &Bounds) {
  if w.stopped() {
    return;
  }
  if x.late.iter().all(|l| l.is_none()) {
    BEAT[w.id].0.store(now_ms(), Ordering::Relaxed);
    BEAT[w.id].1.store(0, Ordering::Relaxed);
    let r = run(desc, q, &mut w.acc);
    BEAT[w.id].0.store(0, Ordering::Relaxed);
    if w.acc.samples.is_empty() && w.acc.histories > 50 {
      w.acc.samples.push(serde_json::to_value(&*q).unwrap());
    }
    if let Some(why) = r {
      w.ctl.report(Viol { case: serde_json::json!({ "weave": q }), why });
    }
    return;
  }
  let touched = |q: &Weave, t: u8| q.events.iter().any(|e| matches!(e, Ev::Rec(u, _) | Ev::Merge(u, _) if *u == t));
  let closed = x.late.iter().any(|l| l.is_none());
  // one transaction alone is a matter of C01
  if closed && (0..b.txns).filter(|t| touched(q, *t)).count() < 2 {
    return;
  }
  for t in 0..b.txns {
    let Some(late) = x.late[t as usize].clone() else { continue };
    // transactions that nothing was recorded in are interchangeable
    if t > 0 && !touched(q, t) && (0..t).any(|u| x.late[u as usize].is_some() && !touched(q, u)) {
      continue;
    }
    // close it
    if touched(q, t) || left == 0 {
      let n = q.events.len();
      let mut y = x.clone();
      y.late[t as usize] = None;
      if touched(q, t) {
        if !late.is_empty() {
          q.events.push(Ev::Rec(t, late.clone()));
        }
        for g in 0..2 {
          q.events.push(Ev::Commit(t, g));
          go(run, desc, w, q, &y, known, left, b);
          q.events.pop();
        }
        q.events.truncate(n);
      }
      let commits = q.events.iter().any(|e| matches!(e, Ev::Commit(..))) || y.late.iter().any(|l| l.is_some());
      if (b.giveup && commits) || !touched(q, t) {
        q.events.push(Ev::GiveUp(t));
        go(run, desc, w, q, &y, known, left, b);
        q.events.truncate(n);
      }
    }
    // one that starts only now might as well have been opened now
    if left == 0 || (closed && !touched(q, t)) {
      continue;
    }
    // record one more item in it
    for item in alphabet(desc, known, x.fresh[t as usize], &b.alpha) {
      let mut y = x.clone();
      y.late[t as usize].as_mut().unwrap().extend(item.late.iter().cloned());
      let n = known.len();
      if let Some(l) = item.new {
        let v = match (&item.now[0], item.late.first()) {
          (Op::Insert(_, nd), _) => nd.var,
          (Op::Alloc(_, v), _) => *v,
          (_, Some(Op::FillU(_, nd))) => nd.var,
          _ => continue,
        };
        known.push((l, v));
        y.fresh[t as usize] += 1;
      }
      q.events.push(Ev::Rec(t, item.now.clone()));
      go(run, desc, w, q, &y, known, left - 1, b);
      q.events.pop();
      known.truncate(n);
    }
    if b.merge {
      for g in 0..2 {
        if q.events.contains(&Ev::Merge(t, g)) {
          continue;
        }
        q.events.push(Ev::Merge(t, g));
        go(run, desc, w, q, x, known, left - 1, b);
        q.events.pop();
      }
    }
  }
}

/// The second graph: one node of each variant, linking to the first node of the other graph, or not.
fn seconds(desc: &Desc) -> Vec<Vec<Op>> {
  let mut r = Vec::new();
  for v in 0..desc.vars.len() as u8 {
    r.push(vec![Op::Insert(3, blank(desc, v, data_of(3)))]);
    for f in 0..desc.nfields(v) {
      r.push(vec![Op::Insert(3, with_link(desc, v, f, 1, data_of(3)))]);
    }
  }
  r
}

pub fn explore(sc: &Sc, ctl: &Arc<Ctl>, links: usize, b: Bounds) -> Acc {
  let desc = sc.desc.clone();
  let run = fn_of(desc.name);
  let mut jobs = Vec::new();
  for g in graphs(&desc, 1, links) {
    for s in seconds(&desc) {
      jobs.push((build_ops(&g), s));
    }
  }
  par(ctl, jobs.len(), |i, w| {
    set_base(0);
    let (a, c) = jobs[i].clone();
    let mut known: Vec<(L, u8)> = Vec::new();
    for o in a.iter().chain(c.iter()) {
      if let Op::Fill(l, n) | Op::Insert(l, n) = o {
        known.push((*l, n.var));
      }
    }
    let mut q = Weave { schema: desc.name.into(), bases: [a, c], events: vec![], txns: b.txns };
    let x = Txs { late: vec![Some(vec![]); b.txns as usize], fresh: (0..b.txns as L).map(|t| 10 + 10 * t).collect() };
    go(run, &desc, w, &mut q, &x, &mut known, b.items, &b);
  })
}

pub fn replay(q: &Weave) -> Option<String> {
  println!("graph 0: {:?}\ngraph 1: {:?}", q.bases[0], q.bases[1]);
  for e in &q.events {
    println!("{:?}", e);
  }
  let desc = crate::suites::core(&q.schema).desc;
  fn_of(&q.schema)(&desc, q, &mut Acc::default())
}
