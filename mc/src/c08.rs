//! C08: every sequence of calls on one or two open transactions, with `is_empty` after each call.
use crate::desc::*;
use crate::driver::*;
use crate::engine::*;
use crate::enumr::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seq {
  pub schema: String,
  pub base: Vec<Op>,
  /// (transaction, call)
  pub calls: Vec<(u8, Op)>,
  pub txns: u8,
}

fn next_calls(desc: &Desc, made: &[L], txns: u8, base: L, fresh: L, rich: bool) -> Vec<(u8, Op)> {
  let nv = desc.vars.len().min(2) as u8;
  let mut r = Vec::new();
  let d = data_of(fresh);
  for t in 0..txns {
    for v in 0..nv {
      r.push((t, Op::Alloc(fresh, v)));
    }
    r.push((t, Op::AllocU(fresh)));
    r.push((t, Op::Insert(fresh, blank(desc, 0, d))));
    for l in made.iter().copied().chain([base]) {
      for v in 0..nv {
        r.push((t, Op::Fill(l, blank(desc, v, data_of(l) + 1))));
        r.push((t, Op::FillU(l, blank(desc, v, data_of(l) + 2))));
      }
      r.push((t, Op::Remove(l)));
      if rich {
        r.push((t, Op::Mutate(l, Edit::Data(3, 1))));
        r.push((t, Op::Update(l, Edit::Data(1, 7))));
        r.push((t, Op::Redirect(l, base)));
        r.push((t, Op::RedirectAll(l, EMPTY)));
      }
    }
    for x in [EMPTY, ALIEN + 1] {
      r.push((t, Op::Fill(x, blank(desc, 0, 7))));
      r.push((t, Op::FillU(x, blank(desc, 0, 8))));
    }
    if rich {
      r.push((t, Op::Merge(vec![])));
      r.push((t, Op::Extend(vec![(fresh, blank(desc, 0, d))])));
    }
  }
  r
}

/// Run one sequence. Returns (reason, the sequence ends here).
pub fn run_seq<S: Schema>(desc: &Arc<Desc>, q: &Seq, acc: &mut Acc) -> (Option<String>, bool) {
  let mut run = Run::<S>::new(desc);
  if !q.base.is_empty() {
    if let Err(e) = run.txn(&q.base) {
      return (Some(format!("building the base panics: {}", e)), true);
    }
  }
  let mut real: Vec<Option<_>> = (0..q.txns).map(|_| Some(run.begin())).collect();
  let mut model: Vec<Txn> = vec![Txn::default(); q.txns as usize];
  acc.histories += 1;
  let mut end = false;
  for (k, (ti, op)) in q.calls.iter().enumerate() {
    let last = k + 1 == q.calls.len();
    let t = real[*ti as usize].as_mut().unwrap();
    let r = guard(|| run.op(t, op));
    let want = model[*ti as usize].op(desc, op);
    if last {
      acc.transitions += 1;
    }
    match (&want, &r) {
      (Ok(()), Ok(())) => {},
      (Ok(()), Err(e)) => return (Some(format!("call {} {:?} panics: {}", k, op, e)), true),
      (Err(Outcome::Panic(w)), Ok(())) => return (Some(format!("call {} {:?} is not refused ({:?})", k, op, w)), true),
      (Err(Outcome::Panic(w)), Err(_)) => {
        *acc.refusals.entry(*w).or_default() += 1;
        return (None, true);
      },
      (Err(_), _) => {
        // Not documented: has to be refused, or else carried out in full
        *acc.unspec.entry("typed fill of an untyped allocation or the reverse, only judged if accepted").or_default() += 1;
        let (Op::Fill(l, n) | Op::FillU(l, n), Ok(())) = (op, &r) else { return (None, true) };
        let m = &mut model[*ti as usize];
        m.alloc.remove(l);
        m.inc.insert(*l, n.clone());
        end = true;
      },
    }
    if let Some(e) = model[*ti as usize].empty() {
      let got = real[*ti as usize].as_ref().unwrap().is_empty();
      if got != e {
        return (Some(format!("after call {} {:?} is_empty() is {}", k, op, got)), true);
      }
    }
    if last {
      acc.see(&(desc.name, format!("{:?}", model)));
    }
  }
  // commit them in order
  for ti in 0..q.txns as usize {
    let before = run.state();
    let t = real[ti].take().unwrap();
    let want = model[ti].commit(desc, &before);
    let pend = std::mem::take(&mut run.pending);
    let got = guard(|| run.graph.commit(t));
    run.pending = pend;
    acc.transitions += 1;
    match (&want, &got) {
      (Outcome::Ok(d), Ok(())) => {
        run.settle();
        let st = run.state();
        // nodes of the other transaction put in by extend are not known yet
        if st != d.after {
          return (Some(format!("commit {} gives {:?}, expected {:?}", ti, st, d.after)), end);
        }
        if run.graph.len() != d.after.len() {
          return (Some(format!("commit {} leaves {} nodes, expected {}", ti, run.graph.len(), d.after.len())), end);
        }
      },
      (Outcome::Ok(_), Err(e)) => return (Some(format!("commit {} panics: {}", ti, e)), false),
      (Outcome::Panic(w), Ok(())) => return (Some(format!("commit {} is not refused ({:?})", ti, w)), false),
      (Outcome::Panic(w), Err(_)) => {
        *acc.refusals.entry(*w).or_default() += 1;
        return (None, end);
      },
      (Outcome::Unspec(w), _) => {
        *acc.unspec.entry(w).or_default() += 1;
        return (None, end);
      },
    }
  }
  (None, end)
}

pub fn explore(schema: &str, ctl: &Arc<Ctl>, txns: u8, depth: usize, rich: bool) -> Acc {
  let (desc, run) = schema_of(schema);
  let base = vec![Op::Insert(1, blank(&desc, 0, data_of(1)))];
  let jobs = next_calls(&desc, &[], txns, 1, 2, rich);
  fn is_new(op: &Op) -> Option<L> {
    match op {
      Op::Alloc(l, _) | Op::AllocU(l) | Op::Insert(l, _) => Some(*l),
      _ => None,
    }
  }
  fn go(run: RunSeq, desc: &Arc<Desc>, w: &mut Worker, q: &mut Seq, made: &mut Vec<L>, fresh: L, left: usize, rich: bool) {
    if w.stopped() {
      return;
    }
    BEAT[w.id].0.store(now_ms(), std::sync::atomic::Ordering::Relaxed);
    BEAT[w.id].1.store(0, std::sync::atomic::Ordering::Relaxed);
    let (why, end) = run(desc, q, &mut w.acc);
    BEAT[w.id].0.store(0, std::sync::atomic::Ordering::Relaxed);
    if w.acc.samples.is_empty() && w.acc.histories > 20 {
      w.acc.samples.push(serde_json::to_value(&*q).unwrap());
    }
    if let Some(why) = why {
      w.ctl.report(Viol { case: serde_json::json!({ "seq": q }), why });
      return;
    }
    if end || left == 0 {
      return;
    }
    for c in next_calls(desc, made, q.txns, 1, fresh, rich) {
      let n = is_new(&c.1);
      let ext = matches!(c.1, Op::Extend(_));
      q.calls.push(c);
      if let Some(l) = n {
        made.push(l);
      }
      go(run, desc, w, q, made, fresh + if n.is_some() || ext { 1 } else { 0 }, left - 1, rich);
      if n.is_some() {
        made.pop();
      }
      q.calls.pop();
    }
  }
  par(ctl, jobs.len(), |i, w| {
    let c = jobs[i].clone();
    let n = is_new(&c.1);
    let ext = matches!(c.1, Op::Extend(_));
    let mut q = Seq { schema: desc.name.into(), base: base.clone(), calls: vec![c], txns };
    let mut made: Vec<L> = n.into_iter().collect();
    go(run, &desc, w, &mut q, &mut made, if n.is_some() || ext { 3 } else { 2 }, depth - 1, rich);
  })
}

type RunSeq = fn(&Arc<Desc>, &Seq, &mut Acc) -> (Option<String>, bool);
fn schema_of(name: &str) -> (Arc<Desc>, RunSeq) {
  use crate::schemas::{many, plain, pp};
  fn of<S: Schema>() -> (Arc<Desc>, RunSeq) {
    (Arc::new(S::desc()), run_seq::<S>)
  }
  match name {
    "plain" => of::<plain::S>(),
    "pp" => of::<pp::S>(),
    "many" => of::<many::S>(),
    other => panic!("unknown schema {}", other),
  }
}
pub fn replay(q: &Seq) -> Option<String> {
  for c in &q.calls {
    println!("transaction {}: {:?}", c.0, c.1);
  }
  let (desc, run) = schema_of(&q.schema);
  run(&desc, q, &mut Acc::default()).0
}
