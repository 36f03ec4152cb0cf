//! All sequential histories of one context.
use crate::node::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use ttgraph::serialize::*;
use ttgraph::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
  /// on transaction 0 or 1
  Ins(u8),
  Alloc(u8),
  AllocU(u8),
  Commit(u8),
  GiveUp(u8),
  Drop(u8),
  /// make a node and remove it again before the commit
  InsRemove(u8),
  /// many at once
  Many(u8),
  /// remove the oldest / newest node of graph 0
  RemoveOld,
  RemoveNew,
  /// graph 1 goes into graph 0
  Merge,
  /// a graph moves in from another context
  Adopt,
  /// graph 0 gets new indexes in the same context
  Renew,
  /// save and load graph 0, go on with what was loaded
  Reload,
  /// go on with a clone of the context
  CloneCtx,
}
use Op::*;
pub const OPS: &[Op] = &[
  Ins(0), Ins(1), Alloc(0), Alloc(1), AllocU(0), Commit(0), Commit(1), GiveUp(0), GiveUp(1), Drop(0), InsRemove(0), RemoveOld, RemoveNew, Merge, Adopt, Renew, Reload, CloneCtx, Many(0),
];

struct W<'a> {
  ctx: Context,
  g: [G; 2],
  t: [Option<Transaction<'a, N>>; 2],
  handed: BTreeSet<NodeIndex>,
  want: [BTreeMap<NodeIndex, usize>; 2],
  open: [BTreeMap<NodeIndex, usize>; 2],
  next: usize,
}

impl W<'_> {
  fn got(&mut self, i: NodeIndex) -> Result<(), String> {
    if i.is_empty() {
      return Err("an empty index is handed out".into());
    }
    if !self.handed.insert(i) {
      return Err(format!("index {} is handed out a second time", i.0));
    }
    Ok(())
  }
  fn fresh(&mut self) -> usize {
    self.next += 1;
    self.next
  }
  fn renew(&mut self, k: usize) {
    self.t[k] = Some(Transaction::new(&self.ctx));
    self.open[k].clear();
  }
  fn one(&mut self, op: Op) -> Result<(), String> {
    match op {
      Ins(k) | Many(k) => {
        for _ in 0..if matches!(op, Many(_)) { 70 } else { 1 } {
          let d = self.fresh();
          let i = self.t[k as usize].as_mut().unwrap().insert(if d % 2 == 0 { a(d) } else { b(d) });
          self.got(i)?;
          self.open[k as usize].insert(i, d);
        }
      },
      Alloc(k) => {
        let d = self.fresh();
        let t = self.t[k as usize].as_mut().unwrap();
        let i = t.alloc(NDiscriminant::A);
        t.fill_back(i, N::A(A { d, l: i }));
        self.got(i)?;
        self.open[k as usize].insert(i, d);
      },
      AllocU(k) => {
        let d = self.fresh();
        let t = self.t[k as usize].as_mut().unwrap();
        let i = t.alloc_untyped();
        t.fill_back_untyped(i, b(d));
        self.got(i)?;
        self.open[k as usize].insert(i, d);
      },
      InsRemove(k) => {
        let d = self.fresh();
        let t = self.t[k as usize].as_mut().unwrap();
        let i = t.insert(a(d));
        t.remove(i);
        self.got(i)?;
      },
      // transaction k goes into graph k
      Commit(k) => {
        let k = k as usize;
        let t = self.t[k].take().unwrap();
        self.g[k].commit(t);
        let o = std::mem::take(&mut self.open[k]);
        self.want[k].extend(o);
        self.renew(k);
      },
      GiveUp(k) => {
        self.t[k as usize].take().unwrap().give_up();
        self.renew(k as usize);
      },
      Drop(k) => {
        self.t[k as usize] = None;
        self.renew(k as usize);
      },
      RemoveOld | RemoveNew => {
        let x = if op == RemoveOld { self.want[0].keys().next().copied() } else { self.want[0].keys().next_back().copied() };
        if let Some(i) = x {
          let mut t = Transaction::new(&self.ctx);
          t.remove(i);
          self.g[0].commit(t);
          self.want[0].remove(&i);
        }
      },
      Merge => {
        let g = std::mem::replace(&mut self.g[1], G::new(&self.ctx));
        let mut t = Transaction::new(&self.ctx);
        t.merge(g);
        self.g[0].commit(t);
        let w = std::mem::take(&mut self.want[1]);
        self.want[0].extend(w);
      },
      Adopt => {
        let d = self.fresh();
        self.next += 1;
        let g = foreign(d).switch_context(&self.ctx);
        let c = content(&g);
        if c.values().copied().collect::<BTreeSet<_>>() != [d, d + 1].into() {
          return Err(format!("a graph of nodes {:?} after switching its context: {:?}", [d, d + 1], c));
        }
        for i in c.keys() {
          self.got(*i)?;
        }
        let mut t = Transaction::new(&self.ctx);
        t.merge(g);
        self.g[0].commit(t);
        self.want[0].extend(c);
      },
      Renew => {
        let g = std::mem::replace(&mut self.g[0], G::new(&self.ctx));
        self.g[0] = g.switch_context(&self.ctx);
        let c = content(&self.g[0]);
        let (mut x, mut y): (Vec<usize>, Vec<usize>) = (c.values().copied().collect(), self.want[0].values().copied().collect());
        x.sort();
        y.sort();
        if x != y {
          return Err(format!("nodes {:?} are {:?} after switching the context", y, x));
        }
        for i in c.keys() {
          self.got(*i)?;
        }
        self.want[0] = c;
      },
      Reload => {
        let text = serde_json::to_string(&self.g[0]).map_err(|e| e.to_string())?;
        let (ctx, g) = deserialize_graph(serde_json::from_str::<GraphSerializer<N>>(&text).map_err(|e| e.to_string())?);
        self.g = [g, G::new(&ctx)];
        self.ctx = ctx;
        // what was not saved is gone
        self.want[1].clear();
        self.handed = self.want[0].keys().copied().collect();
        self.renew(0);
        self.renew(1);
      },
      CloneCtx => {
        self.ctx = self.ctx.clone();
      },
    }
    for k in 0..2 {
      if op == Reload || self.g[k].len() != self.want[k].len() || self.want[k].iter().any(|(i, d)| self.g[k].get(*i).map(data) != Some(*d)) {
        let c = content(&self.g[k]);
        if c != self.want[k] {
          return Err(format!("graph {} holds {:?}, expected {:?}", k, c, self.want[k]));
        }
      }
    }
    Ok(())
  }
}

fn run(ops: &[Op]) -> Result<u64, (usize, String)> {
  let ctx = Context::new();
  let mut w = W { g: [G::new(&ctx), G::new(&ctx)], t: [Some(Transaction::new(&ctx)), Some(Transaction::new(&ctx))], ctx, handed: BTreeSet::new(), want: Default::default(), open: Default::default(), next: 0 };
  for (k, op) in ops.iter().enumerate() {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.one(*op))) {
      Ok(Ok(())) => {},
      Ok(Err(e)) => return Err((k, e)),
      Err(e) => return Err((k, format!("panics: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))),
    }
  }
  use std::hash::{Hash, Hasher};
  let mut h = std::collections::hash_map::DefaultHasher::new();
  (&w.handed, &w.want, &w.open).hash(&mut h);
  Ok(h.finish())
}

#[derive(Default)]
pub struct Report {
  pub histories: u64,
  pub transitions: u64,
  pub states: usize,
  pub depth: usize,
  pub sample: Value,
  pub viol: Option<(Value, String)>,
}

pub fn explore(thorough: bool) -> Report {
  let depth = if thorough { 6 } else { 5 };
  use std::sync::atomic::Ordering::SeqCst;
  let stop = std::sync::atomic::AtomicBool::new(false);
  let next = std::sync::atomic::AtomicUsize::new(0);
  let n = OPS.len();
  let parts: Vec<(Report, HashSet<u64>)> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
      .map(|_| {
        let (stop, next) = (&stop, &next);
        s.spawn(move || {
          let mut r = Report::default();
          let mut seen = HashSet::new();
          loop {
            let j = next.fetch_add(1, SeqCst);
            if j >= n * n || stop.load(SeqCst) {
              break;
            }
            // every history of the full depth with this start; a failure in its middle is reported with its step
            let mut cur = vec![0usize; depth];
            (cur[0], cur[1]) = (j / n, j % n);
            'all: loop {
              let ops: Vec<Op> = cur.iter().map(|i| OPS[*i]).collect();
              // at most one big batch in a history
              if ops.iter().filter(|o| matches!(o, Many(_))).count() <= 1 {
                r.histories += 1;
                r.transitions += depth as u64;
                match run(&ops) {
                  Ok(h) => {
                    seen.insert(h);
                  },
                  Err((k, why)) => {
                    stop.store(true, SeqCst);
                    let mut ops = ops[..=k].to_vec();
                    // make it smaller
                    let mut i = ops.len();
                    while i > 0 {
                      i -= 1;
                      let mut q = ops.clone();
                      q.remove(i);
                      if run(&q).is_err() {
                        ops = q;
                        i = ops.len();
                      }
                    }
                    let why = run(&ops).err().map(|x| format!("operation {}: {}", x.0, x.1)).unwrap_or(why);
                    r.viol = Some((json!({ "history": ops }), why));
                    break 'all;
                  },
                }
                if r.histories == 1000 {
                  r.sample = json!({ "history": ops });
                }
              }
              let mut k = depth;
              loop {
                k -= 1;
                if k == 1 {
                  break 'all;
                }
                cur[k] += 1;
                if cur[k] < n {
                  break;
                }
                cur[k] = 0;
              }
              if stop.load(SeqCst) {
                break;
              }
            }
          }
          (r, seen)
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  let mut r = Report { depth, ..Default::default() };
  let mut seen = HashSet::new();
  for (x, s) in parts {
    r.histories += x.histories;
    r.transitions += x.transitions;
    if !x.sample.is_null() {
      r.sample = x.sample;
    }
    if x.viol.is_some() {
      r.viol = x.viol;
    }
    seen.extend(s);
  }
  r.states = seen.len();
  r
}

pub fn replay(c: &Value) -> Option<String> {
  let ops: Vec<Op> = serde_json::from_value(c["history"].clone()).unwrap();
  for o in &ops {
    println!("{:?}", o);
  }
  run(&ops).err().map(|x| format!("operation {}: {}", x.0, x.1))
}
