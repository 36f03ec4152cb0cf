//! The explorations: which histories are run for which property.
use crate::desc::*;
use crate::engine::*;
use crate::enumr::*;
use crate::judges as j;
use crate::model::*;
use std::sync::Arc;

#[derive(Clone, Copy)]
pub enum Wrap {
  Txn,
  Checked,
}
impl Wrap {
  fn of(&self, ops: Vec<Op>) -> Step {
    match self {
      Wrap::Txn => Step::Txn(ops),
      Wrap::Checked => Step::Checked(ops),
    }
  }
}

pub type Keep = fn(&[Op]) -> bool;
pub fn any(_: &[Op]) -> bool {
  true
}
pub fn has_remove(ops: &[Op]) -> bool {
  ops.iter().any(|o| matches!(o, Op::Remove(_)))
}
pub fn has_redirect(ops: &[Op]) -> bool {
  ops.iter().any(|o| matches!(o, Op::Redirect(..) | Op::RedirectAll(..)))
}

#[derive(Clone, Copy)]
pub struct Cfg {
  pub judge: Judge,
  pub obs: Observe,
}

#[derive(Clone, Debug, Default)]
pub struct Part {
  pub name: String,
  pub transitions: u64,
  pub histories: u64,
  pub secs: f64,
}

/// All graphs with `n` nodes and at most `links` links, times all transactions of `k` items.
pub fn e1(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, n: usize, links: usize, k: usize, alpha: Alpha, wrap: Wrap, keep: Keep) -> Acc {
  let desc = sc.desc.clone();
  let bases = graphs(&desc, n, links);
  par(ctl, bases.len(), |jb, w| {
    let base = &bases[jb];
    let build = if n == 0 { vec![] } else { build_ops(base) };
    let mut case = Case { schema: desc.name.into(), burn: 0, steps: vec![wrap.of(build.clone())] };
    if !w.case(sc, &case, 0, cfg.judge, cfg.obs) {
      return;
    }
    let st = match expect(&desc, &MState::new(), &case.steps[0]) {
      Outcome::Ok(d) => d.after,
      _ => return,
    };
    case.steps[0] = Step::Txn(build.clone());
    case.steps.push(Step::Serde);
    txns(&desc, &st, k, &alpha, &mut |ops| {
      if !keep(ops) {
        return true;
      }
      case.steps[1] = wrap.of(ops.to_vec());
      w.case(sc, &case, 1, cfg.judge, cfg.obs)
    });
  })
}

/// As `e1`, with commit_checked where each call of a check fails in turn.
pub fn e1_fail(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, n: usize, links: usize, k: usize, alpha: Alpha) -> Acc {
  let desc = sc.desc.clone();
  let bases = graphs(&desc, n, links);
  par(ctl, bases.len(), |jb, w| {
    let base = &bases[jb];
    let build = if n == 0 { vec![] } else { build_ops(base) };
    let mut case = Case { schema: desc.name.into(), burn: 0, steps: vec![Step::Txn(build), Step::Serde] };
    let st = match expect(&desc, &MState::new(), &case.steps[0]) {
      Outcome::Ok(d) => d.after,
      _ => return,
    };
    txns(&desc, &st, k, &alpha, &mut |ops| {
      for kind in 0..6u8 {
        for nth in 0..3u16 {
          case.steps[1] = Step::CheckedFail(ops.to_vec(), kind, nth);
          if !w.case(sc, &case, 1, cfg.judge, cfg.obs) {
            return false;
          }
        }
      }
      true
    });
  })
}

#[derive(Clone, Copy)]
pub struct Moves {
  pub alpha: Alpha,
  pub switch: bool,
  pub serde: bool,
  pub adopt: bool,
  pub giveup: bool,
  pub max_nodes: usize,
  pub wrap: Wrap,
}

/// All steps that can follow state `st`.
pub fn moves(desc: &Desc, st: &MState, fresh: L, m: &Moves) -> Vec<Step> {
  let mut r = Vec::new();
  let mut a = m.alpha;
  if st.len() >= m.max_nodes {
    a.insert = false;
    a.alloc = false;
    a.merge = false;
  }
  let alive: Vec<(L, u8)> = st.iter().map(|(l, n)| (*l, n.var)).collect();
  for item in alphabet(desc, &alive, fresh, &a) {
    let mut ops = item.now.clone();
    ops.extend(item.late.iter().cloned());
    if m.giveup {
      r.push(Step::GiveUp(ops.clone()));
      r.push(Step::Dropped(ops.clone()));
    }
    r.push(m.wrap.of(ops));
  }
  if m.switch {
    r.push(Step::Switch { skip: 0 });
    r.push(Step::Switch { skip: 1 });
    r.push(Step::Switch { skip: 7 });
  }
  if m.serde {
    r.push(Step::Serde);
  }
  if m.adopt && st.len() < m.max_nodes {
    for v in 0..desc.vars.len() as u8 {
      for f in 0..desc.nfields(v) {
        for v2 in 0..desc.vars.len() as u8 {
          let nodes = vec![(fresh, with_link(desc, v, f, fresh + 1, data_of(fresh))), (fresh + 1, blank(desc, v2, data_of(fresh + 1)))];
          r.push(Step::Adopt { nodes: nodes.clone(), skip: 0 });
          r.push(Step::Adopt { nodes: nodes.clone(), skip: 2 });
          let mut ops = Vec::new();
          if let Some((l, _)) = alive.first() {
            ops.push(Op::Redirect(*l, fresh));
          }
          r.push(Step::MergeWith { nodes, ops });
        }
      }
    }
  }
  r
}

fn next_fresh(st: &MState, step: &Step, fresh: L) -> L {
  let n = match step {
    Step::Adopt { .. } | Step::MergeWith { .. } => 2,
    Step::Txn(ops) | Step::Checked(ops) | Step::GiveUp(ops) | Step::Dropped(ops) => ops
      .iter()
      .map(|o| match o {
        Op::Insert(..) | Op::Alloc(..) | Op::AllocU(..) => 1,
        Op::Merge(v) | Op::Extend(v) => v.len() as L,
        _ => 0,
      })
      .sum(),
    _ => 0,
  };
  let _ = st;
  fresh + n
}

/// All histories of `depth` steps that start from each of the given states.
pub fn hist(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, bases: Vec<(Step, L)>, depth: usize, m: Moves, last: Option<Moves>) -> Acc {
  let desc = sc.desc.clone();
  // split the first level for parallelism
  let mut jobs: Vec<(Vec<Step>, MState, L)> = Vec::new();
  for (s, fresh) in &bases {
    if let Outcome::Ok(d) = expect(&desc, &MState::new(), s) {
      let mv = if depth == 1 { last.unwrap_or(m) } else { m };
      for s2 in moves(&desc, &d.after, *fresh, &mv) {
        let nf = next_fresh(&d.after, &s2, *fresh);
        let st = match expect(&desc, &d.after, &s2) {
          Outcome::Ok(d) => d.after,
          _ => MState::new(),
        };
        jobs.push((vec![s.clone(), s2], st, nf));
      }
    }
  }
  fn go(sc: &Sc, desc: &Arc<Desc>, cfg: &Cfg, w: &mut Worker, case: &mut Case, st: &MState, fresh: L, left: usize, m: &Moves, last: &Option<Moves>) -> bool {
    if left == 0 {
      return true;
    }
    let mv = if left == 1 { last.as_ref().unwrap_or(m) } else { m };
    for s in moves(desc, st, fresh, mv) {
      let nf = next_fresh(st, &s, fresh);
      let out = if left > 1 { Some(expect(desc, st, &s)) } else { None };
      let k = case.steps.len();
      case.steps.push(s);
      let mut ok = w.case(sc, case, k, cfg.judge, cfg.obs);
      if ok {
        if let Some(Outcome::Ok(d)) = out {
          ok = go(sc, desc, cfg, w, case, &d.after, nf, left - 1, m, last);
        }
      }
      case.steps.truncate(k);
      if !ok {
        return false;
      }
    }
    true
  }
  par(ctl, jobs.len(), |jb, w| {
    let (steps, st, fresh) = &jobs[jb];
    let mut case = Case { schema: desc.name.into(), burn: 0, steps: steps.clone() };
    if !w.case(sc, &case, 0, cfg.judge, cfg.obs) {
      return;
    }
    let before = match expect(&desc, &MState::new(), &steps[0]) {
      Outcome::Ok(d) => d.after,
      _ => return,
    };
    if matches!(expect(&desc, &before, &steps[1]), Outcome::Ok(_)) {
      go(sc, &desc, &cfg, w, &mut case, st, *fresh, depth - 1, &m, &last);
    }
  })
}

/// Long histories: every pair of choices (i, j), repeated over and over. A choice is the place in the list of the steps
/// possible in the current state (modulo its length, and from there the first that is not refused).
pub fn weave(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, bases: Vec<(Step, L)>, words: usize, len: usize, m: Moves) -> Acc {
  let desc = sc.desc.clone();
  par(ctl, bases.len() * words, |jb, w| {
    let (b, fresh0) = &bases[jb / words];
    let Outcome::Ok(d0) = expect(&desc, &MState::new(), b) else { return };
    for j in 0..words {
      let (mut st, mut fresh) = (d0.after.clone(), *fresh0);
      let mut steps = vec![b.clone()];
      for k in 0..len {
        let at = if k % 2 == 0 { jb % words } else { j };
        let mv = moves(&desc, &st, fresh, &m);
        // the labels of a long history would not stay small
        if fresh > 400 {
          break;
        }
        let next = (0..mv.len()).map(|o| &mv[(at + o) % mv.len()]).find_map(|s| match expect(&desc, &st, s) {
          Outcome::Ok(d) => Some((s, d.after)),
          _ => None,
        });
        let Some((s, after)) = next else { break };
        fresh = next_fresh(&st, s, fresh);
        st = after;
        steps.push(s.clone());
      }
      let c = Case { schema: desc.name.into(), burn: 0, steps };
      if !w.case(sc, &c, 0, cfg.judge, cfg.obs) {
        return;
      }
    }
  })
}

pub fn bases(d: &Desc, n: usize, links: usize) -> Vec<(Step, L)> {
  if n == 0 {
    return vec![(Step::Txn(vec![]), 1)];
  }
  graphs(d, n, links).into_iter().map(|g| (Step::Txn(build_ops(&g)), n as L + 1)).collect()
}

/// Lists of redirections over the nodes of one dense graph.
pub fn redirects(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, base: Vec<(L, MNode)>, olds: Vec<L>, news: Vec<L>, len: usize, both: bool) -> Acc {
  let desc = sc.desc.clone();
  let st: MState = base.into_iter().collect();
  let pairs: Vec<(L, L)> = olds.iter().flat_map(|o| news.iter().map(move |n| (*o, *n))).collect();
  let jobs = pairs.len();
  par(ctl, jobs, |jb, w| {
    let mut case = Case { schema: desc.name.into(), burn: 0, steps: vec![Step::Txn(build_ops(&st)), Step::Serde] };
    fn go(sc: &Sc, desc: &Arc<Desc>, cfg: &Cfg, w: &mut Worker, case: &mut Case, cur: &mut Vec<(L, L)>, pairs: &[(L, L)], len: usize, both: bool) -> bool {
      let n = cur.len();
      let kinds: u32 = if both { 1 << n } else { 2 };
      for mask in 0..kinds {
        let ops = cur
          .iter()
          .enumerate()
          .map(|(i, (a, b))| {
            let all = if both { mask >> i & 1 == 1 } else { mask == 1 };
            if all {
              Op::RedirectAll(*a, *b)
            } else {
              Op::Redirect(*a, *b)
            }
          })
          .collect();
        case.steps[1] = Step::Txn(ops);
        if !w.case(sc, case, 1, cfg.judge, cfg.obs) {
          return false;
        }
      }
      if n < len {
        for p in pairs {
          if cur.iter().any(|c| c.0 == p.0) && !both {
            continue;
          }
          cur.push(*p);
          let ok = go(sc, desc, cfg, w, case, cur, pairs, len, both);
          cur.pop();
          if !ok {
            return false;
          }
        }
      }
      true
    }
    go(sc, &desc, &cfg, w, &mut case, &mut vec![pairs[jb]], &pairs, len, both);
  })
}

/// One node of every variant with every field, all pointing at `hub`.
pub fn every_field(desc: &Desc, from: L, hub: L) -> Vec<(L, MNode)> {
  let mut r = Vec::new();
  let mut l = from;
  for v in 0..desc.vars.len() as u8 {
    if desc.nfields(v) == 0 {
      continue;
    }
    let mut n = blank(desc, v, data_of(l));
    for f in 0..desc.nfields(v) {
      n.links[f] = if desc.kind(v, f) == Kind::Vec { vec![hub, hub] } else { vec![hub] };
    }
    r.push((l, n));
    l += 1;
  }
  r
}

/// The sized families: graphs that grow with `n`, and what is then done to them.
pub fn sized_cases(desc: &Desc, n: usize) -> Vec<Vec<Step>> {
  let mut out = Vec::new();
  let hub: L = 1;
  let nl = n as L;
  // one star per (variant, field): leaves point at the hub; and the hub points at all leaves
  for v in 0..desc.vars.len() as u8 {
    for f in 0..desc.nfields(v) {
      for hv in 0..desc.vars.len() as u8 {
        let mut st = MState::new();
        st.insert(hub, blank(desc, hv, data_of(hub)));
        for i in 0..nl {
          st.insert(2 + i, with_link(desc, v, f, hub, data_of(2 + i)));
        }
        let b = Step::Txn(build_ops(&st));
        let spare = nl + 2;
        let mk = Step::Txn(vec![Op::Insert(spare, blank(desc, hv, data_of(spare)))]);
        out.push(vec![b.clone(), Step::Txn(vec![Op::Remove(hub)])]);
        out.push(vec![b.clone(), mk.clone(), Step::Txn(vec![Op::Redirect(hub, spare)]), Step::Txn(vec![Op::Remove(hub)]), Step::Txn(vec![Op::RedirectAll(spare, EMPTY)])]);
        out.push(vec![b.clone(), mk.clone(), Step::Txn((0..nl).map(|i| Op::Mutate(2 + i, Edit::Set(f as u8, vec![spare]))).collect()), Step::Txn(vec![Op::Remove(hub)]), Step::Txn(vec![Op::Remove(spare)])]);
        out.push(vec![b.clone(), Step::Txn((0..nl).map(|i| Op::Update(2 + i, Edit::Data(3, 1))).collect()), Step::Txn((0..nl).map(|i| Op::Remove(2 + i)).collect())]);
        out.push(vec![b.clone(), Step::Switch { skip: 3 }, Step::Txn(vec![Op::Remove(hub)])]);
        out.push(vec![b.clone(), Step::Serde, mk.clone(), Step::Txn(vec![Op::Redirect(hub, spare)])]);
        out.push(vec![b.clone(), Step::Txn((0..nl).map(|i| Op::Remove(2 + i)).collect()), Step::Serde, mk.clone()]);
        if desc.kind(v, f) != Kind::Point {
          // the other way round, in one container
          let mut st = MState::new();
          let mut h = blank(desc, v, data_of(hub));
          h.links[f] = (2..2 + nl).collect();
          st.insert(hub, h);
          for i in 0..nl {
            st.insert(2 + i, blank(desc, hv, data_of(2 + i)));
          }
          let b = Step::Txn(build_ops(&st));
          out.push(vec![b.clone(), Step::Txn((0..nl).map(|i| Op::Remove(2 + i)).collect())]);
          out.push(vec![b.clone(), Step::Txn((0..nl / 2).map(|i| Op::Redirect(2 + i, 2 + nl / 2)).collect()), Step::Txn(vec![Op::Remove(2 + nl / 2)])]);
          out.push(vec![b.clone(), Step::Txn(vec![Op::Mutate(hub, Edit::Set(f as u8, vec![]))]), Step::Txn(vec![Op::Remove(2)])]);
          out.push(vec![b.clone(), Step::Switch { skip: nl as u16 }, Step::Txn(vec![Op::Remove(1 + nl)]), Step::Switch { skip: 1 }]);
          out.push(vec![b.clone(), Step::Serde, Step::Txn(vec![Op::Remove(hub)])]);
        }
      }
      // chains
      let mut st = MState::new();
      for i in 1..=nl {
        st.insert(i, if i < nl { with_link(desc, v, f, i + 1, data_of(i)) } else { blank(desc, v, data_of(i)) });
      }
      let b = Step::Txn(build_ops(&st));
      out.push(vec![b.clone(), Step::Txn((1..nl).map(|i| Op::Redirect(i, i + 1)).collect())]);
      out.push(vec![b.clone(), Step::Txn((1..nl).rev().map(|i| Op::RedirectAll(i, i + 1)).collect())]);
      out.push(vec![b.clone(), Step::Txn((2..=nl).rev().map(|i| Op::Redirect(i, i - 1)).collect())]);
      out.push(vec![b.clone(), Step::Txn((1..=nl).map(|i| Op::Redirect(i, i % nl + 1)).collect())]);
      out.push(vec![b.clone(), Step::Txn((1..=nl).step_by(2).map(Op::Remove).collect()), Step::Switch { skip: 0 }, Step::Txn((2..=nl).step_by(2).map(Op::Remove).collect())]);
      // one transaction that does everything
      let mut ops: Vec<Op> = Vec::new();
      for i in 1..=nl {
        match i % 4 {
          0 => ops.push(Op::Remove(i)),
          1 => ops.push(Op::Mutate(i, Edit::Data(3, 1))),
          2 => ops.push(Op::Update(i, Edit::Add(f as u8, (i % nl) + 1))),
          _ => ops.push(Op::Redirect(i, if i + 2 <= nl { i + 2 } else { EMPTY })),
        }
      }
      for i in 1..=nl {
        ops.push(Op::Insert(nl + i, with_link(desc, v, f, i, data_of(nl + i))));
      }
      out.push(vec![b.clone(), Step::Txn(ops)]);
    }
  }
  out
}

pub fn sized(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, sizes: Vec<usize>, burns: Vec<u32>) -> Acc {
  let desc = sc.desc.clone();
  let mut jobs: Vec<Case> = Vec::new();
  for n in sizes {
    for steps in sized_cases(&desc, n) {
      for b in &burns {
        jobs.push(Case { schema: desc.name.into(), burn: *b, steps: steps.clone() });
      }
    }
  }
  par(ctl, jobs.len(), |i, w| {
    w.case(sc, &jobs[i], 0, cfg.judge, cfg.obs);
  })
}

pub fn list_cases(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, cases: Vec<Vec<Step>>) -> Acc {
  let desc = sc.desc.clone();
  par(ctl, cases.len(), |i, w| {
    let c = Case { schema: desc.name.into(), burn: 0, steps: cases[i].clone() };
    w.case(sc, &c, 0, cfg.judge, cfg.obs);
  })
}

pub struct Plan<'a> {
  pub ctl: Arc<Ctl>,
  pub acc: Acc,
  pub parts: Vec<Part>,
  pub thorough: bool,
  pub only: Option<&'a str>,
  /// where schemas are looked up by name
  pub lookup: fn(&str) -> Sc,
}

impl<'a> Plan<'a> {
  pub fn part(&mut self, name: String, f: impl FnOnce(&Arc<Ctl>) -> Acc) {
    if self.ctl.stop.load(std::sync::atomic::Ordering::SeqCst) {
      return;
    }
    if let Some(o) = self.only {
      if !name.contains(o) {
        return;
      }
    }
    let t = std::time::Instant::now();
    let a = f(&self.ctl);
    let p = Part { name, transitions: a.transitions, histories: a.histories, secs: t.elapsed().as_secs_f64() };
    eprintln!("  {:44} histories {:>9} transitions {:>9} {:.1}s", p.name, p.histories, p.transitions, p.secs);
    self.parts.push(p);
    self.acc.merge(a);
  }
  pub fn e1(&mut self, cfg: Cfg, schema: &str, n: usize, links: usize, k: usize, alpha: Alpha, wrap: Wrap, keep: Keep) {
    let sc = (self.lookup)(schema);
    self.part(format!("{} graphs n={} links<={} x txns k={}", schema, n, links, k), |ctl| e1(&sc, ctl, cfg, n, links, k, alpha, wrap, keep));
  }
  pub fn e1_fail(&mut self, cfg: Cfg, schema: &str, n: usize, links: usize, k: usize, alpha: Alpha) {
    let sc = (self.lookup)(schema);
    self.part(format!("{} failing checks n={} links<={} k={}", schema, n, links, k), |ctl| e1_fail(&sc, ctl, cfg, n, links, k, alpha));
  }
  pub fn hist(&mut self, cfg: Cfg, schema: &str, n: usize, links: usize, depth: usize, m: Moves, last: Option<Moves>) {
    let sc = (self.lookup)(schema);
    self.part(format!("{} histories n={} links<={} depth={}", schema, n, links, depth), |ctl| {
      let b = bases(&sc.desc, n, links);
      hist(&sc, ctl, cfg, b, depth, m, last)
    });
  }
  pub fn weave(&mut self, cfg: Cfg, schema: &str, n: usize, links: usize, words: usize, len: usize, m: Moves) {
    let sc = (self.lookup)(schema);
    self.part(format!("{} long histories n={} links<={} words={} len={}", schema, n, links, words, len), |ctl| {
      let b = bases(&sc.desc, n, links);
      weave(&sc, ctl, cfg, b, words, len, m)
    });
  }
  pub fn sized(&mut self, cfg: Cfg, schema: &str, sizes: &[usize], burns: &[u32]) {
    let sc = (self.lookup)(schema);
    self.part(format!("{} families up to {}", schema, sizes.last().unwrap()), |ctl| sized(&sc, ctl, cfg, sizes.to_vec(), burns.to_vec()));
  }
}

/// What is judged and observed for a property.
pub fn cfg_of(prop: &str) -> Option<Cfg> {
  let o = Observe::default();
  let bl = Observe { backlinks: true, ..o };
  Some(match prop {
    "C01" => Cfg { judge: j::c01, obs: o },
    "C02" => Cfg { judge: j::c02, obs: o },
    "C03" => Cfg { judge: j::c03, obs: bl },
    "C04" => Cfg { judge: j::c04, obs: Observe { decls: true, ..o } },
    "C05" => Cfg { judge: j::c05, obs: o },
    "C06" => Cfg { judge: j::c06, obs: o },
    "C07" => Cfg { judge: j::c07, obs: o },
    "C08" => Cfg { judge: j::c08, obs: o },
    "C09" => Cfg { judge: j::c09, obs: Observe { views: true, ..o } },
    "C10" => Cfg { judge: j::c10, obs: bl },
    "C11" => Cfg { judge: j::c11, obs: bl },
    "C12" => Cfg { judge: j::c12, obs: Observe { decls: true, ..o } },
    "C13" => Cfg { judge: j::c13, obs: o },
    "C15" | "C17" => Cfg { judge: j::whole, obs: Observe { backlinks: true, views: true, decls: true } },
    "C18" => Cfg { judge: j::c01, obs: o },
    "C16" => Cfg { judge: j::c16, obs: Observe { views: true, ..o } },
    _ => return None,
  })
}

/// Run one history outside of an exploration.
pub fn run_case(sc: &Sc, case: &Case, cfg: Cfg, acc: &mut Acc) -> Option<(usize, String)> {
  sc.run(case, 0, &mut Exec { judge: cfg.judge, obs: cfg.obs, acc })
}

pub fn sized_checked(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, sizes: Vec<usize>) -> Acc {
  let desc = sc.desc.clone();
  let mut jobs: Vec<Case> = Vec::new();
  for n in sizes {
    for steps in sized_cases(&desc, n) {
      let steps = steps
        .into_iter()
        .map(|s| match s {
          Step::Txn(o) => Step::Checked(o),
          s => s,
        })
        .collect();
      jobs.push(Case { schema: desc.name.into(), burn: 0, steps });
    }
  }
  par(ctl, jobs.len(), |i, w| {
    w.case(sc, &jobs[i], 0, cfg.judge, cfg.obs);
  })
}

pub fn merge_pairs(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg, links: usize) -> Acc {
  let desc = sc.desc.clone();
  let mut gs: Vec<MState> = graphs(&desc, 1, links);
  gs.extend(graphs(&desc, 2, links));
  par(ctl, gs.len(), |i, w| {
    for h in &gs {
      // shift the labels of the second graph
      let nodes: Vec<(L, MNode)> = h
        .iter()
        .map(|(l, n)| {
          let mut m = n.map(&desc, |t| if t == EMPTY { EMPTY } else { t + 10 });
          m.data = data_of(l + 10);
          (l + 10, m)
        })
        .collect();
      let b = Step::Txn(build_ops(&gs[i]));
      let first = *gs[i].keys().next().unwrap();
      let mut list = vec![
        vec![b.clone(), Step::MergeWith { nodes: nodes.clone(), ops: vec![] }, Step::Txn(vec![Op::Remove(11)])],
        vec![b.clone(), Step::MergeWith { nodes: nodes.clone(), ops: vec![Op::Redirect(first, 11), Op::Remove(first)] }],
        vec![b.clone(), Step::MergeWith { nodes: nodes.clone(), ops: vec![Op::RedirectAll(11, first), Op::Mutate(11, Edit::Data(3, 1))] }],
      ];
      for skip in [0u16, 1, 4] {
        list.push(vec![b.clone(), Step::Adopt { nodes: nodes.clone(), skip }, Step::Txn(vec![Op::Redirect(first, 11)]), Step::Txn(vec![Op::Remove(11)])]);
      }
      list.push(vec![b.clone(), Step::AdoptForeign { nodes: nodes.clone() }]);
      for steps in list {
        let c = Case { schema: desc.name.into(), burn: 0, steps };
        if !w.case(sc, &c, 0, cfg.judge, cfg.obs) {
          return;
        }
      }
    }
  })
}

/// Transactions and graphs of another context are refused, whatever they hold.
pub fn foreign(sc: &Sc, ctl: &Arc<Ctl>, cfg: Cfg) -> Acc {
  let desc = sc.desc.clone();
  let mut gs: Vec<MState> = vec![MState::new()];
  gs.extend(graphs(&desc, 1, 1));
  gs.extend(graphs(&desc, 2, 1));
  par(ctl, gs.len(), |i, w| {
    let st = &gs[i];
    let b = Step::Txn(build_ops(st));
    let st2 = match expect(&desc, &MState::new(), &b) {
      Outcome::Ok(d) => d.after,
      _ => return,
    };
    let mut list: Vec<Vec<Step>> = vec![vec![b.clone(), Step::Foreign(vec![])]];
    txns(&desc, &st2, 1, &Alpha { alloc: false, ..Alpha::ALL }, &mut |ops| {
      list.push(vec![b.clone(), Step::Foreign(ops.to_vec())]);
      list.push(vec![b.clone(), Step::Switch { skip: 0 }, Step::Foreign(ops.to_vec())]);
      true
    });
    list.push(vec![b.clone(), Step::AdoptForeign { nodes: vec![] }]);
    for v in 0..desc.vars.len() as u8 {
      list.push(vec![b.clone(), Step::AdoptForeign { nodes: vec![(50, blank(&desc, v, 50000))] }]);
    }
    for steps in list {
      let mut def = vec![Step::UseDefault];
      def.extend(steps.iter().cloned());
      for steps in [steps, def] {
        let c = Case { schema: desc.name.into(), burn: 0, steps };
        if !w.case(sc, &c, 0, cfg.judge, cfg.obs) {
          return;
        }
      }
    }
  })
}

/// A small alphabet that still has every phase of a commit.
pub const LEAN: Alpha = Alpha { insert: true, remove: true, mutate: true, redirect: true, redirect_all: true, fine: false, ..Alpha::NONE };
pub const MOVES: Moves = Moves { alpha: Alpha::ALL, switch: false, serde: false, adopt: false, giveup: false, max_nodes: 3, wrap: Wrap::Txn };
pub const SIZES: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65];
