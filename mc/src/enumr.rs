//! Exhaustive generators: graphs, transaction alphabets, sized families.
use crate::desc::*;
use crate::model::*;
use std::collections::BTreeSet;

pub fn data_of(l: L) -> u32 {
  1000 * l as u32
}

/// All values of one link field over `targets` with at most `max` entries.
pub fn field_options(k: Kind, targets: &[L], max: usize, vec_dups: bool) -> Vec<Vec<L>> {
  let mut r: Vec<Vec<L>> = vec![vec![]];
  match k {
    Kind::Point => {
      if max >= 1 {
        r.extend(targets.iter().map(|t| vec![*t]));
      }
    },
    Kind::Set => {
      let n = targets.len();
      for mask in 1u32..(1 << n) {
        if mask.count_ones() as usize <= max {
          r.push((0..n).filter(|i| mask >> i & 1 == 1).map(|i| targets[i]).collect());
        }
      }
    },
    Kind::Vec => {
      let mut cur: Vec<Vec<L>> = vec![vec![]];
      for _ in 0..max {
        let mut nx = Vec::new();
        for c in &cur {
          for t in targets {
            if !vec_dups && c.contains(t) {
              continue;
            }
            let mut d = c.clone();
            d.push(*t);
            nx.push(d);
          }
        }
        r.extend(nx.iter().cloned());
        cur = nx;
      }
    },
  }
  r
}

pub fn node_options(desc: &Desc, l: L, var: u8, targets: &[L], max: usize) -> Vec<(MNode, usize)> {
  let mut cur: Vec<(Vec<Vec<L>>, usize)> = vec![(vec![], 0)];
  for f in 0..desc.nfields(var) {
    let mut nx = Vec::new();
    for (links, used) in &cur {
      for o in field_options(desc.kind(var, f), targets, (max - used).min(2), true) {
        let mut v = links.clone();
        let u = used + o.len();
        v.push(o);
        nx.push((v, u));
      }
    }
    cur = nx;
  }
  cur.into_iter().map(|(links, u)| (MNode { var, links, data: data_of(l) }, u)).collect()
}

fn permute(n: usize) -> Vec<Vec<usize>> {
  fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
    if cur.len() == n {
      out.push(cur.clone());
      return;
    }
    for i in 0..n {
      if !cur.contains(&i) {
        cur.push(i);
        go(cur, n, out);
        cur.pop();
      }
    }
  }
  let mut out = Vec::new();
  go(&mut vec![], n, &mut out);
  out
}

/// Up to this many nodes, graphs that differ only in the order of their nodes' indexes are all tried: the crate keeps
/// nodes and changes in ordered maps, so the order may matter. Above, one of each class of isomorphic graphs is.
pub static ORDERED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(2);

/// All graphs with exactly `n` nodes and at most `max` links.
pub fn graphs(desc: &Desc, n: usize, max: usize) -> Vec<MState> {
  let labels: Vec<L> = (1..=n as L).collect();
  let perms = if n <= ORDERED.load(std::sync::atomic::Ordering::Relaxed) { vec![(0..n).collect()] } else { permute(n) };
  let mut out = Vec::new();
  let mut seen: BTreeSet<Vec<(u8, Vec<Vec<L>>)>> = BTreeSet::new();
  fn go(
    desc: &Desc, labels: &[L], i: usize, left: usize, cur: &mut Vec<MNode>, perms: &[Vec<usize>],
    seen: &mut BTreeSet<Vec<(u8, Vec<Vec<L>>)>>, out: &mut Vec<MState>,
  ) {
    if i == labels.len() {
      let mut best: Option<Vec<(u8, Vec<Vec<L>>)>> = None;
      for p in perms {
        // node i goes to position p[i]
        let mut v: Vec<(u8, Vec<Vec<L>>)> = vec![(0, vec![]); labels.len()];
        for (k, nd) in cur.iter().enumerate() {
          let m = nd.map(desc, |t| if t == EMPTY { EMPTY } else { p[(t - 1) as usize] as L + 1 });
          v[p[k]] = (m.var, m.links);
        }
        if best.as_ref().map_or(true, |b| v < *b) {
          best = Some(v);
        }
      }
      if seen.insert(best.unwrap()) {
        out.push(labels.iter().copied().zip(cur.iter().cloned()).collect());
      }
      return;
    }
    for var in 0..desc.vars.len() as u8 {
      for (nd, u) in node_options(desc, labels[i], var, labels, left) {
        cur.push(nd);
        go(desc, labels, i + 1, left - u, cur, perms, seen, out);
        cur.pop();
      }
    }
  }
  go(desc, &labels, 0, max, &mut Vec::new(), &perms, &mut seen, &mut out);
  out
}

/// The transaction that creates `s` in one go (allocate all, then fill).
pub fn build_ops(s: &MState) -> Vec<Op> {
  let mut r = Vec::new();
  for (l, n) in s {
    r.push(Op::Alloc(*l, n.var));
  }
  for (l, n) in s {
    r.push(Op::Fill(*l, n.clone()));
  }
  r
}

/// One element of a transaction: operations to perform now, and operations for the end.
#[derive(Clone, Debug)]
pub struct Item {
  pub now: Vec<Op>,
  pub late: Vec<Op>,
  /// label this item introduces
  pub new: Option<L>,
}
fn it(o: Op) -> Item {
  Item { now: vec![o], late: vec![], new: None }
}

#[derive(Clone, Copy, Debug)]
pub struct Alpha {
  pub insert: bool,
  pub alloc: bool,
  pub remove: bool,
  pub mutate: bool,
  pub update: bool,
  pub redirect: bool,
  pub redirect_all: bool,
  pub become_: bool,
  pub data: bool,
  pub merge: bool,
  /// redirections to the empty index
  pub to_empty: bool,
  /// an index that is not a node: as target of links and redirections, and as object of operations
  pub alien: bool,
  /// mut_node!, update_node! and extend
  pub macros: bool,
  /// forms of link edits: only set/clear when false, also single additions and removals when true
  pub fine: bool,
}
impl Alpha {
  pub const ALL: Alpha = Alpha { insert: true, alloc: true, remove: true, mutate: true, update: true, redirect: true, redirect_all: true, become_: true, data: true, merge: false, to_empty: true, alien: false, macros: false, fine: true };
  pub const NONE: Alpha = Alpha { insert: false, alloc: false, remove: false, mutate: false, update: false, redirect: false, redirect_all: false, become_: false, data: false, merge: false, to_empty: false, alien: false, macros: false, fine: true };
}

pub fn blank(desc: &Desc, var: u8, data: u32) -> MNode {
  MNode { var, links: vec![vec![]; desc.nfields(var)], data }
}
pub fn with_link(desc: &Desc, var: u8, f: usize, t: L, data: u32) -> MNode {
  let mut n = blank(desc, var, data);
  n.links[f] = vec![t];
  n
}

/// Every single item over the nodes `alive` (with their variants) and the next fresh label.
pub fn alphabet(desc: &Desc, alive: &[(L, u8)], fresh: L, a: &Alpha) -> Vec<Item> {
  let mut r = Vec::new();
  let ls: Vec<L> = alive.iter().map(|x| x.0).collect();
  let nv = desc.vars.len() as u8;
  let d = data_of(fresh);
  if a.remove {
    for l in &ls {
      r.push(it(Op::Remove(*l)));
    }
  }
  if a.insert {
    for v in 0..nv {
      r.push(Item { now: vec![Op::Insert(fresh, blank(desc, v, d))], late: vec![], new: Some(fresh) });
      for f in 0..desc.nfields(v) {
        for t in &ls {
          r.push(Item { now: vec![Op::Insert(fresh, with_link(desc, v, f, *t, d))], late: vec![], new: Some(fresh) });
        }
      }
    }
  }
  if a.alloc {
    for v in 0..nv {
      for f in 0..desc.nfields(v) {
        // self link, filled at the end, typed and untyped
        r.push(Item { now: vec![Op::Alloc(fresh, v)], late: vec![Op::Fill(fresh, with_link(desc, v, f, fresh, d))], new: Some(fresh) });
        if let Some(t) = ls.first() {
          r.push(Item { now: vec![Op::AllocU(fresh)], late: vec![Op::FillU(fresh, with_link(desc, v, f, *t, d))], new: Some(fresh) });
        }
      }
    }
  }
  if a.merge {
    for v in 0..nv {
      for f in 0..desc.nfields(v) {
        for v2 in 0..nv {
          r.push(Item {
            now: vec![Op::Merge(vec![(fresh, with_link(desc, v, f, fresh + 1, d)), (fresh + 1, blank(desc, v2, d + 1000))])],
            late: vec![],
            new: Some(fresh),
          });
        }
      }
    }
  }
  for (l, v) in alive {
    let mut edits: Vec<Edit<L>> = Vec::new();
    if a.data {
      edits.push(Edit::Data(3, 1));
      edits.push(Edit::Data(1, 7));
    }
    for f in 0..desc.nfields(*v) {
      edits.push(Edit::Set(f as u8, vec![]));
      if a.alien {
        edits.push(Edit::Add(f as u8, ALIEN + 1));
      }
      for t in &ls {
        edits.push(Edit::Add(f as u8, *t));
        if a.fine && desc.kind(*v, f) != Kind::Point {
          edits.push(Edit::Del(f as u8, *t));
        }
      }
    }
    if a.become_ {
      for w in 0..nv {
        if w != *v {
          edits.push(Edit::Become(blank(desc, w, 10)));
          if desc.nfields(w) > 0 {
            for t in ls.iter().take(2) {
              edits.push(Edit::Become(with_link(desc, w, desc.nfields(w) - 1, *t, 10)));
            }
          }
        }
      }
    }
    if a.mutate {
      for e in &edits {
        r.push(it(Op::Mutate(*l, e.clone())));
      }
    }
    if a.update {
      for e in &edits {
        r.push(it(Op::Update(*l, e.clone())));
      }
    }
  }
  if a.macros {
    for (l, _) in alive {
      for v in 0..nv {
        for form in 0..3 {
          r.push(it(Op::Mutate(*l, Edit::IfVar(v, form))));
          r.push(it(Op::Update(*l, Edit::IfVar(v, form))));
        }
      }
    }
    for v in 0..nv {
      let mut ns = vec![(fresh, blank(desc, v, d))];
      if let (true, Some(t)) = (desc.nfields(v) > 0, ls.first()) {
        ns.push((fresh + 1, with_link(desc, v, 0, *t, d + 1000)));
      }
      r.push(Item { now: vec![Op::Extend(ns)], late: vec![], new: Some(fresh) });
    }
  }
  if a.alien {
    r.push(it(Op::Remove(ALIEN + 1)));
    r.push(it(Op::Mutate(ALIEN + 1, Edit::Data(3, 1))));
    r.push(it(Op::Update(ALIEN + 1, Edit::Data(3, 1))));
    for x in &ls {
      r.push(it(Op::Redirect(ALIEN + 1, *x)));
      r.push(it(Op::Redirect(*x, ALIEN + 1)));
      r.push(it(Op::RedirectAll(ALIEN + 1, *x)));
      r.push(it(Op::RedirectAll(*x, ALIEN + 1)));
    }
  }
  for x in &ls {
    for y in ls.iter().copied().chain(if a.to_empty { Some(EMPTY) } else { None }) {
      if *x == y {
        continue;
      }
      if a.redirect {
        r.push(it(Op::Redirect(*x, y)));
      }
      if a.redirect_all {
        r.push(it(Op::RedirectAll(*x, y)));
      }
    }
  }
  r
}

/// All transactions of exactly `k` items. `f` gets the flat operation list.
pub fn txns(desc: &Desc, base: &MState, k: usize, a: &Alpha, f: &mut dyn FnMut(&[Op]) -> bool) {
  fn go(
    desc: &Desc, alive: &mut Vec<(L, u8)>, fresh: L, k: usize, a: &Alpha, now: &mut Vec<Op>, late: &mut Vec<Vec<Op>>,
    f: &mut dyn FnMut(&[Op]) -> bool,
  ) -> bool {
    if k == 0 {
      let n = now.len();
      for l in late.iter() {
        now.extend(l.iter().cloned());
      }
      let r = f(now);
      now.truncate(n);
      return r;
    }
    for item in alphabet(desc, alive, fresh, a) {
      let n = now.len();
      now.extend(item.now.iter().cloned());
      late.push(item.late.clone());
      let mut pushed = 0;
      let mut nf = fresh;
      if let Some(l) = item.new {
        match &item.now[0] {
          Op::Insert(_, nd) => {
            alive.push((l, nd.var));
            pushed = 1;
            nf = fresh + 1;
          },
          Op::Extend(ns) => {
            // their indexes are not known before the commit
            nf = fresh + ns.len() as L;
          },
          Op::Merge(ns) => {
            for (l, nd) in ns {
              alive.push((*l, nd.var));
            }
            pushed = ns.len();
            nf = fresh + ns.len() as L;
          },
          Op::Alloc(_, v) => {
            alive.push((l, *v));
            pushed = 1;
            nf = fresh + 1;
          },
          _ => {
            let v = match &item.late[0] {
              Op::FillU(_, nd) => nd.var,
              _ => 0,
            };
            alive.push((l, v));
            pushed = 1;
            nf = fresh + 1;
          },
        }
      }
      let cont = go(desc, alive, nf, k - 1, a, now, late, f);
      for _ in 0..pushed {
        alive.pop();
      }
      late.pop();
      now.truncate(n);
      if !cont {
        return false;
      }
    }
    true
  }
  let mut alive: Vec<(L, u8)> = base.iter().map(|(l, n)| (*l, n.var)).collect();
  let fresh = base.keys().max().copied().unwrap_or(0) + 1;
  go(desc, &mut alive, fresh, k, a, &mut Vec::new(), &mut Vec::new(), f);
}
