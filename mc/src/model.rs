//! The reference model: a map from labels to node values, and the documented meaning of a commit.
use crate::desc::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
  Insert(L, MNode),
  Alloc(L, u8),
  AllocU(L),
  Fill(L, MNode),
  FillU(L, MNode),
  Remove(L),
  Mutate(L, Edit<L>),
  Update(L, Edit<L>),
  Redirect(L, L),
  RedirectAll(L, L),
  /// several nodes through `extend`
  Extend(Vec<(L, MNode)>),
  /// merge another graph (same context) holding these nodes
  Merge(Vec<(L, MNode)>),
}

pub type MState = BTreeMap<L, MNode>;
/// (from, field, to), with the variant of `from` when the link was made
pub type Link = (L, u8, u8, L);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Done {
  pub after: MState,
  /// state just before bidirectional maintenance
  pub pre_bidi: MState,
  pub added: BTreeSet<Link>,
  pub removed: BTreeSet<Link>,
  /// nodes inserted, mutated or updated
  pub touched: BTreeSet<L>,
  pub gone: BTreeSet<L>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
  /// loop in redirections
  RedirectLoop,
  /// fill an index that is not waiting to be filled
  BadFill,
  /// fill with another type than the one allocated
  FillType,
  Unfilled,
  NoSuchNode,
  BidiOccupied,
  BidiChoices,
  LinkType,
  /// mut_node! / update_node! on a node of another variant
  WrongVariant,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
  Ok(Done),
  Panic(Why),
  /// the documentation does not say; the string names the case
  Unspec(&'static str),
}

#[derive(Clone, Debug, Default)]
pub struct Txn {
  pub alloc: BTreeMap<L, Option<u8>>,
  pub inc: MState,
  pub dec: BTreeSet<L>,
  pub dropped: BTreeSet<L>,
  pub muts: Vec<(L, Edit<L>)>,
  pub upds: Vec<(L, Edit<L>)>,
  pub redir: Vec<(L, L)>,
  pub redir_all: Vec<(L, L)>,
}

pub fn links_of(desc: &Desc, s: &MState) -> BTreeSet<Link> {
  let mut r = BTreeSet::new();
  for (x, n) in s {
    node_links(desc, *x, n, &mut r);
  }
  r
}
fn node_links(_desc: &Desc, x: L, n: &MNode, r: &mut BTreeSet<Link>) {
  for (f, l) in n.links.iter().enumerate() {
    for t in l {
      if *t != EMPTY {
        r.insert((x, n.var, f as u8, *t));
      }
    }
  }
}

pub fn has_link(n: &MNode, f: u8, t: L) -> bool {
  n.links[f as usize].contains(&t)
}

/// Replace every link to a key of `m` by its value.
pub fn subst(desc: &Desc, s: &mut MState, m: &BTreeMap<L, L>) {
  for n in s.values_mut() {
    for f in 0..n.links.len() {
      if !n.links[f].iter().any(|t| m.contains_key(t)) {
        continue;
      }
      let k = desc.kind(n.var, f);
      let l: Vec<L> = n.links[f].iter().map(|t| *m.get(t).unwrap_or(t)).collect();
      n.links[f] = match k {
        Kind::Set => {
          // a set that is told to point to nothing simply loses the element
          let had_empty = n.links[f].contains(&EMPTY);
          norm(k, l.into_iter().filter(|t| *t != EMPTY || had_empty).collect())
        },
        _ => norm(k, l),
      };
    }
  }
}

/// Final target of every redirected index, or the reason there is none.
pub fn resolve(pairs: &[(L, L)]) -> Result<BTreeMap<L, L>, Outcome> {
  let mut m: BTreeMap<L, L> = BTreeMap::new();
  let mut dup = false;
  for (a, b) in pairs {
    if *a == EMPTY {
      return Err(Outcome::Unspec("redirect from the empty index"));
    }
    if m.insert(*a, *b).is_some() {
      dup = true;
    }
  }
  if dup {
    return Err(Outcome::Unspec("one index redirected twice"));
  }
  let mut r = BTreeMap::new();
  for a in m.keys() {
    let mut x = *a;
    let mut n = 0;
    while let Some(y) = m.get(&x) {
      x = *y;
      n += 1;
      if n > m.len() {
        return Err(Outcome::Panic(Why::RedirectLoop));
      }
    }
    r.insert(*a, x);
  }
  Ok(r)
}

impl Txn {
  /// One call on the transaction. Err: the call itself does not return normally.
  pub fn op(&mut self, desc: &Desc, op: &Op) -> Result<(), Outcome> {
    match op {
      Op::Insert(l, n) => {
        self.inc.insert(*l, n.clone());
      },
      Op::Alloc(l, v) => {
        self.alloc.insert(*l, Some(*v));
      },
      Op::AllocU(l) => {
        self.alloc.insert(*l, None);
      },
      Op::Fill(l, n) => match self.alloc.get(l) {
        None => return Err(Outcome::Panic(Why::BadFill)),
        Some(None) => return Err(Outcome::Unspec("typed fill of an untyped allocation")),
        Some(Some(v)) if *v != n.var => return Err(Outcome::Panic(Why::FillType)),
        _ => {
          self.alloc.remove(l);
          self.inc.insert(*l, n.clone());
        },
      },
      Op::FillU(l, n) => match self.alloc.get(l) {
        None => return Err(Outcome::Panic(Why::BadFill)),
        Some(Some(v)) if *v != n.var => return Err(Outcome::Unspec("untyped fill with another type than allocated")),
        _ => {
          self.alloc.remove(l);
          self.inc.insert(*l, n.clone());
        },
      },
      Op::Remove(l) => {
        if self.inc.remove(l).is_some() || self.alloc.remove(l).is_some() {
          self.dropped.insert(*l);
        } else {
          self.dec.insert(*l);
        }
      },
      Op::Mutate(l, e) | Op::Update(l, e) if self.inc.get(l).map_or(false, |n| e.refuses(n)) => {
        return Err(Outcome::Panic(Why::WrongVariant));
      },
      Op::Mutate(l, e) => match self.inc.get_mut(l) {
        Some(n) => e.apply(desc, n),
        None => self.muts.push((*l, e.clone())),
      },
      Op::Update(l, e) => match self.inc.get_mut(l) {
        Some(n) => e.apply(desc, n),
        None => self.upds.push((*l, e.clone())),
      },
      Op::Redirect(a, b) => self.redir.push((*a, *b)),
      Op::RedirectAll(a, b) => self.redir_all.push((*a, *b)),
      Op::Merge(ns) | Op::Extend(ns) => {
        for (l, n) in ns {
          self.inc.insert(*l, n.clone());
        }
      },
    }
    Ok(())
  }

  /// Some(true): nothing pending at all; Some(false): something is pending; None: not claimed.
  pub fn empty(&self) -> Option<bool> {
    let pending = !(self.alloc.is_empty() && self.inc.is_empty() && self.dec.is_empty() && self.muts.is_empty() && self.upds.is_empty() && self.redir.is_empty() && self.redir_all.is_empty());
    if pending {
      Some(false)
    } else if self.dropped.is_empty() {
      Some(true)
    } else {
      None
    }
  }

  pub fn commit(&self, desc: &Desc, before: &MState) -> Outcome {
    if !self.alloc.is_empty() {
      return Outcome::Panic(Why::Unfilled);
    }
    let mut s = before.clone();
    match resolve(&self.redir) {
      Ok(m) => {
        // targets that are dropped again never become nodes
        subst(desc, &mut s, &m)
      },
      Err(e) => return e,
    }
    for (l, n) in &self.inc {
      if s.contains_key(l) {
        return Outcome::Unspec("inserted an index already in the graph");
      }
      s.insert(*l, n.clone());
    }
    for (l, e) in self.muts.iter().chain(self.upds.iter()) {
      match s.get_mut(l) {
        Some(n) if e.refuses(n) => return Outcome::Panic(Why::WrongVariant),
        Some(n) => e.apply(desc, n),
        None => return Outcome::Panic(Why::NoSuchNode),
      }
    }
    match resolve(&self.redir_all) {
      Ok(m) => subst(desc, &mut s, &m),
      Err(e) => return e,
    }
    let mut gone: BTreeMap<L, L> = BTreeMap::new();
    for l in &self.dec {
      if s.remove(l).is_none() {
        return Outcome::Panic(Why::NoSuchNode);
      }
      gone.insert(*l, EMPTY);
    }
    for l in &self.dropped {
      // an index dropped and then given a node again keeps that node
      if !self.inc.contains_key(l) {
        gone.insert(*l, EMPTY);
      }
    }
    subst(desc, &mut s, &gone);

    let b = links_of(desc, before);
    let pre_bidi = s.clone();
    let a = links_of(desc, &s);
    let removed: Vec<Link> = b.difference(&a).copied().collect();
    let added: Vec<Link> = a.difference(&b).copied().collect();
    let s = match bidi(desc, s, &removed, &added) {
      Ok(s) => s,
      Err(e) => return e,
    };

    let a = links_of(desc, &s);
    let removed: BTreeSet<Link> = b.difference(&a).copied().collect();
    let added: BTreeSet<Link> = a.difference(&b).copied().collect();
    for (_, v, f, t) in &added {
      if let Some(n) = s.get(t) {
        // link types are enforced by the feature debug only
        if cfg!(feature = "debug") && !desc.type_ok(*v, *f, n.var) {
          return Outcome::Panic(Why::LinkType);
        }
      }
    }
    let touched = self.inc.keys().copied().chain(self.muts.iter().map(|x| x.0)).chain(self.upds.iter().map(|x| x.0)).collect();
    Outcome::Ok(Done { after: s, pre_bidi, added, removed, touched, gone: gone.keys().copied().collect() })
  }
}

/// The README's rules of bidirectional links, applied to the net link changes.
pub fn bidi(desc: &Desc, mut s: MState, removed: &[Link], added: &[Link]) -> Result<MState, Outcome> {
  if desc.bidi.is_empty() {
    return Ok(s);
  }
  for &(x, v, f, y) in removed {
    if !s.contains_key(&x) || !s.contains_key(&y) {
      continue;
    }
    let opp = desc.opposites(v, f, s[&y].var);
    for o in opp {
      s.get_mut(&y).unwrap().links[o as usize].retain(|t| *t != x);
    }
  }
  let mut single = Vec::new();
  let mut multi = Vec::new();
  for &(x, v, f, y) in added {
    if !s.contains_key(&x) || !s.contains_key(&y) || !has_link(&s[&x], f, y) {
      continue;
    }
    let opp = desc.opposites(v, f, s[&y].var);
    match opp.len() {
      0 => {},
      1 => single.push((x, y, opp)),
      _ => multi.push((x, y, opp)),
    }
  }
  let multi_missing = |s: &MState| multi.iter().any(|(x, y, opp)| !opp.iter().any(|o| has_link(&s[y], *o, *x)));
  let early = multi_missing(&s);
  for (x, y, opp) in &single {
    let yv = s[y].var;
    let n = s.get_mut(y).unwrap();
    let o = opp[0] as usize;
    if n.links[o].contains(x) {
      continue;
    }
    match desc.kind(yv, o) {
      Kind::Point => {
        if !n.links[o].is_empty() {
          return Err(Outcome::Panic(Why::BidiOccupied));
        }
        n.links[o] = vec![*x];
      },
      Kind::Set => {
        n.links[o].push(*x);
        n.links[o].sort();
      },
      Kind::Vec => return Err(Outcome::Unspec("bidirectional Vec")),
    }
  }
  if multi_missing(&s) {
    return Err(Outcome::Panic(Why::BidiChoices));
  }
  if early {
    return Err(Outcome::Unspec("choice of a bidirectional link depends on processing order"));
  }
  Ok(s)
}
