//! One judge per property: what a step must and must not do, as far as that property is concerned.
use crate::desc::*;
use crate::engine::*;
use crate::model::*;
use std::collections::BTreeSet;

fn short(s: &MState) -> String {
  format!("{:?}", s)
}

fn diff(want: &MState, got: &MState) -> Option<String> {
  for (l, n) in want {
    match got.get(l) {
      None => return Some(format!("node {} is missing", l)),
      Some(m) if m != n => return Some(format!("node {} is {:?}, expected {:?}", l, m, n)),
      _ => {},
    }
  }
  for l in got.keys() {
    if !want.contains_key(l) {
      return Some(format!("node {} should not be there", l));
    }
  }
  None
}

/// Reads a refusal: Some(true) refused as it must, Some(false) accepted what must be refused.
fn must_panic(r: &Rec, whys: &[Why]) -> Option<String> {
  if let Outcome::Panic(w) = r.expect {
    if whys.contains(w) && r.got.is_ok() {
      return Some(format!("{:?} is not refused; the graph is now {}", w, short(r.after)));
    }
  }
  None
}

fn ok<'a>(r: &'a Rec) -> Option<&'a Done> {
  match r.expect {
    Outcome::Ok(d) => Some(d),
    _ => None,
  }
}

fn no_panic(r: &Rec) -> Option<String> {
  if ok(r).is_some() {
    if let Err(e) = r.got {
      return Some(format!("panics: {}", e));
    }
  }
  None
}

/// C01: the whole documented result of a commit.
pub fn c01(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  if let Some(e) = must_panic(r, &[Why::NoSuchNode, Why::Unfilled, Why::WrongVariant]) {
    return Some(e);
  }
  if let Some(d) = ok(r) {
    if let Some(e) = diff(&d.after, r.after) {
      return Some(e);
    }
    if r.len != d.after.len() {
      return Some(format!("graph has {} nodes, expected {}", r.len, d.after.len()));
    }
  }
  None
}

/// C02: removed nodes are gone, nothing points at them, links held in lists keep their places,
/// and no other node disappears.
pub fn c02(r: &Rec) -> Option<String> {
  let d = ok(r)?;
  if d.gone.is_empty() {
    return None;
  }
  if let Err(e) = r.got {
    return Some(format!("panics: {}", e));
  }
  for l in &d.gone {
    if r.after.contains_key(l) {
      return Some(format!("removed node {} is still there", l));
    }
  }
  for (l, n) in r.after {
    for (f, ts) in n.links.iter().enumerate() {
      for t in ts {
        if d.gone.contains(t) {
          return Some(format!("link {} of node {} still points at removed node {}", r.desc.vars[n.var as usize].fields[f].name, l, t));
        }
      }
    }
  }
  for (l, n) in &d.after {
    match r.after.get(l) {
      None => return Some(format!("node {} disappeared with the removal of {:?}", l, d.gone)),
      Some(m) => {
        // the neighbours lose exactly the removed link
        if m.var == n.var && m.links != n.links {
          return Some(format!("links of node {} are {:?}, expected {:?}", l, m.links, n.links));
        }
      },
    }
  }
  None
}

/// C03: links that redirect and remove operate on are exactly the links there are.
pub fn c03(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  let d = ok(r)?;
  for (l, n) in &d.after {
    if let Some(m) = r.after.get(l) {
      if m.var == n.var && m.links != n.links {
        return Some(format!("links of node {} are {:?}, expected {:?}", l, m.links, n.links));
      }
    }
  }
  if let Some(Err(e)) = r.backlinks {
    return Some(format!("the graph's own check of its reverse links fails: {}", e));
  }
  if let Some(i) = r.integrity {
    let all = r.after.values().all(|n| n.links.iter().flatten().all(|t| *t == EMPTY || r.after.contains_key(t)));
    if all != i && (all || cfg!(feature = "debug")) {
      return Some(format!("the graph's own check that all links lead to nodes of the graph says {}", i));
    }
  }
  None
}

/// C04: links in declared pairs follow the rules.
pub fn c04(r: &Rec) -> Option<String> {
  if let Some(e) = r.decls {
    return Some(e.clone());
  }
  let d = ok(r)?;
  if let Err(e) = r.got {
    return Some(format!("panics: {}", e));
  }
  let fields: BTreeSet<(u8, u8)> = r.desc.bidi.iter().flat_map(|(a, b)| [*a, *b]).collect();
  for (l, n) in &d.after {
    if let Some(m) = r.after.get(l) {
      for f in 0..n.links.len() {
        if m.var == n.var && fields.contains(&(n.var, f as u8)) && m.links[f] != n.links[f] {
          return Some(format!("{}.{} of node {} is {:?}, expected {:?}", r.desc.vars[n.var as usize].name, r.desc.vars[n.var as usize].fields[f].name, l, m.links[f], n.links[f]));
        }
      }
    }
  }
  None
}

/// C05: commits are refused for conflicts, and for nothing else.
pub fn c05(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  must_panic(r, &[Why::BidiOccupied, Why::BidiChoices])
}

/// C06: redirections.
pub fn c06(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  if let Some(e) = must_panic(r, &[Why::RedirectLoop]) {
    return Some(e);
  }
  diff(&ok(r)?.after, r.after)
}

/// C07 (sequential part): indexes handed out are not empty and never the same.
pub fn c07(r: &Rec) -> Option<String> {
  r.index_fault.clone()
}

/// C08: contexts and allocations.
pub fn c08(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  if let Some(e) = must_panic(r, &[Why::Unfilled, Why::BadFill, Why::FillType]) {
    return Some(e);
  }
  if matches!(r.step, Step::Foreign(_) | Step::AdoptForeign { .. }) {
    if let Some(e) = must_panic(r, &[Why::NoSuchNode]) {
      return Some(e);
    }
  }
  diff(&ok(r)?.after, r.after)
}

/// C09: all views of the graph agree.
pub fn c09(r: &Rec) -> Option<String> {
  if r.got.is_ok() {
    if let Some(e) = r.views {
      return Some(e.clone());
    }
  }
  // a node is listed under the type it was last given
  let d = ok(r)?;
  if r.got.is_ok() {
    for (l, n) in &d.after {
      if let Some(m) = r.after.get(l) {
        if m.var != n.var {
          return Some(format!("node {} is a {}, it was made a {}", l, r.desc.vars[m.var as usize].name, r.desc.vars[n.var as usize].name));
        }
      }
    }
  }
  None
}

/// C10: switch_context and merge.
pub fn c10(r: &Rec) -> Option<String> {
  match r.step {
    Step::Switch { .. } | Step::Adopt { .. } | Step::MergeWith { .. } => {},
    Step::Txn(ops) if ops.iter().any(|o| matches!(o, Op::Merge(_))) => {},
    Step::AdoptForeign { .. } => return must_panic(r, &[Why::NoSuchNode]),
    // what comes after must still work as before
    _ => {},
  }
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  if let Some(Err(e)) = r.backlinks {
    return Some(format!("the graph's own check of its reverse links fails: {}", e));
  }
  if let Some(e) = r.index_fault {
    return Some(e.clone());
  }
  let d = ok(r)?;
  if r.len != d.after.len() {
    return Some(format!("graph has {} nodes, expected {}", r.len, d.after.len()));
  }
  diff(&d.after, r.after)
}

/// C11: serialization.
pub fn c11(r: &Rec) -> Option<String> {
  c10(r)
}

/// C12: link types.
pub fn c12(r: &Rec) -> Option<String> {
  if let Some(e) = r.decls {
    return Some(e.clone());
  }
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  must_panic(r, &[Why::LinkType])
}

/// C13: what commit_checked calls.
pub fn c13(r: &Rec) -> Option<String> {
  let d = ok(r)?;
  let both = r.calls.as_ref()?;
  let calls = &both[0];
  // what has to be called
  let added: BTreeSet<(L, L)> = d.added.iter().map(|x| (x.0, x.3)).collect();
  let removed: BTreeSet<(L, L)> = d.removed.iter().filter(|x| d.after.contains_key(&x.0)).map(|x| (x.0, x.3)).collect();
  let mut must: BTreeSet<L> = BTreeSet::new();
  for (l, n) in &d.after {
    if r.before.get(l) != Some(n) {
      must.insert(*l);
    }
  }
  let mut may = must.clone();
  may.extend(d.touched.iter().filter(|l| d.after.contains_key(l)));
  may.extend(added.iter().chain(removed.iter()).map(|x| x.0));
  if let Step::CheckedFail(_, k, n) = r.step {
    let calls = &both[*k as usize / 3];
    let most = match k % 3 {
      0 => calls.node.len(),
      1 => calls.add.len(),
      _ => calls.remove.len(),
    };
    if most > *n as usize && r.got.is_ok() {
      return Some("a failing check does not refuse the commit".into());
    }
    if most <= *n as usize && r.got.is_err() {
      return Some(format!("panics though no check failed: {}", r.got.as_ref().unwrap_err()));
    }
    return None;
  }
  if let Err(e) = r.got {
    return Some(format!("panics though every check passes: {}", e));
  }
  if both[0] != both[1] {
    return Some(format!("two checks of the same kind get different calls: {:?} and {:?}", both[0], both[1]));
  }
  let nodes: BTreeSet<L> = calls.node.iter().map(|x| x.0).collect();
  if let Some(l) = must.difference(&nodes).next() {
    return Some(format!("the node check is not called for changed node {}", l));
  }
  if let Some(l) = nodes.difference(&may).next() {
    return Some(format!("the node check is called for unchanged node {}", l));
  }
  for (l, n) in &calls.node {
    if r.after.get(l) != Some(n) {
      return Some(format!("the node check sees {:?} for node {}, the graph holds {:?}", n, l, r.after.get(l)));
    }
  }
  for (what, want, got) in [("add", &added, &calls.add), ("remove", &removed, &calls.remove)] {
    let g: BTreeSet<(L, L)> = got.iter().map(|x| (x.0, x.1)).collect();
    if let Some(x) = want.difference(&g).next() {
      return Some(format!("the link {} check is not called for {:?}", what, x));
    }
    if let Some(x) = g.difference(want).next() {
      return Some(format!("the link {} check is called for {:?}", what, x));
    }
    for (x, y, n, m) in got {
      if r.after.get(x) != Some(n) || r.after.get(y) != m.as_ref() {
        return Some(format!("the link {} check of {:?} sees {:?} {:?}", what, (x, y), n, m));
      }
    }
  }
  None
}

/// C16: the same results, whatever the configuration.
pub fn c16(r: &Rec) -> Option<String> {
  if let Some(e) = no_panic(r) {
    return Some(e);
  }
  if let Some(e) = must_panic(r, &[Why::NoSuchNode, Why::WrongVariant, Why::RedirectLoop, Why::BidiOccupied, Why::BidiChoices, Why::BadFill, Why::FillType, Why::LinkType]) {
    return Some(e);
  }
  if r.got.is_ok() {
    if let Some(e) = r.views {
      return Some(e.clone());
    }
  }
  if cfg!(feature = "debug") && matches!(r.step, Step::Checked(_)) {
    if let Some(e) = c13(r) {
      return Some(e);
    }
  }
  let d = ok(r)?;
  if r.len != d.after.len() {
    return Some(format!("graph has {} nodes, expected {}", r.len, d.after.len()));
  }
  diff(&d.after, r.after)
}

/// C15, C17: the behaviour of a schema as a whole is what the model says.
pub fn whole(r: &Rec) -> Option<String> {
  if let Some(e) = r.decls {
    return Some(e.clone());
  }
  if let Some(e) = c16(r) {
    return Some(e);
  }
  if let Some(Err(e)) = r.backlinks {
    return Some(format!("the graph's own check of its reverse links fails: {}", e));
  }
  None
}
