//! What the generated declarations use, and the reports they give.
pub use ::ordermap::{self, OrderSet};
pub use indexmap::{self, IndexSet};
pub use mc::desc::{Kind, LinkField};
pub use serde::{Deserialize, Serialize};
pub use std::collections::{self, BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
pub use std::vec;
pub use ttgraph::{discriminant, node_enum, CateArena, Discriminated, NodeDiscriminant, NodeEnum, NodeIndex, TypedNode};

#[derive(Clone)]
pub struct Link {
  pub name: &'static str,
  pub kind: Kind,
  pub groups: Vec<&'static str>,
}
type Lists<'a> = &'a [Vec<NodeIndex>];
type Names<'a> = &'a [&'static str];
pub struct Case {
  pub text: String,
  pub at: (usize, usize),
  pub nvars: usize,
  pub links: Vec<Link>,
  pub data: Vec<&'static str>,
  pub phantom: Vec<&'static str>,
  pub in_groups: Vec<(&'static str, bool)>,
  pub stat: fn(Names) -> Stat,
  pub dynr: fn(Lists, Names) -> Dyn,
  pub enr: fn(Lists, Names) -> Dyn,
  /// one call of an editor: what it said, and what the fields hold afterwards
  pub ed: fn(Lists, Edit) -> (Said, Vec<Vec<NodeIndex>>),
  pub ened: fn(Lists, Edit) -> (Said, Vec<Vec<NodeIndex>>),
  /// another variant of the enum has links
  pub other: bool,
}

/// A call of an editor; links by their number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edit {
  Add(usize, NodeIndex),
  Remove(usize, NodeIndex),
  /// of the entry of this link at this place among its entries with a target
  Modify(usize, NodeIndex, usize, NodeIndex),
  /// of a single link or set that does not hold the old target
  Swap(usize, NodeIndex, NodeIndex),
  /// through the enum, with a link of another variant
  AddOther(NodeIndex),
  RemoveOther(NodeIndex),
}
/// (removed, added) as far as the call tells; None: it panics; the entry was not found: Some((None, None))
pub type Said = Option<(Option<bool>, Option<bool>)>;

/// Contents with one entry in one link.
pub fn single(n: usize, i: usize) -> Vec<Vec<NodeIndex>> {
  (0..n).map(|k| if k == i { vec![NodeIndex(9)] } else { vec![] }).collect()
}

pub fn edit<T: TypedNode>(x: &mut T, e: Edit) -> Said {
  let m = T::link_mirrors();
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match e {
    Edit::Add(l, t) => (None, Some(x.add_link(m[l], t))),
    Edit::Remove(l, t) => (Some(x.remove_link(m[l], t)), None),
    Edit::Modify(l, old, nth, new) => {
      let s = x.iter_sources().filter(|(t, s)| *t == old && T::to_link_mirror(*s) == m[l]).nth(nth);
      match s {
        Some((_, s)) => {
          let (r, a) = x.modify_link(s, old, new);
          (Some(r), Some(a))
        },
        None => (None, None),
      }
    },
    Edit::Swap(l, old, new) => {
      let (r, a) = x.modify_link(T::to_source(m[l]), old, new);
      (Some(r), Some(a))
    },
    _ => (None, None),
  }))
  .ok()
}

pub fn enum_edit<E: NodeEnum>(x: &mut E, e: Edit, of: impl Fn(usize) -> E, other: Option<E>) -> Said {
  let mirror = |x: &E| x.iter_sources().next().map(|s| E::to_link_mirror_enum(s.1)).expect("a node with a link has a source");
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match e {
    Edit::Add(l, t) => (None, Some(x.add_link(mirror(&of(l)), t))),
    Edit::Remove(l, t) => (Some(x.remove_link(mirror(&of(l)), t)), None),
    Edit::Modify(l, old, nth, new) => {
      let m = mirror(&of(l));
      let s = x.iter_sources().filter(|(t, s)| *t == old && E::to_link_mirror_enum(*s) == m).nth(nth);
      match s {
        Some((_, s)) => {
          let r = x.modify_link(s, old, new);
          (Some(r.removed), Some(r.added))
        },
        None => (None, None),
      }
    },
    Edit::Swap(l, old, new) => {
      let s = E::to_source_enum(mirror(&of(l)));
      let r = x.modify_link(s, old, new);
      (Some(r.removed), Some(r.added))
    },
    Edit::AddOther(t) => (None, Some(x.add_link(mirror(other.as_ref().unwrap()), t))),
    Edit::RemoveOther(t) => (Some(x.remove_link(mirror(other.as_ref().unwrap()), t)), None),
  }))
  .ok()
}

/// Equal where equality exists; for function pointers and the like, the same place in memory.
pub fn same<T>(a: Option<&T>, b: &T) -> bool {
  a.map_or(false, |a| std::ptr::eq(a, b))
}

#[derive(Debug, Default)]
pub struct Stat {
  pub names: Vec<&'static str>,
  pub kinds: Vec<Kind>,
  /// the link mirrors are all different
  pub mirrors: usize,
  pub distinct: bool,
  pub data: Vec<&'static str>,
  /// by name probed: which link or group it is (numbered by first appearance)
  pub by_name: Vec<Option<usize>>,
  /// by link: the links and groups it belongs to, in the same numbering
  pub logs: Vec<Vec<Option<usize>>>,
  /// by link: mirror -> source -> mirror comes back (None: refused)
  pub round: Vec<Option<bool>>,
}

pub fn statics<T: TypedNode>(probe: Names) -> Stat {
  let m = T::link_mirrors();
  let mut known: Vec<T::LoGMirror> = Vec::new();
  let mut by_name = Vec::new();
  for n in probe {
    by_name.push(T::get_link_or_group_by_name(n).map(|x| match known.iter().position(|k| *k == x) {
      Some(i) => i,
      None => {
        known.push(x);
        known.len() - 1
      },
    }));
  }
  Stat {
    names: T::link_names().to_vec(),
    kinds: T::link_types()
      .iter()
      .map(|k| match k {
        ttgraph::LinkType::Point => Kind::Point,
        ttgraph::LinkType::Set => Kind::Set,
        ttgraph::LinkType::Vec => Kind::Vec,
      })
      .collect(),
    mirrors: m.len(),
    distinct: m.iter().collect::<BTreeSet<_>>().len() == m.len(),
    data: T::data_names().to_vec(),
    logs: m.iter().map(|m| T::to_link_or_groups(*m).iter().map(|x| known.iter().position(|k| k == x)).collect()).collect(),
    by_name,
    round: m.iter().map(|m| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::to_link_mirror(T::to_source(*m)) == *m)).ok()).collect(),
  }
}

#[derive(Debug, Default)]
pub struct Dyn {
  /// by link mirror, what iter_links lists
  pub links: Vec<Vec<NodeIndex>>,
  /// (target, number of the link mirror) by iter_sources; all sources of one link and target differ
  pub sources: Vec<(NodeIndex, usize)>,
  pub sources_distinct: bool,
  pub by_name: Vec<Vec<NodeIndex>>,
  pub by_group: Vec<Vec<NodeIndex>>,
  /// by link, whether it contains indexes 1, 2, 3
  pub contains: Vec<[bool; 3]>,
  pub data: Vec<bool>,
  // of the enum only
  pub in_group: Vec<bool>,
  pub disc: bool,
  /// (position, number of variants) when walking over the discriminants
  pub walk: (usize, usize),
  pub check_link: bool,
  /// by link that has a target: (how many links and groups, and the links each expands to)
  pub logs: Vec<(usize, Vec<BTreeSet<usize>>)>,
  pub expand_unknown: bool,
}

pub fn dynamics<T: TypedNode>(x: &T, probe: Names) -> Dyn {
  let m = T::link_mirrors();
  let s: Vec<_> = x.iter_sources().collect();
  Dyn {
    links: m.iter().map(|m| x.iter_links(*m).collect()).collect(),
    sources: s.iter().map(|(i, s)| (*i, m.iter().position(|m| *m == T::to_link_mirror(*s)).unwrap_or(usize::MAX))).collect(),
    sources_distinct: s.iter().collect::<HashSet<_>>().len() == s.len(),
    by_name: probe.iter().map(|n| x.get_links_by_name(n).collect()).collect(),
    by_group: probe.iter().map(|n| x.get_links_by_group(n)).collect(),
    contains: m.iter().map(|m| [1, 2, 3].map(|i| x.contains_link(*m, NodeIndex(i)))).collect(),
    ..Default::default()
  }
}

/// The same through the enum. Links are numbered by their first appearance among the sources.
pub fn enum_dynamics<E: NodeEnum>(x: &E, probe: Names) -> Dyn {
  let s: Vec<_> = x.iter_sources().collect();
  let mut m: Vec<E::LinkMirrorEnum> = Vec::new();
  let mut sources = Vec::new();
  for (i, s) in &s {
    let k = E::to_link_mirror_enum(*s);
    if !m.contains(&k) {
      m.push(k);
    }
    sources.push((*i, m.iter().position(|x| *x == k).unwrap()));
  }
  let logs = m
    .iter()
    .map(|k| {
      let l = E::to_log_mirror_enums(*k);
      (l.iter().collect::<HashSet<_>>().len(), l.iter().map(|g| E::expand_link_groups(*g).iter().map(|z| m.iter().position(|x| x == z).unwrap_or(usize::MAX)).collect()).collect())
    })
    .collect();
  Dyn {
    links: m.iter().map(|m| x.iter_links(*m).collect()).collect(),
    sources,
    sources_distinct: s.iter().collect::<HashSet<_>>().len() == s.len(),
    by_name: probe.iter().map(|n| x.get_links_by_name(n).collect()).collect(),
    by_group: probe.iter().map(|n| x.get_links_by_group(n)).collect(),
    contains: m.iter().map(|m| [1, 2, 3].map(|i| x.contains_link(*m, NodeIndex(i)))).collect(),
    in_group: probe.iter().map(|n| x.in_group(n)).collect(),
    check_link: m.iter().all(|m| x.check_link(*m)),
    logs,
    ..Default::default()
  }
}

pub fn walk<D: NodeDiscriminant>(me: D) -> (usize, usize) {
  let mut at = usize::MAX;
  let mut n = 0;
  let mut d = Some(D::first());
  while let Some(x) = d {
    if x == me {
      at = n;
    }
    n += 1;
    d = if n > 1000 { None } else { x.next() };
  }
  (at, n)
}
