//! Schema descriptors and the label-level representation of nodes.
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use ttgraph::*;

/// A node label. 0 is the empty index, real labels start at 1; labels >= ALIEN stand for
/// indexes the driver never handed out.
pub type L = u16;
pub const EMPTY: L = 0;
pub const ALIEN: L = 60000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  Point,
  Set,
  Vec,
}

#[derive(Clone, Debug)]
pub struct FieldDesc {
  pub name: &'static str,
  pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct VarDesc {
  pub name: &'static str,
  pub fields: Vec<FieldDesc>,
}

#[derive(Clone, Debug)]
pub struct Desc {
  pub name: &'static str,
  pub vars: Vec<VarDesc>,
  /// named groups of variants
  pub groups: Vec<(&'static str, Vec<u8>)>,
  /// expanded bidirectional pairs ((var, field), (var, field))
  pub bidi: Vec<((u8, u8), (u8, u8))>,
  /// expanded link types (var, field, allowed variants)
  pub link_type: Vec<(u8, u8, Vec<u8>)>,
}

impl Desc {
  pub fn kind(&self, var: u8, field: usize) -> Kind {
    self.vars[var as usize].fields[field].kind
  }
  pub fn nfields(&self, var: u8) -> usize {
    self.vars[var as usize].fields.len()
  }
  /// fields of variant `tv` declared opposite to (v, f)
  pub fn opposites(&self, v: u8, f: u8, tv: u8) -> Vec<u8> {
    let mut r: Vec<u8> = Vec::new();
    for &(a, b) in &self.bidi {
      if a == (v, f) && b.0 == tv && !r.contains(&b.1) {
        r.push(b.1);
      }
      if b == (v, f) && a.0 == tv && !r.contains(&a.1) {
        r.push(a.1);
      }
    }
    r
  }
  pub fn type_ok(&self, v: u8, f: u8, tv: u8) -> bool {
    self.link_type.iter().all(|(a, b, ok)| *a != v || *b != f || ok.contains(&tv))
  }
}

/// A node value over link type T (labels in the model, `NodeIndex` for the real graph).
/// Point: 0 or 1 entries. Set: sorted, unique. Vec: positional, may hold the empty index.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Nd<T> {
  pub var: u8,
  pub links: Vec<Vec<T>>,
  pub data: u32,
}
pub type MNode = Nd<L>;
pub type RNode = Nd<NodeIndex>;

impl<T: Copy> Nd<T> {
  pub fn map<U: Ord>(&self, desc: &Desc, mut f: impl FnMut(T) -> U) -> Nd<U> {
    let mut links: Vec<Vec<U>> = self.links.iter().map(|l| l.iter().map(|x| f(*x)).collect()).collect();
    for (i, l) in links.iter_mut().enumerate() {
      if desc.kind(self.var, i) == Kind::Set {
        l.sort();
        l.dedup();
      }
    }
    Nd { var: self.var, links, data: self.data }
  }
}

/// How a link field is read and written, by its own Rust type (never through the reflection under test).
pub trait LinkField: Sized {
  fn from_list(l: &[NodeIndex]) -> Self;
  fn to_list(&self) -> Vec<NodeIndex>;
}
impl LinkField for NodeIndex {
  fn from_list(l: &[NodeIndex]) -> Self {
    l.first().copied().unwrap_or(NodeIndex(0))
  }
  fn to_list(&self) -> Vec<NodeIndex> {
    if self.0 == 0 {
      vec![]
    } else {
      vec![*self]
    }
  }
}
impl LinkField for Vec<NodeIndex> {
  fn from_list(l: &[NodeIndex]) -> Self {
    l.to_vec()
  }
  fn to_list(&self) -> Vec<NodeIndex> {
    self.clone()
  }
}
macro_rules! set_field {
  ($($t:ty),*) => {$(
    impl LinkField for $t {
      fn from_list(l: &[NodeIndex]) -> Self { l.iter().copied().collect() }
      fn to_list(&self) -> Vec<NodeIndex> { let mut v: Vec<NodeIndex> = self.iter().copied().collect(); v.sort(); v }
    }
  )*}
}
set_field!(std::collections::BTreeSet<NodeIndex>, det::HashSet<NodeIndex>, std::collections::HashSet<NodeIndex>, ::ordermap::OrderSet<NodeIndex>, indexmap::IndexSet<NodeIndex>);

/// `HashSet` with a fixed hasher: the macros match link types by name, so this is what the
/// schemas use to keep iteration order reproducible.
pub mod det {
  #[derive(Clone, Default)]
  pub struct Fnv(u64);
  impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
      self.0
    }
    fn write(&mut self, b: &[u8]) {
      for x in b {
        self.0 = (self.0 ^ (*x as u64 + 0x9e37)).wrapping_mul(0x100000001b3);
      }
    }
  }
  pub type HashSet<T> = std::collections::HashSet<T, std::hash::BuildHasherDefault<Fnv>>;
}

thread_local! {
  static BASE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// Where the variants of the schema in use start, in an enum that holds several schemas.
pub fn base() -> u8 {
  BASE.with(|b| b.get())
}
pub fn set_base(b: u8) {
  BASE.with(|x| x.set(b));
}

/// A real schema: a `node_enum!` declaration plus adapters between its nodes and `RNode`.
pub trait Schema: 'static + Sized {
  type N: NodeEnum + Clone + Debug + Serialize + for<'de> Deserialize<'de> + 'static;
  fn desc() -> Desc;
  fn build(n: &RNode) -> Self::N;
  fn read(n: &Self::N) -> RNode;
  fn disc(var: u8) -> <Self::N as NodeEnum>::Discriminant;
  fn iter_nodes(g: &Graph<Self::N>, var: u8) -> Vec<(NodeIndex, u32)>;
  fn get_node(g: &Graph<Self::N>, var: u8, idx: NodeIndex) -> Option<u32>;
  /// mut_node!/update_node! adding `delta` to data: form 0..3 (legacy, closure, move closure)
  fn mut_node(t: &mut Transaction<'_, Self::N>, var: u8, idx: NodeIndex, delta: u32, form: u8);
  fn update_node(t: &mut Transaction<'_, Self::N>, var: u8, idx: NodeIndex, delta: u32, form: u8);
  fn alloc_node(t: &mut Transaction<'_, Self::N>, var: u8) -> NodeIndex;
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Edit<T> {
  Nop,
  Set(u8, Vec<T>),
  Add(u8, T),
  Del(u8, T),
  Data(u32, u32),
  Become(Nd<T>),
  /// through mut_node! / update_node!: only if the node is of this variant, else the macro panics
  IfVar(u8, u8),
}

/// (factor, summand) of the edit in the different forms of mut_node! and update_node!
pub fn if_var_data(form: u8) -> (u32, u32) {
  (2, [5, 7, 11][form.min(2) as usize])
}

impl<T: Copy + Ord + Default> Edit<T> {
  pub fn map<U: Copy + Ord>(&self, desc: &Desc, mut f: impl FnMut(T) -> U) -> Edit<U> {
    match self {
      Edit::Nop => Edit::Nop,
      Edit::Set(i, v) => Edit::Set(*i, v.iter().map(|x| f(*x)).collect()),
      Edit::Add(i, t) => Edit::Add(*i, f(*t)),
      Edit::Del(i, t) => Edit::Del(*i, f(*t)),
      Edit::Data(a, b) => Edit::Data(*a, *b),
      Edit::Become(n) => Edit::Become(n.map(desc, f)),
      Edit::IfVar(a, b) => Edit::IfVar(*a, *b),
    }
  }
  /// The edit would panic on this node.
  pub fn refuses(&self, n: &Nd<T>) -> bool {
    matches!(self, Edit::IfVar(v, _) if *v != n.var)
  }
  /// Apply to a node value. An edit that names a field the variant lacks does nothing.
  pub fn apply(&self, desc: &Desc, n: &mut Nd<T>) {
    let nf = desc.nfields(n.var);
    match self {
      Edit::Nop => {},
      Edit::Set(i, v) if (*i as usize) < nf => {
        n.links[*i as usize] = norm(desc.kind(n.var, *i as usize), v.clone());
      },
      Edit::Add(i, t) if (*i as usize) < nf => {
        let k = desc.kind(n.var, *i as usize);
        let l = &mut n.links[*i as usize];
        match k {
          Kind::Point => *l = norm(k, vec![*t]),
          Kind::Set => {
            if !l.contains(t) {
              l.push(*t);
              l.sort();
            }
          },
          Kind::Vec => l.push(*t),
        }
      },
      Edit::Del(i, t) if (*i as usize) < nf => {
        n.links[*i as usize].retain(|x| x != t);
      },
      Edit::Data(a, b) => n.data = n.data.wrapping_mul(*a).wrapping_add(*b),
      Edit::IfVar(_, form) => {
        let (a, b) = if_var_data(*form);
        n.data = n.data.wrapping_mul(a).wrapping_add(b);
      },
      Edit::Become(m) => {
        let d = n.data;
        *n = m.clone();
        n.data = d.wrapping_add(m.data);
      },
      _ => {},
    }
  }
}

/// Normal form of a link list: Point keeps at most one non-empty entry, Set is sorted and unique.
pub fn norm<T: Copy + Ord + Default>(k: Kind, mut v: Vec<T>) -> Vec<T> {
  match k {
    Kind::Point => {
      v.retain(|x| *x != T::default());
      v.truncate(1);
    },
    Kind::Set => {
      v.sort();
      v.dedup();
    },
    Kind::Vec => {},
  }
  v
}
