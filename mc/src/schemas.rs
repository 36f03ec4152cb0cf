// Generated by /verif/gen/core.py. Do not edit.
pub mod plain {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub d: NodeIndex,
    pub s: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub v: Vec<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
    }
    group! {
      ab{A, B},
      bc{B, C},
      only{C},
      all{A, B, C},
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "plain",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "d", kind: Kind::Point }, FieldDesc { name: "s", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "v", kind: Kind::Vec }] },
          VarDesc { name: "C", fields: vec![] },
        ],
        groups: vec![("ab", vec![0, 1]), ("bc", vec![1, 2]), ("only", vec![2]), ("all", vec![0, 1, 2])],
        bidi: vec![],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { d: LinkField::from_list(&n.links[0]), s: LinkField::from_list(&n.links[1]), data: n.data }),
        1 => Node::B(NB { v: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::C(NC { data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.d.to_list(), x.s.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.v.to_list()], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        _ => discriminant!(Node::C),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        _ => get_node!(g, Node::C, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        _ => alloc_node!(t, Node::C),
      }
    }
  }
}

pub mod kinds {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub d: NodeIndex,
    pub e: NodeIndex,
    pub h: HashSet<NodeIndex>,
    pub v: Vec<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub o: OrderSet<NodeIndex>,
    pub i: IndexSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "kinds",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "d", kind: Kind::Point }, FieldDesc { name: "e", kind: Kind::Point }, FieldDesc { name: "h", kind: Kind::Set }, FieldDesc { name: "v", kind: Kind::Vec }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "o", kind: Kind::Set }, FieldDesc { name: "i", kind: Kind::Set }] },
        ],
        groups: vec![],
        bidi: vec![],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { d: LinkField::from_list(&n.links[0]), e: LinkField::from_list(&n.links[1]), h: LinkField::from_list(&n.links[2]), v: LinkField::from_list(&n.links[3]), data: n.data }),
        _ => Node::B(NB { o: LinkField::from_list(&n.links[0]), i: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.d.to_list(), x.e.to_list(), x.h.to_list(), x.v.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.o.to_list(), x.i.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        _ => discriminant!(Node::B),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        _ => get_node!(g, Node::B, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        _ => alloc_node!(t, Node::B),
      }
    }
  }
}

pub mod many {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub x: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub x: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct ND {
    pub x: Vec<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NE {
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
      D(ND),
      E(NE),
    }
    group! {
      first{A, B},
      second{C, D},
      third{A, D},
      one{E},
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "many",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "x", kind: Kind::Point }] },
          VarDesc { name: "B", fields: vec![] },
          VarDesc { name: "C", fields: vec![FieldDesc { name: "x", kind: Kind::Set }] },
          VarDesc { name: "D", fields: vec![FieldDesc { name: "x", kind: Kind::Vec }] },
          VarDesc { name: "E", fields: vec![] },
        ],
        groups: vec![("first", vec![0, 1]), ("second", vec![2, 3]), ("third", vec![0, 3]), ("one", vec![4])],
        bidi: vec![],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { x: LinkField::from_list(&n.links[0]), data: n.data }),
        1 => Node::B(NB { data: n.data }),
        2 => Node::C(NC { x: LinkField::from_list(&n.links[0]), data: n.data }),
        3 => Node::D(ND { x: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::E(NE { data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.x.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![x.x.to_list()], data: x.data },
        Node::D(x) => Nd { var: 3, links: vec![x.x.to_list()], data: x.data },
        Node::E(x) => Nd { var: 4, links: vec![], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        2 => discriminant!(Node::C),
        3 => discriminant!(Node::D),
        _ => discriminant!(Node::E),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        2 => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
        3 => iter_nodes!(g, Node::D).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::E).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        2 => get_node!(g, Node::C, idx).map(|n| n.data),
        3 => get_node!(g, Node::D, idx).map(|n| n.data),
        _ => get_node!(g, Node::E, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (2, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (2, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (2, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (3, 0) => { const D: u32 = 5; mut_node!(t, Node::D, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (3, 1) => { const D: u32 = 7; mut_node!(t, Node::D, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (3, _) => mut_node!(t, Node::D, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::E, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::E, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::E, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (2, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (2, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (2, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (3, 0) => { const D: u32 = 5; update_node!(t, Node::D, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (3, 1) => { const D: u32 = 7; update_node!(t, Node::D, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (3, _) => update_node!(t, Node::D, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::E, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::E, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::E, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        2 => alloc_node!(t, Node::C),
        3 => alloc_node!(t, Node::D),
        _ => alloc_node!(t, Node::E),
      }
    }
  }
}

pub mod pp {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub b: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub a: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
    }
    bidirectional! {
      A.b <-> B.a,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "pp",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "b", kind: Kind::Point }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "a", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { b: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::B(NB { a: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.b.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.a.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        _ => discriminant!(Node::B),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        _ => get_node!(g, Node::B, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        _ => alloc_node!(t, Node::B),
      }
    }
  }
}

pub mod ps {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NF {
    pub ws: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NW {
    pub f: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      F(NF),
      W(NW),
    }
    bidirectional! {
      F.ws <-> W.f,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "ps",
        vars: vec![
          VarDesc { name: "F", fields: vec![FieldDesc { name: "ws", kind: Kind::Set }] },
          VarDesc { name: "W", fields: vec![FieldDesc { name: "f", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::F(NF { ws: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::W(NW { f: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::F(x) => Nd { var: 0, links: vec![x.ws.to_list()], data: x.data },
        Node::W(x) => Nd { var: 1, links: vec![x.f.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::F),
        _ => discriminant!(Node::W),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::F).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::W).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::F, idx).map(|n| n.data),
        _ => get_node!(g, Node::W, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::F, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::F, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::F, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::W, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::W, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::W, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::F, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::F, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::F, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::W, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::W, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::W, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::F),
        _ => alloc_node!(t, Node::W),
      }
    }
  }
}

pub mod ss {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub bs: HashSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub as_: OrderSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
    }
    bidirectional! {
      A.bs <-> B.as_,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "ss",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "bs", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "as_", kind: Kind::Set }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { bs: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::B(NB { as_: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.bs.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.as_.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        _ => discriminant!(Node::B),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        _ => get_node!(g, Node::B, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        _ => alloc_node!(t, Node::B),
      }
    }
  }
}

pub mod list {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub next: NodeIndex,
    pub prev: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
    }
    bidirectional! {
      A.next <-> A.prev,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "list",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "next", kind: Kind::Point }, FieldDesc { name: "prev", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (0, 1))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        _ => Node::A(NA { next: LinkField::from_list(&n.links[0]), prev: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.next.to_list(), x.prev.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        _ => discriminant!(Node::A),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        _ => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        _ => get_node!(g, Node::A, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        _ => alloc_node!(t, Node::A),
      }
    }
  }
}

pub mod tree {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub up: NodeIndex,
    pub kids: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
    }
    bidirectional! {
      A.up <-> A.kids,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "tree",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "up", kind: Kind::Point }, FieldDesc { name: "kids", kind: Kind::Set }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (0, 1))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        _ => Node::A(NA { up: LinkField::from_list(&n.links[0]), kids: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.up.to_list(), x.kids.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        _ => discriminant!(Node::A),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        _ => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        _ => get_node!(g, Node::A, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        _ => alloc_node!(t, Node::A),
      }
    }
  }
}

pub mod friends {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub fr: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub mate: NodeIndex,
    pub free: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
    }
    bidirectional! {
      A.fr <-> A.fr,
      B.mate <-> B.mate,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "friends",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "fr", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "mate", kind: Kind::Point }, FieldDesc { name: "free", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (0, 0)), ((1, 0), (1, 0))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { fr: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::B(NB { mate: LinkField::from_list(&n.links[0]), free: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.fr.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.mate.to_list(), x.free.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        _ => discriminant!(Node::B),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        _ => get_node!(g, Node::B, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        _ => alloc_node!(t, Node::B),
      }
    }
  }
}

pub mod fan {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NX {
    pub y: NodeIndex,
    pub t: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NY {
    pub x: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NZ {
    pub x: NodeIndex,
    pub u: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      X(NX),
      Y(NY),
      Z(NZ),
    }
    bidirectional! {
      X.y <-> Y.x,
      X.y <-> Z.x,
      X.t <-> Z.u,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "fan",
        vars: vec![
          VarDesc { name: "X", fields: vec![FieldDesc { name: "y", kind: Kind::Point }, FieldDesc { name: "t", kind: Kind::Set }] },
          VarDesc { name: "Y", fields: vec![FieldDesc { name: "x", kind: Kind::Set }] },
          VarDesc { name: "Z", fields: vec![FieldDesc { name: "x", kind: Kind::Point }, FieldDesc { name: "u", kind: Kind::Set }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0)), ((0, 0), (2, 0)), ((0, 1), (2, 1))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::X(NX { y: LinkField::from_list(&n.links[0]), t: LinkField::from_list(&n.links[1]), data: n.data }),
        1 => Node::Y(NY { x: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::Z(NZ { x: LinkField::from_list(&n.links[0]), u: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::X(x) => Nd { var: 0, links: vec![x.y.to_list(), x.t.to_list()], data: x.data },
        Node::Y(x) => Nd { var: 1, links: vec![x.x.to_list()], data: x.data },
        Node::Z(x) => Nd { var: 2, links: vec![x.x.to_list(), x.u.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::X),
        1 => discriminant!(Node::Y),
        _ => discriminant!(Node::Z),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::X).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::Y).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::Z).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::X, idx).map(|n| n.data),
        1 => get_node!(g, Node::Y, idx).map(|n| n.data),
        _ => get_node!(g, Node::Z, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::X, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::X, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::X, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::Y, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::Y, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::Y, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::Z, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::Z, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::Z, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::X, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::X, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::X, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::Y, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::Y, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::Y, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::Z, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::Z, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::Z, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::X),
        1 => alloc_node!(t, Node::Y),
        _ => alloc_node!(t, Node::Z),
      }
    }
  }
}

pub mod multi {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NX {
    pub y: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NY {
    #[group(x)] pub x1: NodeIndex,
    #[group(x)] pub x2: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      X(NX),
      Y(NY),
    }
    bidirectional! {
      X.y <-> Y.x,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "multi",
        vars: vec![
          VarDesc { name: "X", fields: vec![FieldDesc { name: "y", kind: Kind::Point }] },
          VarDesc { name: "Y", fields: vec![FieldDesc { name: "x1", kind: Kind::Point }, FieldDesc { name: "x2", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0)), ((0, 0), (1, 1))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::X(NX { y: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::Y(NY { x1: LinkField::from_list(&n.links[0]), x2: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::X(x) => Nd { var: 0, links: vec![x.y.to_list()], data: x.data },
        Node::Y(x) => Nd { var: 1, links: vec![x.x1.to_list(), x.x2.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::X),
        _ => discriminant!(Node::Y),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::X).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::Y).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::X, idx).map(|n| n.data),
        _ => get_node!(g, Node::Y, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::X, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::X, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::X, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::Y, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::Y, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::Y, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::X, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::X, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::X, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::Y, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::Y, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::Y, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::X),
        _ => alloc_node!(t, Node::Y),
      }
    }
  }
}

pub mod multiset {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NX {
    pub y: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NY {
    #[group(x)] pub x1: BTreeSet<NodeIndex>,
    #[group(x)] pub x2: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      X(NX),
      Y(NY),
    }
    bidirectional! {
      X.y <-> Y.x,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "multiset",
        vars: vec![
          VarDesc { name: "X", fields: vec![FieldDesc { name: "y", kind: Kind::Set }] },
          VarDesc { name: "Y", fields: vec![FieldDesc { name: "x1", kind: Kind::Set }, FieldDesc { name: "x2", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0)), ((0, 0), (1, 1))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::X(NX { y: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::Y(NY { x1: LinkField::from_list(&n.links[0]), x2: LinkField::from_list(&n.links[1]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::X(x) => Nd { var: 0, links: vec![x.y.to_list()], data: x.data },
        Node::Y(x) => Nd { var: 1, links: vec![x.x1.to_list(), x.x2.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::X),
        _ => discriminant!(Node::Y),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::X).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::Y).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::X, idx).map(|n| n.data),
        _ => get_node!(g, Node::Y, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::X, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::X, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::X, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::Y, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::Y, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::Y, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::X, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::X, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::X, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::Y, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::Y, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::Y, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::X),
        _ => alloc_node!(t, Node::Y),
      }
    }
  }
}

pub mod selfmulti {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub p: NodeIndex,
    #[group(g)] pub q1: NodeIndex,
    #[group(g)] pub q2: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
    }
    bidirectional! {
      A.p <-> A.g,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "selfmulti",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "p", kind: Kind::Point }, FieldDesc { name: "q1", kind: Kind::Point }, FieldDesc { name: "q2", kind: Kind::Set }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (0, 1)), ((0, 0), (0, 2))],
        link_type: vec![],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        _ => Node::A(NA { p: LinkField::from_list(&n.links[0]), q1: LinkField::from_list(&n.links[1]), q2: LinkField::from_list(&n.links[2]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.p.to_list(), x.q1.to_list(), x.q2.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        _ => discriminant!(Node::A),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        _ => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        _ => get_node!(g, Node::A, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        _ => alloc_node!(t, Node::A),
      }
    }
  }
}

pub mod typed {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub d: NodeIndex,
    pub s: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub v: Vec<NodeIndex>,
    pub q: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub d: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
    }
    group! {
      bc{B, C},
    }
    link_type! {
      A.d: B,
      A.s: bc,
      B.v: {A, B},
      C.d: {C},
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "typed",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "d", kind: Kind::Point }, FieldDesc { name: "s", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "v", kind: Kind::Vec }, FieldDesc { name: "q", kind: Kind::Point }] },
          VarDesc { name: "C", fields: vec![FieldDesc { name: "d", kind: Kind::Point }] },
        ],
        groups: vec![("bc", vec![1, 2])],
        bidi: vec![],
        link_type: vec![(0, 0, vec![1]), (0, 1, vec![1, 2]), (1, 0, vec![0, 1]), (2, 0, vec![2])],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { d: LinkField::from_list(&n.links[0]), s: LinkField::from_list(&n.links[1]), data: n.data }),
        1 => Node::B(NB { v: LinkField::from_list(&n.links[0]), q: LinkField::from_list(&n.links[1]), data: n.data }),
        _ => Node::C(NC { d: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.d.to_list(), x.s.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.v.to_list(), x.q.to_list()], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![x.d.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        _ => discriminant!(Node::C),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        _ => get_node!(g, Node::C, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        _ => alloc_node!(t, Node::C),
      }
    }
  }
}

pub mod typedgrp {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    #[group(g)] pub x: NodeIndex,
    #[group(g, h)] pub y: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    #[group(g)] pub z: NodeIndex,
    #[group(h)] pub w: Vec<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
    }
    group! {
      ab{A, B},
    }
    link_type! {
      ab.g: {A, C},
      A.h: {A, B},
      B.h: {B},
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "typedgrp",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "x", kind: Kind::Point }, FieldDesc { name: "y", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "z", kind: Kind::Point }, FieldDesc { name: "w", kind: Kind::Vec }] },
          VarDesc { name: "C", fields: vec![] },
        ],
        groups: vec![("ab", vec![0, 1])],
        bidi: vec![],
        link_type: vec![(0, 0, vec![0, 2]), (0, 1, vec![0, 2]), (1, 0, vec![0, 2]), (0, 1, vec![0, 1]), (1, 1, vec![1])],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { x: LinkField::from_list(&n.links[0]), y: LinkField::from_list(&n.links[1]), data: n.data }),
        1 => Node::B(NB { z: LinkField::from_list(&n.links[0]), w: LinkField::from_list(&n.links[1]), data: n.data }),
        _ => Node::C(NC { data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.x.to_list(), x.y.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.z.to_list(), x.w.to_list()], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        _ => discriminant!(Node::C),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        _ => get_node!(g, Node::C, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        _ => alloc_node!(t, Node::C),
      }
    }
  }
}

pub mod typedbidi {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub b: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub a: NodeIndex,
    pub as_: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub b: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
    }
    bidirectional! {
      A.b <-> B.a,
      C.b <-> B.as_,
    }
    link_type! {
      B.a: A,
      B.as_: {C, A},
      A.b: {B, C},
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "typedbidi",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "b", kind: Kind::Point }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "a", kind: Kind::Point }, FieldDesc { name: "as_", kind: Kind::Set }] },
          VarDesc { name: "C", fields: vec![FieldDesc { name: "b", kind: Kind::Point }] },
        ],
        groups: vec![],
        bidi: vec![((0, 0), (1, 0)), ((2, 0), (1, 1))],
        link_type: vec![(1, 0, vec![0]), (1, 1, vec![2, 0]), (0, 0, vec![1, 2])],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { b: LinkField::from_list(&n.links[0]), data: n.data }),
        1 => Node::B(NB { a: LinkField::from_list(&n.links[0]), as_: LinkField::from_list(&n.links[1]), data: n.data }),
        _ => Node::C(NC { b: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.b.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.a.to_list(), x.as_.to_list()], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![x.b.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        _ => discriminant!(Node::C),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        _ => get_node!(g, Node::C, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        _ => alloc_node!(t, Node::C),
      }
    }
  }
}

pub mod typedclash {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub b: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub a: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
    }
    group! {
      ab{A, B},
    }
    bidirectional! {
      A.b <-> B.a,
      B.a <-> B.a,
    }
    link_type! {
      B.a: A,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "typedclash",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "b", kind: Kind::Set }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "a", kind: Kind::Set }] },
        ],
        groups: vec![("ab", vec![0, 1])],
        bidi: vec![((0, 0), (1, 0)), ((1, 0), (1, 0))],
        link_type: vec![(1, 0, vec![0])],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { b: LinkField::from_list(&n.links[0]), data: n.data }),
        _ => Node::B(NB { a: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.b.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.a.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        _ => discriminant!(Node::B),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        _ => get_node!(g, Node::B, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        _ => alloc_node!(t, Node::B),
      }
    }
  }
}

pub mod typedmix {
  use crate::prelude::*;
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NA {
    pub d: NodeIndex,
    pub e: NodeIndex,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NB {
    pub s: BTreeSet<NodeIndex>,
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct NC {
    pub data: u32,
  }
  #[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]
  pub struct ND {
    pub d: NodeIndex,
    pub data: u32,
  }
  node_enum! {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    pub enum Node {
      A(NA),
      B(NB),
      C(NC),
      D(ND),
    }
    group! {
      bc{B, C},
      ad{A, D},
    }
    link_type! {
      A.d: {A, bc},
      A.e: {bc, A, bc},
      B.s: {bc, ad, B},
      D.d: ad,
    }
  }
  pub struct S;
  impl Schema for S {
    type N = Node;
    fn desc() -> Desc {
      Desc {
        name: "typedmix",
        vars: vec![
          VarDesc { name: "A", fields: vec![FieldDesc { name: "d", kind: Kind::Point }, FieldDesc { name: "e", kind: Kind::Point }] },
          VarDesc { name: "B", fields: vec![FieldDesc { name: "s", kind: Kind::Set }] },
          VarDesc { name: "C", fields: vec![] },
          VarDesc { name: "D", fields: vec![FieldDesc { name: "d", kind: Kind::Point }] },
        ],
        groups: vec![("bc", vec![1, 2]), ("ad", vec![0, 3])],
        bidi: vec![],
        link_type: vec![(0, 0, vec![0, 1, 2]), (0, 1, vec![1, 2, 0]), (1, 0, vec![1, 2, 0, 3]), (3, 0, vec![0, 3])],
      }
    }
    fn build(n: &RNode) -> Node {
      match n.var {
        0 => Node::A(NA { d: LinkField::from_list(&n.links[0]), e: LinkField::from_list(&n.links[1]), data: n.data }),
        1 => Node::B(NB { s: LinkField::from_list(&n.links[0]), data: n.data }),
        2 => Node::C(NC { data: n.data }),
        _ => Node::D(ND { d: LinkField::from_list(&n.links[0]), data: n.data }),
      }
    }
    fn read(n: &Node) -> RNode {
      match n {
        Node::A(x) => Nd { var: 0, links: vec![x.d.to_list(), x.e.to_list()], data: x.data },
        Node::B(x) => Nd { var: 1, links: vec![x.s.to_list()], data: x.data },
        Node::C(x) => Nd { var: 2, links: vec![], data: x.data },
        Node::D(x) => Nd { var: 3, links: vec![x.d.to_list()], data: x.data },
      }
    }
    fn disc(var: u8) -> <Node as NodeEnum>::Discriminant {
      match var {
        0 => discriminant!(Node::A),
        1 => discriminant!(Node::B),
        2 => discriminant!(Node::C),
        _ => discriminant!(Node::D),
      }
    }
    fn iter_nodes(g: &Graph<Node>, var: u8) -> Vec<(NodeIndex, u32)> {
      match var {
        0 => iter_nodes!(g, Node::A).map(|(i, n)| (i, n.data)).collect(),
        1 => iter_nodes!(g, Node::B).map(|(i, n)| (i, n.data)).collect(),
        2 => iter_nodes!(g, Node::C).map(|(i, n)| (i, n.data)).collect(),
        _ => iter_nodes!(g, Node::D).map(|(i, n)| (i, n.data)).collect(),
      }
    }
    fn get_node(g: &Graph<Node>, var: u8, idx: NodeIndex) -> Option<u32> {
      match var {
        0 => get_node!(g, Node::A, idx).map(|n| n.data),
        1 => get_node!(g, Node::B, idx).map(|n| n.data),
        2 => get_node!(g, Node::C, idx).map(|n| n.data),
        _ => get_node!(g, Node::D, idx).map(|n| n.data),
      }
    }
    fn mut_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; mut_node!(t, Node::A, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, 1) => { const D: u32 = 7; mut_node!(t, Node::A, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (0, _) => mut_node!(t, Node::A, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (1, 0) => { const D: u32 = 5; mut_node!(t, Node::B, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, 1) => { const D: u32 = 7; mut_node!(t, Node::B, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (1, _) => mut_node!(t, Node::B, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (2, 0) => { const D: u32 = 5; mut_node!(t, Node::C, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (2, 1) => { const D: u32 = 7; mut_node!(t, Node::C, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (2, _) => mut_node!(t, Node::C, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
        (_, 0) => { const D: u32 = 5; mut_node!(t, Node::D, idx, x, { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, 1) => { const D: u32 = 7; mut_node!(t, Node::D, idx, |x| { x.data = x.data.wrapping_mul(2).wrapping_add(D); }) },
        (_, _) => mut_node!(t, Node::D, idx, move |x| { x.data = x.data.wrapping_mul(2).wrapping_add(delta); }),
      }
    }
    fn update_node(t: &mut Transaction<'_, Node>, var: u8, idx: NodeIndex, delta: u32, form: u8) {
      match (var, form) {
        (0, 0) => { const D: u32 = 5; update_node!(t, Node::A, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, 1) => { const D: u32 = 7; update_node!(t, Node::A, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (0, _) => update_node!(t, Node::A, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (1, 0) => { const D: u32 = 5; update_node!(t, Node::B, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, 1) => { const D: u32 = 7; update_node!(t, Node::B, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (1, _) => update_node!(t, Node::B, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (2, 0) => { const D: u32 = 5; update_node!(t, Node::C, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (2, 1) => { const D: u32 = 7; update_node!(t, Node::C, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (2, _) => update_node!(t, Node::C, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
        (_, 0) => { const D: u32 = 5; update_node!(t, Node::D, idx, x, { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, 1) => { const D: u32 = 7; update_node!(t, Node::D, idx, |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(D); y }) },
        (_, _) => update_node!(t, Node::D, idx, move |x| { let mut y = x; y.data = y.data.wrapping_mul(2).wrapping_add(delta); y }),
      }
    }
    fn alloc_node(t: &mut Transaction<'_, Node>, var: u8) -> NodeIndex {
      match var {
        0 => alloc_node!(t, Node::A),
        1 => alloc_node!(t, Node::B),
        2 => alloc_node!(t, Node::C),
        _ => alloc_node!(t, Node::D),
      }
    }
  }
}

#[macro_export]
macro_rules! with_core_schema {
  ($name:expr, $f:ident $(, $a:expr)*) => {
    match $name {
      "plain" => $f::<$crate::schemas::plain::S>($($a),*),
      "kinds" => $f::<$crate::schemas::kinds::S>($($a),*),
      "many" => $f::<$crate::schemas::many::S>($($a),*),
      "pp" => $f::<$crate::schemas::pp::S>($($a),*),
      "ps" => $f::<$crate::schemas::ps::S>($($a),*),
      "ss" => $f::<$crate::schemas::ss::S>($($a),*),
      "list" => $f::<$crate::schemas::list::S>($($a),*),
      "tree" => $f::<$crate::schemas::tree::S>($($a),*),
      "friends" => $f::<$crate::schemas::friends::S>($($a),*),
      "fan" => $f::<$crate::schemas::fan::S>($($a),*),
      "multi" => $f::<$crate::schemas::multi::S>($($a),*),
      "multiset" => $f::<$crate::schemas::multiset::S>($($a),*),
      "selfmulti" => $f::<$crate::schemas::selfmulti::S>($($a),*),
      "typed" => $f::<$crate::schemas::typed::S>($($a),*),
      "typedgrp" => $f::<$crate::schemas::typedgrp::S>($($a),*),
      "typedbidi" => $f::<$crate::schemas::typedbidi::S>($($a),*),
      "typedclash" => $f::<$crate::schemas::typedclash::S>($($a),*),
      "typedmix" => $f::<$crate::schemas::typedmix::S>($($a),*),
      other => panic!("unknown schema {}", other),
    }
  };
}
