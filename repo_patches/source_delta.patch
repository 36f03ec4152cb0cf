From 919ac18f7a54da84695ef51f18519a1690c6c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:20 +0000
Subject: [PATCH 01/20] fix: switch_context loses set links when old and new
 indexes overlap

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..aa2dc87 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // Old and new ids may overlap, so clear all old links before making any new link
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *new_id, *new_id);
       }
     }
 
-- 
2.43.0


From 375ae08b70dcec2b8551fe7561707b132145f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 02/20] fix: a node whose variant is changed by mutate/update
 stays listed under its old type

---
 src/cate_arena.rs              | 19 ++++++++++++++++---
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..c9e93b2 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,22 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    // The type of the node may be changed by the function
+    self.fill_back_untyped(i, f(x));
+  }
+  fn mutate_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let x = self.get_mut(i).expect(&format!("Mutate a non-existing node {:?}", i));
+    f(x);
+    // The type of the node may be changed by the function
+    let d = Discriminated::discriminant(&*x);
+    if self.dispatch(i) != Some(d) {
+      let x = self.remove(i).unwrap();
+      self.fill_back_untyped(i, x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index aa2dc87..85861fc 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -573,7 +573,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..15919ad 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.mutate_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From 946713e34374ba9e8d39696eca41f0c7312313a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 03/20] fix: removing a node created in the same transaction
 leaves dangling links

---
 src/typed_graph.rs             | 9 ++++++++-
 src/typed_graph/transaction.rs | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 85861fc..7fd8774 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -536,6 +536,9 @@ where
     for n in &t.dec_nodes {
       self.remove_node(*n, &mut lcr);
     }
+    for n in &t.dropped_nodes {
+      self.remove_links_to(*n, &mut lcr);
+    }
 
     self.apply_bidirectional_links(&lcr);
     lcr
@@ -558,7 +561,11 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
     self.remove_back_links(x, &n);
-    for (y, s) in self.back_links.swap_remove(&x).unwrap() {
+    self.remove_links_to(x, lcr);
+  }
+
+  fn remove_links_to(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (y, s) in self.back_links.swap_remove(&x).unwrap_or_default() {
       self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
       lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
     }
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 15919ad..175f69c 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -18,6 +18,7 @@ where
   alloc_nodes: OrderSet<NodeIndex>,
   inc_nodes: Arena,
   dec_nodes: OrderSet<NodeIndex>,
+  dropped_nodes: OrderSet<NodeIndex>,
   mut_nodes: Vec<(NodeIndex, MutFunc<'a, NodeT>)>,
   update_nodes: Vec<(NodeIndex, UpdateFunc<'a, NodeT>)>,
   redirect_all_links_vec: Vec<(NodeIndex, NodeIndex)>,
@@ -62,6 +63,7 @@ where
       alloc_nodes: OrderSet::new(),
       inc_nodes: Arena::new(node_dist),
       dec_nodes: OrderSet::new(),
+      dropped_nodes: OrderSet::new(),
       mut_nodes: Vec::new(),
       update_nodes: Vec::new(),
       redirect_all_links_vec: Vec::new(),
@@ -227,6 +229,9 @@ where
   pub fn remove(&mut self, node: NodeIndex) {
     if self.inc_nodes.remove(node).is_none() && !self.alloc_nodes.swap_remove(&node) {
       self.dec_nodes.insert(node);
+    } else {
+      // Links to this node may have been made already, they are cleared when commit
+      self.dropped_nodes.insert(node);
     }
   }
 
-- 
2.43.0


From fc6baac2b4157e52680464865c6e81eb58100f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 04/20] fix: fill_back_untyped silently accepts an index that
 is not waiting to be filled

---
 src/typed_graph/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 175f69c..5820055 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -159,8 +159,8 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    assert!(self.alloc_nodes.swap_remove(&idx), "Fillback an index that is not allocated or already filled {:?}", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
-    self.alloc_nodes.swap_remove(&idx);
   }
 
   /// Insert a new node into the graph, returns a [`NodeIndex`] pointing to the new node
-- 
2.43.0


From c6c4721e28ea5a5be90ee6153f0a8858e82a8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:53 +0000
Subject: [PATCH 05/20] fix: mutate and update panic when they make a link to
 an index not in the graph

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 7fd8774..0bdafdb 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -583,7 +583,7 @@ where
     self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -600,7 +600,7 @@ where
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
-- 
2.43.0


From 8213754d1010a0f04ee8bd110d8cf8dbb9da0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:54 +0000
Subject: [PATCH 06/20] fix: an empty NodeIndex in a set link is treated as a
 link, and group queries return empty indexes

---
 ttgraph_macros/src/group.rs      | 4 ++--
 ttgraph_macros/src/typed_node.rs | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..3629e1b 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -52,8 +52,8 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
         LinkType::Direct(ident, _) => {
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
-        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x));},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x));},
         LinkType::Empty => quote! {},
       });
     }
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..5f5956b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -171,7 +171,9 @@ pub(crate) fn make_typed_node(
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
         for i in self.#ident.iter() {
-          sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          if !i.is_empty() {
+            sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          }
         }
       }),
       LinkType::Vec(ident, camel) => add_source_ops.push(quote! {
@@ -193,7 +195,7 @@ pub(crate) fn make_typed_node(
         Self::LinkMirror::#camel => if self.#ident.is_empty() {Box::new([].into_iter())} else {Box::new([self.#ident].into_iter())},
       },
       LinkType::Set(ident, camel) => quote! {
-        Self::LinkMirror::#camel => Box::new(self.#ident.iter().map(|x|*x)),
+        Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
-- 
2.43.0


From f26b465f1aa34638566b21c9fd968924bbb089e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:54 +0000
Subject: [PATCH 07/20] fix: link remove checks run on added links, and
 commit_checked panics when a node is removed

---
 src/typed_graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 0bdafdb..bb4ef98 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -739,7 +739,9 @@ where
     }
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+        // The node may have been removed
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -754,8 +756,10 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in &lcr.removes {
+        // The source node may have been removed together with its links
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
-- 
2.43.0


From 16338970856f3f6f06300f3956dd977dfba74076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 08/20] fix: links changed by bidirectional declarations escape
 link type checks and commit_checked

---
 src/typed_graph.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index bb4ef98..f418041 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -476,7 +476,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -540,7 +540,7 @@ where
       self.remove_links_to(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -660,8 +660,12 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    // The changes made here are also recorded, but they do not trigger further changes
+    let removes = lcr.removes.clone();
+    let adds = lcr.adds.clone();
+
+    for (x, y, l) in removes {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -671,11 +675,12 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for (x, y, l) in adds {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -694,6 +699,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -773,7 +779,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From 8b2fc552a7095840febed14ed89d6996b4b29890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:24 +0000
Subject: [PATCH 09/20] fix: node checks are skipped for changed nodes whose
 links do not change

---
 src/typed_graph.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index f418041..6ab1ff6 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -546,6 +546,7 @@ where
 
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
+      lcr.change_node(x);
       self.add_back_links(x, n);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -575,6 +576,7 @@ where
   where
     F: FnOnce(&mut NodeT),
   {
+    lcr.change_node(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -592,6 +594,7 @@ where
   where
     F: FnOnce(NodeT) -> NodeT,
   {
+    lcr.change_node(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -739,7 +742,7 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.changed_nodes.clone();
     for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
       changed_nodes.insert(*x);
     }
@@ -787,8 +790,13 @@ where
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  changed_nodes: OrderSet<NodeIndex>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
+  fn change_node(&mut self, x: NodeIndex) {
+    self.changed_nodes.insert(x);
+  }
+
   #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
@@ -824,6 +832,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
     LinkChangeRecorder {
       adds: OrderSet::default(),
       removes: OrderSet::default(),
+      changed_nodes: OrderSet::default(),
     }
   }
 }
-- 
2.43.0


From 146ada191225facc7b952fcbba0571f023070e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 10/20] fix: without feature debug the crate does not build and
 bidirectional links are not maintained

---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 6ab1ff6..39e0a68 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -729,6 +730,10 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in &lcr.adds {
       if let Some(node) = self.nodes.get(*y) {
@@ -797,7 +802,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     self.changed_nodes.insert(x);
   }
 
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -809,10 +813,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -823,9 +823,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
       self.removes.insert((x, y, l));
     }
   }
-
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-- 
2.43.0


From 8e22c81bca74cecacba730ccb81643b2d1c518c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 11/20] fix: redirecting an index that nothing links to panics

---
 src/typed_graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 39e0a68..f4891dc 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -610,7 +610,7 @@ where
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    let old_link = self.back_links.swap_remove(&old_node).unwrap();
+    let old_link = self.back_links.swap_remove(&old_node).unwrap_or_default();
     self.back_links.insert(old_node, OrderSet::new());
 
     let new_link = self.back_links.entry(new_node).or_default();
-- 
2.43.0


From 47d0e9f2b9a44b74bf782faee99461a2ced346fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:03 +0000
Subject: [PATCH 12/20] fix: an added link that is cleared by a removed
 opposite link still adds its opposite

---
 src/typed_graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index f4891dc..effa4ac 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -688,6 +688,10 @@ where
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
+      // This link may have been removed above, as the opposite side of a removed link
+      if !self.nodes.get(x).unwrap().contains_link(l, y) {
+        continue;
+      }
 
       let bds = self.nodes.get(x).unwrap().get_bidiretional_link_mirrors_of(l);
       let bds = self.nodes.get(y).unwrap().match_bd_link_group(bds);
-- 
2.43.0


From 97d06d6b44daf94157148bfb4fc6a0717f299fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 13/20] fix: a second group attribute on a field shifts the
 groups of the links after it

---
 ttgraph_macros/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..2f27e9b 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,7 +218,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
         let mut cur_group = Vec::new();
@@ -238,14 +238,13 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
           for g in &cur_group {
             group_map.entry(g.clone()).or_default().push(ident.clone());
           }
-          groups.push(cur_group);
+          field_groups.extend(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      groups.push(field_groups);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From c921097660f9d9ca501bbe04d448165af0fd96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:04 +0000
Subject: [PATCH 14/20] fix: data fields of tuple, array or reference types can
 not be accessed by name

---
 ttgraph_macros/src/lib.rs        | 6 ++++--
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 2f27e9b..5258023 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -214,10 +214,12 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
       } else if vec_paths.contains(p) {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
-      } else {
-        data.push((ident.clone(), p.clone()));
       }
     }
+    // Types that may borrow from a lifetime parameter can not be accessed as `dyn Any`
+    if !is_link && (matches!(f.ty, Type::Path(_)) || generics.lifetimes().next().is_none()) {
+      data.push((ident.clone(), f.ty.clone()));
+    }
     let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 5f5956b..140635b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From e72e3fdf40a8a7967b6e755bfde46ea08d6d59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 15/20] fix: link types written with a turbofish, as
 documented, are not recognised as links

---
 ttgraph_macros/src/lib.rs   |  1 +
 ttgraph_macros/src/utils.rs | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 5258023..a6ad864 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -205,6 +205,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     let ident = f.ident.clone().unwrap();
     let mut is_link = false;
     if let Type::Path(p) = &f.ty {
+      let p = &without_turbofish(p);
       if direct_paths.contains(p) {
         links.push(LinkType::Direct(ident.clone(), upper_camel(&ident)));
         is_link = true;
diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 66d88ea..586a8db 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -1,6 +1,6 @@
 use change_case::{pascal_case, self};
 use quote::{format_ident, quote, ToTokens};
-use syn::{Ident, Visibility};
+use syn::{Ident, PathArguments, TypePath, Visibility};
 use proc_macro2::TokenStream;
 
 pub(crate) fn upper_camel(ident: &Ident) -> Ident {
@@ -11,6 +11,17 @@ pub(crate) fn snake_case(ident: &Ident) -> Ident {
   format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
+/// Rewrite `Vec::<T>` to `Vec<T>`, they are the same type
+pub(crate) fn without_turbofish(path: &TypePath) -> TypePath {
+  let mut path = path.clone();
+  for seg in path.path.segments.iter_mut() {
+    if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
+      args.colon2_token = None;
+    }
+  }
+  path
+}
+
 pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStream, ident: &Ident, vis: &Visibility) -> Ident {
   let gen_ident = format_ident!("ttgraph_gen_{}", change_case::snake_case(&ident.to_string()), span=ident.span());
   quote!{
-- 
2.43.0


From afc4290a29432a8fe7809cc9baa7c810fccb2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 16/20] fix: a bidirectional link declared both directly and by
 group is taken as multiple choices

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..24ba5d4 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // A link may be declared more than once through different groups
+    let mirrors: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    mirrors.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From 252dccac15328cf6d5b514d072a4c81f14c19129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:06 +0000
Subject: [PATCH 17/20] fix: link changes are miscounted when a Vec holds the
 same link twice

---
 src/typed_graph.rs               | 38 ++++++++++++++++++++++----------
 ttgraph_macros/src/typed_node.rs |  8 +++----
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index effa4ac..2b9ef95 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -549,9 +549,7 @@ where
     for (x, n) in nodes.iter() {
       lcr.change_node(x);
       self.add_back_links(x, n);
-      for (y, s) in n.iter_sources() {
-        lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
-      }
+      lcr.add_links(x, n);
     }
 
     self.nodes.merge(nodes);
@@ -559,17 +557,16 @@ where
 
   fn remove_node(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
     let n = self.nodes.remove(x).expect("Remove a non-existing node!");
-    for (y, s) in n.iter_sources() {
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
-    }
+    lcr.remove_links(x, &n);
     self.remove_back_links(x, &n);
     self.remove_links_to(x, lcr);
   }
 
   fn remove_links_to(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (y, s) in self.back_links.swap_remove(&x).unwrap_or_default() {
-      self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
-      lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
+      if self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty()).removed {
+        lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
+      }
     }
   }
 
@@ -578,17 +575,17 @@ where
     F: FnOnce(&mut NodeT),
   {
     lcr.change_node(x);
+    lcr.remove_links(x, self.nodes.get(x).unwrap());
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
     self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.add_back_link(x, y, s);
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
+    lcr.add_links(x, self.nodes.get(x).unwrap());
   }
 
   fn update_node<F>(&mut self, x: NodeIndex, f: F, lcr: &mut LinkChangeRecorder<NodeT>)
@@ -596,17 +593,17 @@ where
     F: FnOnce(NodeT) -> NodeT,
   {
     lcr.change_node(x);
+    lcr.remove_links(x, self.nodes.get(x).unwrap());
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.add_back_link(x, y, s);
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
+    lcr.add_links(x, self.nodes.get(x).unwrap());
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
@@ -806,6 +803,23 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     self.changed_nodes.insert(x);
   }
 
+  // A Vec may hold the same link more than once, it is only recorded once
+  fn links_of(n: &NodeT) -> OrderSet<(NodeIndex, NodeT::LinkMirrorEnum)> {
+    n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect()
+  }
+
+  fn add_links(&mut self, x: NodeIndex, n: &NodeT) {
+    for (y, l) in Self::links_of(n) {
+      self.add_link(x, y, l);
+    }
+  }
+
+  fn remove_links(&mut self, x: NodeIndex, n: &NodeT) {
+    for (y, l) in Self::links_of(n) {
+      self.remove_link(x, y, l);
+    }
+  }
+
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 140635b..cefab35 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -231,10 +231,10 @@ pub(crate) fn make_typed_node(
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::Source::#camel(idx) => {
-          let replaced = self.#ident[idx] != new_idx;
-          let removed = replaced && !self.#ident[idx].is_empty();
-          self.#ident[idx] = new_idx;
-          (removed, replaced && !new_idx.is_empty())
+          // The same link may still be held by other elements
+          let added = !new_idx.is_empty() && !self.#ident.contains(&new_idx);
+          let old = std::mem::replace(&mut self.#ident[idx], new_idx);
+          (!old.is_empty() && !self.#ident.contains(&old), added)
         },
       },
       LinkType::Empty => quote! {
-- 
2.43.0


From c37295f54c7c8f2b38cdc175d92e41f8e116a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 18/20] fix: contexts made by Default all have the same
 identity and are not told apart

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 2b9ef95..048c31a 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -910,7 +910,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -932,6 +932,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From 74e434dc80f65295e8b7ccd1e7523eb29e0e3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 19/20] hook: let a model checker control the synchronization
 primitives (cfg ttgraph_mc)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f7f2f9f..f296a0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -956,8 +956,16 @@
 //! + Graph creation macro. A sub-language to simplify great amount of `alloc_node`, `fill_back_node` and `new_node` calls.
 //! + Graph transition. A way to conviently transit `Graph<NodeEnumA>` to `Graph<NodeEnumB>`, if `NodeEnumA` and `NodeEnumB` have a lot of common variants.
 
+#![allow(unexpected_cfgs)]
+
 // pub mod arena;
 
+// Model checking hook: synchronization primitives controlled by an external scheduler
+#[cfg(ttgraph_mc)]
+extern crate ttstd as std;
+#[cfg(ttgraph_mc)]
+extern crate ttstd as core;
+
 pub mod cate_arena;
 pub use cate_arena::*;
 
-- 
2.43.0


From dbdafe37096e3aeaaac5f161c6d6cf20e9105f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 20/20] fix: only one of several type annotations of a link is
 enforced

---
 ttgraph_macros/src/link_check.rs | 40 ++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..2fc282a 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -73,7 +73,7 @@ pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
   let mut arms = Vec::new();
-  let mut anno_map: BTreeMap<Ident, BTreeSet<(Ident, Vec<Ident>)>> = BTreeMap::new();
+  let mut anno_map: BTreeMap<Ident, BTreeMap<Ident, BTreeSet<Vec<Ident>>>> = BTreeMap::new();
   let mut group_map: BTreeMap<Ident, Vec<Ident>> = BTreeMap::new();
   for NamedGroup { name, idents } in groups {
     group_map.insert(name.clone(), idents.clone());
@@ -81,27 +81,37 @@ pub(crate) fn make_check_link_type(
   let annotations = expand_group(annotations, &group_map);
   for TypeAnnotation { var, link, var2 } in annotations {
     let camel = upper_camel(&link);
-    anno_map.entry(var.clone()).or_default().insert((camel, var2));
+    anno_map.entry(var.clone()).or_default().entry(camel).or_default().insert(var2);
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
       let mut link_arms = Vec::new();
-      for (link, var2) in vs {
-        let mut var2_arms = Vec::new();
-        let mut expect = Vec::new();
-        for v2 in var2 {
-          var2_arms.push(quote! {Self::Discriminant::#v2});
-          expect.push(quote! {Self::Discriminant::#v2});
+      for (link, annos) in vs {
+        // A link may be annotated more than once, all of the annotations have to hold
+        let mut checks = Vec::new();
+        for var2 in annos {
+          let mut var2_arms = Vec::new();
+          let mut expect = Vec::new();
+          for v2 in var2 {
+            var2_arms.push(quote! {Self::Discriminant::#v2});
+            expect.push(quote! {Self::Discriminant::#v2});
+          }
+          checks.push(quote! {
+            match target {
+              #(#var2_arms)|* => {},
+              other => return Err(ttgraph::LinkTypeError{
+                link,
+                expect: &[#(#expect),*],
+                found: other,
+              }),
+            }
+          });
         }
 
         link_arms.push(quote! {
-          <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
-            other => Err(ttgraph::LinkTypeError{
-              link,
-              expect: &[#(#expect),*],
-              found: other,
-            }),
+          <#ty as TypedNode>::LoGMirror::#link => {
+            #(#checks)*
+            Ok(())
           },
         })
       }
-- 
2.43.0

