//! Which explorations decide which property.
use crate::{c08, c18};
use crate::desc::*;
use crate::engine::*;
use crate::enumr::*;
use crate::explore::*;
use crate::model::*;
use crate::with_core_schema;

impl<'a> Plan<'a> {
  pub fn run(&mut self, prop: &str) {
    let cfg = cfg_of(prop).unwrap_or_else(|| panic!("unknown property {}", prop));
    match prop {
      "C01" => self.c01(cfg),
      "C02" => self.c02(cfg),
      "C03" => self.c03(cfg),
      "C04" | "C05" => self.bidi(cfg),
      "C06" => self.c06(cfg),
      "C08" => self.c08(cfg),
      "C09" => self.c09(cfg),
      "C10" => self.c10(cfg),
      "C11" => self.c11(cfg),
      "C12" => self.c12(cfg),
      "C13" => self.c13(cfg),
      "C16" => self.c16(cfg),
      "C18" => self.c18(),
      _ => panic!("unknown property {}", prop),
    }
  }

  fn c08(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let (d1, d2) = if t { (7, 6) } else { (6, 5) };
    for s in ["plain", "pp"] {
      self.part(format!("{} calls on one transaction depth {}", s, d1), |ctl| c08::explore(s, ctl, 1, d1, false));
      self.part(format!("{} all calls on one transaction depth 5", s), |ctl| c08::explore(s, ctl, 1, 5, true));
      self.part(format!("{} calls on two transactions depth {}", s, d2), |ctl| c08::explore(s, ctl, 2, d2, false));
      self.part(format!("{} all calls on two transactions depth 4", s), |ctl| c08::explore(s, ctl, 2, 4, true));
    }
    self.part("many calls on one transaction depth 4".into(), |ctl| c08::explore("many", ctl, 1, 4, true));
    self.foreign(cfg);
    for s in CORE {
      self.part(format!("{} merges of graphs n<=2 links<=1", s), |ctl| merge_pairs(&core(*s), ctl, cfg, 1));
    }
  }
  fn c01(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let al = Alpha { alien: true, ..Alpha::ALL };
    for s in CORE {
      self.e1(cfg, s, 0, 0, 2, al, Wrap::Txn, any);
      self.e1(cfg, s, 1, 2, 2, al, Wrap::Txn, any);
      self.e1(cfg, s, 2, 3, 1, al, Wrap::Txn, any);
      self.e1(cfg, s, 2, if *s == "kinds" && !t { 1 } else { 2 }, 2, al, Wrap::Txn, any);
      self.e1(cfg, s, 1, 1, 3, Alpha { update: false, become_: false, ..Alpha::ALL }, Wrap::Txn, any);
      self.e1(cfg, s, 3, 2, 1, al, Wrap::Txn, any);
    }
    for s in CORE {
      let mac = Alpha { macros: true, insert: true, mutate: true, fine: false, ..Alpha::NONE };
      self.e1(cfg, s, 2, 1, 1, mac, Wrap::Txn, any);
      self.e1(cfg, s, 1, 1, 2, mac, Wrap::Txn, any);
    }
    for s in ["plain", "pp", "ps", "list"] {
      self.e1(cfg, s, 2, if t { 2 } else { 1 }, 3, LEAN, Wrap::Txn, any);
    }
    for s in CORE {
      self.hist(cfg, s, 1, 1, 2, Moves { giveup: true, ..MOVES }, None);
      self.sized(cfg, s, SIZES, &[0, 300]);
      let long = Moves { alpha: Alpha { become_: true, update: true, ..LEAN }, switch: true, giveup: true, ..MOVES };
      self.weave(cfg, s, 0, 0, if t { 131 } else { 47 }, if t { 80 } else { 32 }, long);
    }
    self.foreign(cfg);
    if t {
      for s in CORE {
        self.e1(cfg, s, 3, 3, 1, al, Wrap::Txn, any);
        self.e1(cfg, s, 2, 4, 1, al, Wrap::Txn, any);
        self.e1(cfg, s, 2, 1, 3, LEAN, Wrap::Txn, any);
      }
      for s in ["plain", "many", "pp", "ps", "ss", "list", "tree"] {
        self.e1(cfg, s, 3, 2, 2, al, Wrap::Txn, any);
      }
    }
  }
  fn c02(&mut self, cfg: Cfg) {
    let t = self.thorough;
    for s in CORE {
      self.e1(cfg, s, 0, 0, 3, Alpha { insert: true, alloc: true, remove: true, mutate: true, redirect_all: true, ..Alpha::NONE }, Wrap::Txn, has_remove);
      self.e1(cfg, s, 2, 2, 2, Alpha::ALL, Wrap::Txn, has_remove);
      self.e1(cfg, s, 3, if *s == "kinds" && !t { 2 } else { 3 }, 1, Alpha { remove: true, ..Alpha::NONE }, Wrap::Txn, has_remove);
      self.e1(cfg, s, 3, 2, 2, Alpha { remove: true, redirect: true, redirect_all: true, to_empty: true, ..Alpha::NONE }, Wrap::Txn, has_remove);
      self.e1(cfg, s, 1, 1, 3, Alpha { update: false, data: false, ..Alpha::ALL }, Wrap::Txn, has_remove);
      self.sized(cfg, s, SIZES, &[0]);
    }
    for s in ["plain", "many", "ps", "list"] {
      self.hist(cfg, s, 2, 1, 2, Moves { switch: true, serde: true, adopt: true, ..MOVES }, Some(Moves { alpha: Alpha { remove: true, ..Alpha::NONE }, ..MOVES }));
    }
    for s in CORE {
      self.part(format!("{} several removals", s), |ctl| list_cases(&core(s), ctl, cfg, removals(&core(s).desc)));
    }
    if t {
      for s in CORE {
        self.e1(cfg, s, 2, 3, 2, Alpha::ALL, Wrap::Txn, has_remove);
        self.e1(cfg, s, 3, 3, 2, Alpha { remove: true, redirect: true, ..Alpha::NONE }, Wrap::Txn, has_remove);
        self.hist(cfg, s, 2, 1, 3, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, Some(Moves { alpha: Alpha { remove: true, ..Alpha::NONE }, ..MOVES }));
      }
    }
  }
  fn c03(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let probe = Moves { alpha: Alpha { remove: true, redirect: true, redirect_all: true, to_empty: true, ..Alpha::NONE }, ..MOVES };
    for s in CORE {
      let all = Moves { switch: true, serde: true, adopt: true, ..MOVES };
      self.hist(cfg, s, 0, 0, 3, all, Some(probe));
      self.hist(cfg, s, 1, 1, 3, Moves { alpha: Alpha { insert: true, mutate: true, remove: true, redirect: true, become_: true, ..Alpha::NONE }, switch: true, serde: true, ..MOVES }, Some(probe));
      self.hist(cfg, s, 2, 2, 2, all, Some(probe));
      self.hist(cfg, s, 2, 1, 3, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, Some(probe));
      self.sized(cfg, s, SIZES, &[0]);
      let long = Moves { alpha: Alpha { become_: true, update: true, ..LEAN }, switch: true, serde: true, ..MOVES };
      self.weave(cfg, s, 0, 0, if t { 199 } else { 61 }, if t { 80 } else { 40 }, long);
      // links to indexes that are not nodes
      let alien = Moves { alpha: Alpha { alien: true, ..Alpha::ALL }, ..MOVES };
      self.hist(cfg, s, 1, 1, 3, alien, Some(Moves { alpha: Alpha { alien: true, ..probe.alpha }, ..MOVES }));
    }
    if t {
      for s in CORE {
        let m = Moves { alpha: LEAN, switch: true, serde: true, ..MOVES };
        self.hist(cfg, s, 2, 2, 3, m, Some(probe));
        self.hist(cfg, s, 3, 2, 2, m, Some(probe));
      }
      for s in ["plain", "pp", "ps", "ss", "list", "tree"] {
        let m = Moves { alpha: LEAN, switch: true, serde: true, ..MOVES };
        self.hist(cfg, s, 1, 1, 5, m, Some(probe));
      }
    }
  }
  fn bidi(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let links = Alpha { data: false, update: false, become_: false, ..Alpha::ALL };
    for s in BIDI {
      let wide = matches!(*s, "fan" | "multiset" | "friends");
      self.e1(cfg, s, 1, 4, 2, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 2, 4, 1, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 2, if wide && !t { 2 } else { 3 }, 2, links, Wrap::Txn, any);
      self.e1(cfg, s, 3, 3, 1, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 3, if wide { 1 } else { 2 }, 2, Alpha { insert: false, alloc: false, ..links }, Wrap::Txn, any);
      self.e1(cfg, s, 2, 1, 3, if wide { Alpha { insert: false, ..LEAN } } else { LEAN }, Wrap::Txn, any);
      self.hist(cfg, s, 2, 1, 2, Moves { adopt: true, switch: true, serde: true, ..MOVES }, None);
      self.sized(cfg, s, SIZES, &[0]);
      // links to indexes that are not nodes
      self.e1(cfg, s, 1, 1, 2, Alpha { alien: true, ..Alpha::ALL }, Wrap::Txn, any);
      self.e1(cfg, s, 2, 1, 2, Alpha { alien: true, mutate: true, redirect: true, redirect_all: true, fine: true, ..Alpha::NONE }, Wrap::Txn, any);
    }
    if t {
      for s in BIDI {
        self.e1(cfg, s, 3, 3, 2, Alpha { insert: false, alloc: false, ..links }, Wrap::Txn, any);
        self.e1(cfg, s, 4, 2, 1, links, Wrap::Txn, any);
        self.hist(cfg, s, 1, 1, 4, Moves { alpha: LEAN, ..MOVES }, None);
      }
    }
  }
  fn c06(&mut self, cfg: Cfg) {
    let t = self.thorough;
    // every kind of link field points at each of the first four nodes
    for s in ["plain", "kinds", "many"] {
      let d = core(s).desc;
      let mut st: Vec<(L, MNode)> = (1..=4).map(|l| (l, blank(&d, (l as u8 - 1) % d.vars.len() as u8, data_of(l)))).collect();
      let mut l = 5;
      for hub in 1..=4 {
        for (_, mut n) in every_field(&d, l, hub) {
          n.data = data_of(l);
          st.push((l, n));
          l += 1;
        }
      }
      let olds: Vec<L> = vec![1, 2, 3, 4, ALIEN + 1];
      let news: Vec<L> = vec![1, 2, 3, 4, EMPTY, ALIEN + 1];
      let len = if t { 5 } else { 4 };
      let (st2, o2, n2) = (st.clone(), olds.clone(), news.clone());
      self.part(format!("{} redirection lists up to {}", s, len), |ctl| redirects(&core(s), ctl, cfg, st2, o2, n2, len, false));
      self.part(format!("{} mixed redirection lists up to 3", s), |ctl| redirects(&core(s), ctl, cfg, st, olds, news, 3, true));
    }
    let al = Alpha { redirect: true, redirect_all: true, to_empty: true, ..Alpha::NONE };
    for s in CORE {
      self.e1(cfg, s, 2, 3, 2, Alpha { insert: true, alloc: true, mutate: true, remove: true, ..al }, Wrap::Txn, has_redirect);
      self.e1(cfg, s, 3, 2, 2, al, Wrap::Txn, any);
      self.sized(cfg, s, SIZES, &[0, 300]);
    }
    // long chains and loops, listed in every rotation and in both directions
    let mut cases = Vec::new();
    for n in [2usize, 3, 4, 5, 6, 9, 16, 17, 33] {
      let d = core("plain").desc;
      let mut st: MState = (1..=n as L).map(|l| (l, blank(&d, 2, data_of(l)))).collect();
      for i in 0..n as L {
        st.insert(100 + i, with_link(&d, 0, 0, 1 + i, data_of(100 + i)));
      }
      let b = Step::Txn(build_ops(&st));
      for looped in [false, true] {
        let m = if looped { n } else { n - 1 };
        let pairs: Vec<(L, L)> = (0..m).map(|i| (1 + i as L, 1 + ((i + 1) % n) as L)).collect();
        for rot in 0..m {
          for rev in [false, true] {
            for stride in [1usize, 2, 3] {
              let mut v: Vec<(L, L)> = Vec::new();
              for k in 0..stride {
                v.extend(pairs.iter().skip(k).step_by(stride));
              }
              v.rotate_left(rot);
              if rev {
                v.reverse();
              }
              cases.push(vec![b.clone(), Step::Txn(v.iter().map(|(a, b)| Op::Redirect(*a, *b)).collect())]);
              cases.push(vec![b.clone(), Step::Txn(v.iter().map(|(a, b)| Op::RedirectAll(*a, *b)).collect())]);
            }
          }
        }
      }
    }
    self.part("plain chains and loops of redirections".into(), |ctl| list_cases(&core("plain"), ctl, cfg, cases));
  }
  fn c09(&mut self, cfg: Cfg) {
    let t = self.thorough;
    for s in CORE {
      let m = Moves { switch: true, serde: true, adopt: true, ..MOVES };
      self.e1(cfg, s, 2, 2, 1, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 2, 1, 2, Alpha { alloc: false, redirect: false, redirect_all: false, fine: false, ..Alpha::ALL }, Wrap::Txn, any);
      self.hist(cfg, s, 0, 0, 3, Moves { alpha: Alpha { alloc: true, insert: true, remove: true, become_: true, mutate: true, ..Alpha::NONE }, max_nodes: 3, ..m }, None);
      self.hist(cfg, s, 2, 0, 3, Moves { alpha: Alpha { insert: true, remove: true, become_: true, update: true, fine: false, ..Alpha::NONE }, serde: true, switch: true, max_nodes: 4, ..MOVES }, None);
      self.hist(cfg, s, 2, 1, 2, m, None);
      self.sized(cfg, s, SIZES, &[0]);
      let long = Moves { alpha: Alpha { become_: true, update: true, ..LEAN }, switch: true, serde: true, ..MOVES };
      self.weave(cfg, s, 0, 0, if t { 131 } else { 37 }, if t { 80 } else { 32 }, long);
    }
    // nodes that change their type back and forth, in all orders
    for s in ["plain", "many", "fan", "typed"] {
      self.hist(cfg, s, 3, 0, 3, Moves { alpha: Alpha { become_: true, mutate: true, remove: true, fine: false, ..Alpha::NONE }, ..MOVES }, None);
    }
    if t {
      for s in CORE {
        self.hist(cfg, s, 2, 1, 3, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, None);
        self.e1(cfg, s, 3, 2, 1, Alpha::ALL, Wrap::Txn, any);
      }
      for s in ["plain", "many", "fan", "typed"] {
        self.hist(cfg, s, 2, 0, 5, Moves { alpha: Alpha { become_: true, mutate: true, fine: false, ..Alpha::NONE }, ..MOVES }, None);
      }
    }
  }
  fn c10(&mut self, cfg: Cfg) {
    let t = self.thorough;
    for s in CORE {
      let sw = Moves { alpha: Alpha::NONE, switch: true, adopt: true, ..MOVES };
      self.hist(cfg, s, 2, 3, 1, sw, None);
      self.hist(cfg, s, 3, 2, 1, Moves { adopt: false, ..sw }, None);
      self.hist(cfg, s, 3, if *s == "kinds" || *s == "plain" { 2 } else { 3 }, 1, Moves { adopt: false, ..sw }, None);
      // remove and change first, so that indexes have holes
      self.hist(cfg, s, 2, 2, 2, Moves { switch: true, adopt: true, ..MOVES }, Some(sw));
      // and use the graph afterwards
      self.hist(cfg, s, 2, 1, 2, sw, Some(Moves { switch: true, adopt: true, ..MOVES }));
      self.hist(cfg, s, 1, 1, 3, Moves { alpha: LEAN, switch: true, adopt: true, ..MOVES }, None);
      self.sized(cfg, s, SIZES, &[0, 2, 300]);
      self.pairs(cfg, s);
    }
    self.foreign(cfg);
    if t {
      for s in CORE {
        self.hist(cfg, s, 3, 3, 1, Moves { adopt: false, ..sw0() }, None);
        self.hist(cfg, s, 3, 2, 2, Moves { switch: true, alpha: LEAN, ..MOVES }, None);
        self.hist(cfg, s, 2, 2, 3, Moves { alpha: LEAN, switch: true, ..MOVES }, Some(Moves { adopt: false, ..sw0() }));
      }
    }
  }
  /// Every small graph merged into every small graph, in both ways of merging.
  fn pairs(&mut self, cfg: Cfg, s: &str) {
    let links = if self.thorough { 2 } else { 1 };
    self.part(format!("{} merges of graphs n<=2 links<={}", s, links), |ctl| merge_pairs(&core(s), ctl, cfg, links));
  }
  fn foreign(&mut self, cfg: Cfg) {
    for s in CORE {
      self.part(format!("{} other contexts", s), |ctl| foreign(&core(*s), ctl, cfg));
    }
  }
  fn c11(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let sd = Moves { alpha: Alpha::NONE, serde: true, ..MOVES };
    ALL_FORMATS.store(true, std::sync::atomic::Ordering::Relaxed);
    for s in CORE {
      self.hist(cfg, s, 0, 0, 2, Moves { serde: true, ..MOVES }, Some(sd));
      self.hist(cfg, s, 2, 3, 1, sd, None);
      self.hist(cfg, s, 3, if *s == "kinds" || *s == "plain" { 2 } else { 3 }, 1, sd, None);
      self.hist(cfg, s, 2, 2, 2, Moves { serde: true, switch: true, ..MOVES }, Some(sd));
      self.hist(cfg, s, 2, 2, 2, sd, Some(Moves { switch: true, serde: true, adopt: true, ..MOVES }));
      self.hist(cfg, s, 1, 1, 3, Moves { alpha: LEAN, serde: true, switch: true, ..MOVES }, None);
      self.sized(cfg, s, SIZES, &[0, 2, 300]);
    }
    if t {
      for s in CORE {
        self.hist(cfg, s, 2, 2, 3, Moves { alpha: LEAN, serde: true, switch: true, ..MOVES }, Some(sd));
        self.hist(cfg, s, 3, 2, 2, Moves { alpha: LEAN, serde: true, ..MOVES }, None);
        self.hist(cfg, s, 1, 1, 4, Moves { alpha: LEAN, serde: true, ..MOVES }, None);
      }
    }
  }
  /// Run in the other configurations of the crate.
  fn c16(&mut self, cfg: Cfg) {
    let t = self.thorough;
    let probe = Moves { alpha: Alpha { remove: true, redirect: true, redirect_all: true, to_empty: true, ..Alpha::NONE }, ..MOVES };
    let all = Moves { switch: true, serde: true, adopt: true, giveup: true, ..MOVES };
    for s in CORE {
      self.e1(cfg, s, 0, 0, 2, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 1, 2, 2, Alpha { alien: true, ..Alpha::ALL }, Wrap::Checked, any);
      self.e1(cfg, s, 2, 3, 1, Alpha::ALL, Wrap::Checked, any);
      self.e1(cfg, s, 2, if *s == "kinds" && !t { 1 } else { 2 }, 2, Alpha { update: false, data: false, ..Alpha::ALL }, Wrap::Txn, any);
      self.e1(cfg, s, 3, 2, 1, Alpha::ALL, Wrap::Txn, any);
      self.hist(cfg, s, 1, 1, 2, all, Some(probe));
      self.hist(cfg, s, 2, 2, 2, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, Some(probe));
      self.sized(cfg, s, SIZES, &[0]);
    }
    if t {
      for s in CORE {
        self.e1(cfg, s, 3, 3, 1, Alpha::ALL, Wrap::Checked, any);
        self.e1(cfg, s, 2, 1, 3, LEAN, Wrap::Txn, any);
        self.hist(cfg, s, 2, 1, 3, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, Some(probe));
      }
    }
  }
  fn c12(&mut self, cfg: Cfg) {
    let t = self.thorough;
    for s in ["typed", "typedgrp", "typedbidi", "typedclash", "typedmix", "plain", "fan"] {
      self.e1(cfg, s, 0, 0, 3, Alpha { redirect: false, update: false, data: false, ..Alpha::ALL }, Wrap::Txn, any);
      self.e1(cfg, s, 1, 2, 2, Alpha { alien: true, ..Alpha::ALL }, Wrap::Txn, any);
      self.e1(cfg, s, 2, 4, 1, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 2, 2, 2, Alpha::ALL, Wrap::Txn, any);
      self.e1(cfg, s, 2, 2, 1, Alpha { alien: true, ..Alpha::ALL }, Wrap::Checked, any);
      self.e1(cfg, s, 3, 3, 1, Alpha::ALL, Wrap::Txn, any);
      self.hist(cfg, s, 1, 1, 3, Moves { alpha: LEAN, adopt: true, ..MOVES }, None);
      self.hist(cfg, s, 2, 1, 2, Moves { switch: true, adopt: true, serde: true, ..MOVES }, None);
      self.sized(cfg, s, SIZES, &[0]);
      if t {
        self.e1(cfg, s, 3, 2, 2, Alpha { update: false, ..Alpha::ALL }, Wrap::Txn, any);
        self.e1(cfg, s, 2, 1, 3, LEAN, Wrap::Txn, any);
      }
    }
  }
  /// Several open transactions, two graphs.
  fn c18(&mut self) {
    let t = self.thorough;
    let all = c18::Bounds { txns: 2, items: 2, alpha: Alpha::ALL, giveup: true, merge: true };
    let few = c18::Bounds { alpha: Alpha { update: false, data: false, fine: false, ..Alpha::ALL }, ..all };
    let lean = c18::Bounds { items: 3, alpha: LEAN, giveup: false, ..all };
    for s in CORE {
      let mut p = |what: &str, links: usize, b: c18::Bounds| {
        self.part(format!("{} {} links<={} items={} transactions={}", s, what, links, b.items, b.txns), |ctl| c18::explore(&core(*s), ctl, links, b));
      };
      p("weaves", 0, if matches!(*s, "kinds" | "many" | "fan" | "typed" | "typedbidi") { few } else { all });
      if t || !matches!(*s, "kinds" | "many" | "fan" | "typed" | "typedgrp" | "typedbidi") {
        p("few weaves", 1, few);
      }
      if matches!(*s, "ps") {
        p("lean weaves", 0, lean);
      }
      if t {
        p("weaves", 2, all);
        p("lean weaves", 1, lean);
        p("lean weaves", 0, c18::Bounds { txns: 3, ..lean });
      }
    }
  }
  fn c13(&mut self, cfg: Cfg) {
    let t = self.thorough;
    for s in CORE {
      let wide = matches!(*s, "kinds" | "fan");
      self.e1(cfg, s, 0, 0, 2, Alpha::ALL, Wrap::Checked, any);
      self.e1(cfg, s, 1, 2, 2, Alpha { alien: true, ..Alpha::ALL }, Wrap::Checked, any);
      self.e1(cfg, s, 2, 3, 1, Alpha { alien: true, ..Alpha::ALL }, Wrap::Checked, any);
      self.e1(cfg, s, 2, if wide && !t { 1 } else { 2 }, 2, Alpha::ALL, Wrap::Checked, any);
      self.e1(cfg, s, 3, 2, 1, Alpha::ALL, Wrap::Checked, any);
      self.e1_fail(cfg, s, 2, 2, 1, Alpha::ALL);
      self.part(format!("{} checked families", s), |ctl| sized_checked(&core(*s), ctl, cfg, SIZES.to_vec()));
      if t {
        self.e1(cfg, s, 2, 1, 3, LEAN, Wrap::Checked, any);
        self.e1(cfg, s, 3, 3, 1, Alpha::ALL, Wrap::Checked, any);
        self.e1_fail(cfg, s, 2, 1, 2, LEAN);
      }
    }
  }
}

/// Three nodes of one variant, each in the graph before, or inserted or allocated by the transaction, links to them from
/// every field of every variant made in the same transaction, and every selection of them removed in every order.
fn removals(d: &Desc) -> Vec<Vec<Step>> {
  let nv = d.vars.len() as u8;
  let mut r = Vec::new();
  let orders: Vec<Vec<L>> = {
    let mut o: Vec<Vec<L>> = vec![vec![]];
    for k in 0.. {
      if k >= o.len() {
        break;
      }
      for t in [51, 52, 53] {
        if !o[k].contains(&t) {
          let mut n = o[k].clone();
          n.push(t);
          o.push(n);
        }
      }
    }
    o
  };
  for v in 0..nv {
    for how in 0..27 {
      let how = [how % 3, how / 3 % 3, how / 9];
      let mut base: Vec<Op> = (0..nv).map(|h| Op::Insert(1 + h as L, blank(d, h, data_of(1 + h as L)))).collect();
      let mut first = Vec::new();
      for (k, t) in [51, 52, 53].into_iter().enumerate() {
        match how[k] {
          0 => base.push(Op::Insert(t, blank(d, v, data_of(t)))),
          1 => first.push(Op::Insert(t, blank(d, v, data_of(t)))),
          _ => first.push(Op::Alloc(t, v)),
        }
      }
      for h in 0..nv {
        for f in 0..d.nfields(h) {
          for link in [&[51, 52, 53][..], &[51], &[52], &[53]] {
            if link.len() > 1 && d.kind(h, f) == Kind::Point {
              continue;
            }
            for o in &orders {
              let mut ops = first.clone();
              ops.extend(link.iter().map(|t| Op::Mutate(1 + h as L, Edit::Add(f as u8, *t))));
              ops.extend(o.iter().map(|t| Op::Remove(*t)));
              r.push(vec![Step::Txn(base.clone()), Step::Txn(ops)]);
            }
          }
        }
      }
    }
  }
  r
}

fn sw0() -> Moves {
  Moves { alpha: Alpha::NONE, switch: true, adopt: true, ..MOVES }
}
/// A schema of /verif/mc itself.
pub fn core(name: &str) -> Sc {
  with_core_schema!(name, sc_of)
}
fn sc_of<S: Schema>() -> Sc {
  Sc::of::<S>()
}

pub const BIDI: &[&str] = &["pp", "ps", "ss", "list", "tree", "friends", "fan", "multi", "multiset", "selfmulti", "typedbidi", "typedclash"];
pub const CORE: &[&str] = &["plain", "kinds", "many", "pp", "ps", "ss", "list", "tree", "friends", "fan", "multi", "multiset", "typed", "typedgrp", "typedbidi", "typedclash"];
