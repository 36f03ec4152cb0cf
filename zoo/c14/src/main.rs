//! C14: what the derived code reports about declarations, against the declarations. C19: what its editors do.
use c14_kit::*;
use mc::engine::{Acc, Viol};
use mc::report::*;
use std::time::Instant;

fn cases() -> Vec<Case> {
  let p = [c14_p0::cases, c14_p1::cases, c14_p2::cases, c14_p3::cases, c14_p4::cases, c14_p5::cases, c14_p6::cases];
  p.into_iter().flat_map(|p| p()).collect()
}

fn ids(v: &[usize]) -> Vec<NodeIndex> {
  v.iter().map(|x| NodeIndex(*x)).collect()
}

/// All contents of one link field that are tried.
fn options(k: Kind, rich: bool) -> Vec<Vec<NodeIndex>> {
  let lists: &[&[usize]] = match (k, rich) {
    (Kind::Point, _) => &[&[], &[1], &[2]],
    (Kind::Set, true) => &[&[], &[1], &[2], &[1, 2], &[0, 1], &[0], &[1, 2, 3]],
    (Kind::Set, false) => &[&[], &[1], &[0, 2, 3]],
    (Kind::Vec, true) => &[&[], &[1], &[2], &[1, 1], &[2, 1], &[0, 1], &[1, 0], &[0], &[3, 0, 3, 1]],
    (Kind::Vec, false) => &[&[], &[2], &[2, 0, 1, 2]],
  };
  lists.iter().map(|l| ids(l)).collect()
}

fn live(v: &[NodeIndex]) -> Vec<NodeIndex> {
  v.iter().copied().filter(|x| x.0 != 0).collect()
}
fn sorted(mut v: Vec<NodeIndex>) -> Vec<NodeIndex> {
  v.sort();
  v
}

fn check_static(c: &Case, probe: &[&'static str]) -> Option<String> {
  let s = (c.stat)(probe);
  let names: Vec<&str> = c.links.iter().map(|l| l.name).collect();
  if s.names != names {
    return Some(format!("link_names() is {:?}, declared are {:?}", s.names, names));
  }
  let kinds: Vec<Kind> = c.links.iter().map(|l| l.kind).collect();
  if s.kinds != kinds {
    return Some(format!("link_types() is {:?}, declared are {:?}", s.kinds, kinds));
  }
  if s.mirrors != names.len() || !s.distinct {
    return Some(format!("link_mirrors() has {} entries, {}; declared are {:?}", s.mirrors, if s.distinct { "all different" } else { "some the same" }, names));
  }
  if s.data != c.data {
    return Some(format!("data_names() is {:?}, declared are {:?}", s.data, c.data));
  }
  // names known: links, groups of links, phantom groups; each its own
  let mut seen = BTreeMap::new();
  for (n, got) in probe.iter().zip(&s.by_name) {
    let want = names.contains(n) || c.links.iter().any(|l| l.groups.contains(n)) || c.phantom.contains(n);
    if got.is_some() != want {
      return Some(format!("get_link_or_group_by_name({}) finds {:?}", n, got));
    }
    if let Some(i) = got {
      if let Some(o) = seen.insert(*i, *n) {
        return Some(format!("get_link_or_group_by_name gives the same for {} and {}", o, n));
      }
    }
  }
  let id = |n: &str| probe.iter().position(|p| *p == n).and_then(|i| s.by_name[i]);
  for (l, got) in c.links.iter().zip(&s.logs) {
    let mut want: BTreeSet<Option<usize>> = BTreeSet::from([id(l.name)]);
    want.extend(l.groups.iter().map(|g| id(g)));
    let g: BTreeSet<Option<usize>> = got.iter().copied().collect();
    if g != want || got.len() != want.len() {
      return Some(format!("to_link_or_groups of {} lists {} entries, declared are itself and {:?}", l.name, got.len(), l.groups));
    }
  }
  for (l, r) in c.links.iter().zip(&s.round) {
    if l.kind != Kind::Vec && *r != Some(true) {
      return Some(format!("to_link_mirror(to_source()) of {} gives {}", l.name, if r.is_some() { "another link" } else { "a panic" }));
    }
  }
  None
}

fn check_lists(c: &Case, content: &[Vec<NodeIndex>], probe: &[&'static str], r: &Dyn, order: &[usize], what: &str) -> Option<String> {
  // order: links in the numbering of the report
  let eq = |k: Kind, got: &[NodeIndex], want: &[NodeIndex]| if k == Kind::Set { sorted(got.to_vec()) == sorted(want.to_vec()) } else { got == want };
  if r.links.len() != order.len() {
    return Some(format!("{}: {} links with targets, expected {}", what, r.links.len(), order.len()));
  }
  for (i, &l) in order.iter().enumerate() {
    let want = live(&content[l]);
    if !eq(c.links[l].kind, &r.links[i], &want) {
      return Some(format!("{} iter_links({}) lists {:?}, it holds {:?}", what, c.links[l].name, r.links[i], want));
    }
    let has = [1, 2, 3].map(|t| want.contains(&NodeIndex(t)));
    if r.contains[i] != has {
      return Some(format!("{} contains_link({}, 1..3) is {:?}, it holds {:?}", what, c.links[l].name, r.contains[i], want));
    }
  }
  let mut want: Vec<(NodeIndex, usize)> = Vec::new();
  for (i, &l) in order.iter().enumerate() {
    want.extend(live(&content[l]).into_iter().map(|t| (t, i)));
  }
  let mut got = r.sources.clone();
  want.sort();
  got.sort();
  if got != want || !r.sources_distinct {
    return Some(format!("{} iter_sources() lists {:?}, expected {:?}", what, got, want));
  }
  for (n, got) in probe.iter().zip(&r.by_name) {
    let (k, want) = match c.links.iter().position(|l| l.name == *n) {
      Some(l) => (c.links[l].kind, live(&content[l])),
      None => (Kind::Vec, vec![]),
    };
    if !eq(k, got, &want) {
      return Some(format!("{} get_links_by_name({}) lists {:?}, it holds {:?}", what, n, got, want));
    }
  }
  for (n, got) in probe.iter().zip(&r.by_group) {
    let want: Vec<NodeIndex> = c.links.iter().zip(content).filter(|(l, _)| l.groups.contains(n)).flat_map(|(_, v)| live(v)).collect();
    if sorted(got.clone()) != sorted(want.clone()) {
      return Some(format!("{} get_links_by_group({}) lists {:?}, it holds {:?}", what, n, got, want));
    }
  }
  if r.data.iter().any(|x| !x) {
    let n: Vec<&str> = c.data.iter().flat_map(|d| [*d, *d]).chain(c.links.iter().flat_map(|l| [l.name, l.name])).chain(["nosuch"]).collect();
    let at = r.data.iter().position(|x| !x).unwrap();
    return Some(format!("{} data_ref_by_name({}) is wrong (data only, by its type only)", what, n.get(at).unwrap_or(&"?")));
  }
  None
}

fn check_content(c: &Case, content: &[Vec<NodeIndex>], probe: &[&'static str]) -> Option<String> {
  let all: Vec<usize> = (0..c.links.len()).collect();
  if let Some(e) = check_lists(c, content, probe, &(c.dynr)(content, probe), &all, "") {
    return Some(e);
  }
  let e = (c.enr)(content, probe);
  let order: Vec<usize> = all.iter().copied().filter(|l| !live(&content[*l]).is_empty()).collect();
  // the enum has no list of its links: they are met in the order of the sources
  let mut met: Vec<usize> = Vec::new();
  if e.links.len() == order.len() {
    // match each link met with a declared one through its targets: by position of declaration first
    met = order.clone();
    let fits = |m: &[usize]| m.iter().enumerate().all(|(i, &l)| sorted(e.links[i].clone()) == sorted(live(&content[l])));
    if !fits(&met) {
      // any other order of the links will do as well
      if let Some(x) = permutations(&order).into_iter().find(|m| fits(m)) {
        met = x;
      }
    }
  }
  if let Some(x) = check_lists(c, content, probe, &e, if met.is_empty() { &order } else { &met }, "enum:") {
    return Some(x);
  }
  for (n, got) in probe.iter().zip(&e.in_group) {
    let want = c.in_groups.iter().any(|(g, m)| g == n && *m);
    if *got != want {
      return Some(format!("in_group({}) is {} for variant {}", n, got, c.at.1));
    }
  }
  if !e.disc {
    return Some("discriminant() is not the one of the variant".into());
  }
  if e.walk != (c.at.1, c.nvars) {
    return Some(format!("walking the discriminants finds variant {} as number {} of {}", c.at.1, e.walk.0, e.walk.1));
  }
  if !e.check_link {
    return Some("check_link refuses a link of the node itself".into());
  }
  if order.len() == c.links.len() {
    for (i, &l) in met.iter().enumerate() {
      let num = |k: usize| met.iter().position(|x| *x == k).unwrap();
      let mut want: Vec<BTreeSet<usize>> = vec![BTreeSet::from([i])];
      for g in &c.links[l].groups {
        want.push((0..c.links.len()).filter(|k| c.links[*k].groups.contains(g)).map(num).collect());
      }
      let mut got = e.logs[i].1.clone();
      got.sort();
      want.sort();
      if got != want || e.logs[i].0 != want.len() {
        return Some(format!("to_log_mirror_enums/expand_link_groups of {} gives {:?}, expected {:?}", c.links[l].name, got, want));
      }
    }
  }
  None
}

/// C19: every call of an editor that is specified, on this content.
fn check_edits(c: &Case, content: &[Vec<NodeIndex>], acc: &mut Acc) -> Option<String> {
  let before: Vec<Vec<NodeIndex>> = content.iter().zip(&c.links).map(|(v, l)| if l.kind == Kind::Set { sorted(v.clone()) } else { live_point(l.kind, v) }).collect();
  let mut calls: Vec<(Edit, Said, Vec<Vec<NodeIndex>>)> = Vec::new();
  for (i, l) in c.links.iter().enumerate() {
    let cur = &before[i];
    for t in ids(&[1, 2, 3]) {
      let has = cur.contains(&t);
      let mut added = before.clone();
      let mut gone = before.clone();
      gone[i].retain(|x| *x != t);
      match l.kind {
        Kind::Point => {
          added[i] = vec![t];
          if cur.is_empty() {
            calls.push((Edit::Add(i, t), Some((None, Some(true))), added));
          } else if has {
            calls.push((Edit::Add(i, t), Some((None, Some(false))), added));
          } else {
            calls.push((Edit::Add(i, t), None, before.clone()));
          }
          calls.push((Edit::Remove(i, t), Some((Some(has), None)), gone));
        },
        Kind::Set => {
          if !has {
            added[i] = sorted([cur.clone(), vec![t]].concat());
          }
          calls.push((Edit::Add(i, t), Some((None, Some(!has))), added));
          calls.push((Edit::Remove(i, t), Some((Some(has), None)), gone));
        },
        // not supported
        Kind::Vec => {},
      }
      let places: Vec<usize> = (0..cur.len()).filter(|k| cur[*k] == t).collect();
      for (nth, at) in places.iter().enumerate() {
        for new in ids(&[0, 1, 2, 3, 4]) {
          if new == t {
            continue;
          }
          let mut after = before.clone();
          let none = new.is_empty();
          after[i] = match l.kind {
            Kind::Point => vec![new],
            Kind::Set => {
              let mut v: Vec<NodeIndex> = cur.iter().copied().filter(|x| *x != t).collect();
              if !none && !v.contains(&new) {
                v.push(new);
              }
              sorted(v)
            },
            Kind::Vec => {
              let mut v = cur.clone();
              v[*at] = new;
              v
            },
          };
          if l.kind == Kind::Point && none {
            after[i].clear();
          }
          let said = Some((Some(!after[i].contains(&t)), Some(!none && !cur.contains(&new))));
          calls.push((Edit::Modify(i, t, nth, new), said, after));
        }
      }
    }
  }
  let mut foreign = Vec::new();
  if c.other {
    for t in ids(&[1, 2]) {
      foreign.push((Edit::AddOther(t), Some((None, Some(false))), before.clone()));
      foreign.push((Edit::RemoveOther(t), Some((Some(false), None)), before.clone()));
    }
  }
  // replacing what is not there: what happens is not said, but what is reported has to be what happened
  for (i, l) in c.links.iter().enumerate() {
    if l.kind == Kind::Vec {
      continue;
    }
    for old in ids(&[0, 1, 2, 3]).into_iter().filter(|x| !before[i].contains(x)) {
      for new in ids(&[0, 1, 2, 3, 4]) {
        for (who, f) in [("", c.ed), ("enum:", c.ened)] {
          acc.transitions += 1;
          let e = Edit::Swap(i, old, new);
          let (s, a) = f(content, e);
          let Some((removed, added)) = s else { return Some(format!("{} {:?} panics", who, e)) };
          let (was, is) = (live(&before[i]), live(&a[i]));
          let truth = (Some(was.iter().any(|x| !is.contains(x))), Some(is.iter().any(|x| !was.contains(x))));
          if (removed, added) != truth {
            return Some(format!("{} {:?} reports {}, but {}", who, e, say(&s), say(&Some(truth))));
          }
          let kept = l.kind == Kind::Point || was.iter().all(|x| is.contains(x));
          if !kept || is.iter().any(|x| *x != new && !was.contains(x)) || (0..a.len()).any(|k| k != i && a[k] != before[k]) {
            return Some(format!("{} {:?} leaves {:?} of {:?}", who, e, a, before));
          }
        }
      }
    }
  }
  for (who, f, list) in [("", c.ed, &calls), ("enum:", c.ened, &calls), ("enum:", c.ened, &foreign)] {
    for (e, said, after) in list.iter() {
      acc.transitions += 1;
      let (s, a) = f(content, *e);
      if s != *said {
        return Some(format!("{} {:?} reports {}, expected {}", who, e, say(&s), say(said)));
      }
      // nothing is claimed about a node whose editing was refused
      if s.is_some() && a != *after {
        return Some(format!("{} {:?} leaves {:?}, expected {:?}", who, e, a, after));
      }
    }
  }
  None
}
fn say(s: &Said) -> String {
  match s {
    None => "a panic".into(),
    Some((None, None)) => "no such entry".into(),
    Some((r, a)) => format!("removed {:?}, added {:?}", r, a),
  }
}
fn live_point(k: Kind, v: &[NodeIndex]) -> Vec<NodeIndex> {
  if k == Kind::Point {
    live(v)
  } else {
    v.to_vec()
  }
}

fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
  if v.len() > 6 {
    return vec![];
  }
  if v.is_empty() {
    return vec![vec![]];
  }
  let mut r = Vec::new();
  for i in 0..v.len() {
    let mut w = v.to_vec();
    let x = w.remove(i);
    for mut p in permutations(&w) {
      p.insert(0, x);
      r.push(p);
    }
  }
  r
}

fn contents(c: &Case) -> Vec<Vec<Vec<NodeIndex>>> {
  let mut r: Vec<Vec<Vec<NodeIndex>>> = vec![vec![]];
  let n = c.links.len();
  if n <= 4 {
    for l in &c.links {
      let o = options(l.kind, n <= 2);
      r = r.iter().flat_map(|x| o.iter().map(move |y| [x.clone(), vec![y.clone()]].concat())).collect();
    }
  } else {
    // one field at a time against empty and full
    let opts: Vec<_> = c.links.iter().map(|l| options(l.kind, true)).collect();
    let empty: Vec<Vec<NodeIndex>> = vec![vec![]; n];
    let full: Vec<Vec<NodeIndex>> = opts.iter().enumerate().map(|(i, o)| o[1 + i % (o.len() - 1)].clone()).collect();
    r = vec![empty.clone()];
    for i in 0..n {
      for o in &opts[i] {
        for b in [&empty, &full] {
          let mut x = b.clone();
          x[i] = o.clone();
          r.push(x);
        }
      }
    }
  }
  r
}

fn run(prop: &str, only: Option<(usize, usize)>) -> (Acc, Option<Viol>, u64) {
  let mut acc = Acc::default();
  let mut n = 0;
  for c in cases() {
    if only.map_or(false, |o| o != c.at) {
      continue;
    }
    n += 1;
    let mut probe: Vec<&'static str> = c.links.iter().map(|l| l.name).collect();
    probe.extend(c.data.iter());
    for g in c.links.iter().flat_map(|l| l.groups.iter()).chain(c.phantom.iter()).chain(c.in_groups.iter().map(|x| &x.0)).chain(["g", "h", "k", "p", "q", "nosuch", "", "Node", "N0", "V0"].iter()) {
      if !probe.contains(g) {
        probe.push(g);
      }
    }
    let viol = |why: String, content: &[Vec<NodeIndex>]| Viol {
      case: serde_json::json!({ "declaration": c.text, "at": [c.at.0, c.at.1], "links": c.links.iter().zip(content).map(|(l, v)| format!("{} = {:?}", l.name, v)).collect::<Vec<_>>() }),
      why,
    };
    if prop == "C19" {
      for content in contents(&c) {
        acc.histories += 1;
        acc.states.insert((c.at.0 as u64) << 40 | (c.at.1 as u64) << 20 | (acc.histories & 0xfffff));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_edits(&c, &content, &mut acc)));
        if let Some(e) = r.unwrap_or(Some("listing the sources panics".into())) {
          return (acc, Some(viol(e, &content)), n);
        }
      }
      if acc.samples.len() < 5 && n % 97 == 3 {
        acc.samples.push(serde_json::json!(c.text));
      }
      continue;
    }
    match std::panic::catch_unwind(|| check_static(&c, &probe)) {
      Ok(None) => {},
      Ok(Some(e)) => return (acc, Some(viol(e, &[])), n),
      Err(_) => return (acc, Some(viol("a report panics".into(), &[])), n),
    }
    for content in contents(&c) {
      acc.transitions += 1;
      acc.histories += 1;
      acc.states.insert((c.at.0 as u64) << 40 | (c.at.1 as u64) << 20 | (acc.transitions & 0xfffff));
      match std::panic::catch_unwind(|| check_content(&c, &content, &probe)) {
        Ok(None) => {},
        Ok(Some(e)) => return (acc, Some(viol(e, &content)), n),
        Err(_) => return (acc, Some(viol("a report panics".into(), &content)), n),
      }
    }
    if acc.samples.len() < 5 && n % 97 == 3 {
      acc.samples.push(serde_json::json!(c.text));
    }
  }
  (acc, None, n)
}

fn main() {
  quiet_panics();
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(|s| s.as_str()) == Some("replay") {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("cannot read the file")).expect("not JSON");
    let at = v["case"]["at"].as_array().map(|a| (a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize));
    println!("{}", v["case"]["declaration"]);
    match run(v["property"].as_str().unwrap_or("C14"), at).1 {
      Some(v) => {
        println!("reproduced: {}\n{}", v.why, v.case);
        std::process::exit(1);
      },
      None => println!("not reproduced"),
    }
    return;
  }
  let r = Run { prop: args[2].clone(), tier: args[3].clone(), out: args[4].clone().into(), start: Instant::now() };
  let (acc, v, n) = run(&r.prop, None);
  let extra = serde_json::json!({ "declarations": n, "states_are": "a declaration with one content of its fields", "transitions_are": "C14: contents reported on; C19: calls of editors judged" });
  r.evidence(&acc, &[], extra, v.is_some() as u64, v.is_none());
  eprintln!("{}: declarations {} contents {} judged {} {:.1}s", r.prop, n, acc.histories, acc.transitions, r.start.elapsed().as_secs_f64());
  if let Some(v) = v {
    let p = r.artefact(&v, "/verif/zoo.sh replay <this file>");
    println!("{}\n{}", v.why, v.case);
    println!("VIOLATION property={} replay={}", r.prop, p.display());
    std::process::exit(1);
  }
}
