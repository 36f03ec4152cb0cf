//! C07: indexes are unique. Two explorations of the crate in /repo:
//! all sequential histories of one context up to a depth, and all interleavings of small threads
//! that share a context, under the scheduler of `ttstd` (see ttstd/lib.rs).
#![allow(unexpected_cfgs)]
#[cfg(ttgraph_mc)]
extern crate ttstd as std;
#[cfg(ttgraph_mc)]
extern crate ttstd as core;

mod node;
#[cfg(ttgraph_mc)]
mod par;
#[cfg(ttgraph_mc)]
mod seq;
mod thread_body;

#[cfg(not(ttgraph_mc))]
fn main() {
  // a free run of the thread bodies, for a race detector
  for p in [["IBC", "SI", "UUC"], ["SC", "SC", "XI"], ["IGI", "NIC", "BRI"]] {
    let ctx = ttgraph::Context::new();
    let outs: Vec<_> = std::thread::scope(|s| {
      let hs: Vec<_> = p.iter().enumerate().map(|(k, prog)| s.spawn({ let ctx = &ctx; move || thread_body::body(ctx, k, prog) })).collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Err(e) = thread_body::judge(&ctx, outs) {
      println!("FREE RUN: {}", e);
      std::process::exit(1);
    }
  }
  println!("free run ok");
}

#[cfg(ttgraph_mc)]
fn main() {
  use serde_json::json;
  let args: Vec<String> = std::env::args().collect();
  let start = std::time::Instant::now();
  std::panic::set_hook(Box::new(|_| {}));
  if args.get(1).map(|s| s.as_str()) == Some("replay") {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("cannot read")).expect("not JSON");
    println!("recorded: {}", v["why"].as_str().unwrap_or(""));
    let c = &v["case"];
    let r = if c["threads"].is_array() { par::replay(c) } else { seq::replay(c) };
    match r {
      Some(w) => {
        println!("reproduced: {}", w);
        std::process::exit(1);
      },
      None => println!("not reproduced"),
    }
    return;
  }
  let (tier, out) = (args[3].clone(), args[4].clone());
  let thorough = tier == "thorough";
  // nothing here takes long: a stuck execution is an error of the harness or a hang of the crate
  let limit = if thorough { 7200 } else { 600 };
  std::thread::spawn(move || {
    std::thread::sleep(std::time::Duration::from_secs(limit));
    eprintln!("c07 does not come to an end");
    std::process::exit(3);
  });
  let mut sr = seq::explore(thorough);
  let pr = if sr.viol.is_none() { par::explore(thorough) } else { par::Report::default() };
  let viol = sr.viol.take().or(pr.viol.clone());
  let ev = json!({
    "property": "C07", "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), "level": "model_checking",
    "coverage": {
      "states": sr.states + pr.outcomes,
      "transitions": sr.transitions + pr.points,
      "schedules": pr.execs,
      "distinct_outcomes": pr.outcomes,
      "traces_validated_against_impl": sr.histories + pr.execs,
      "exhaustive": viol.is_none() && !pr.capped,
      "preemption_bound": pr.bound,
      "schedules_replayed_twice": pr.twice,
      "parts": [ {"name": format!("sequential histories of depth {}", sr.depth), "histories": sr.histories, "transitions": sr.transitions}, {"name": pr.what, "histories": pr.execs, "transitions": pr.points} ],
      "samples": [sr.sample, pr.sample],
    },
    "assumptions": ["interleavings at synchronisation operations, sequentially consistent memory", "unsynchronised sharing is looked for separately by a run of the same bodies under Miri", "nothing is sampled, the seed is not used"],
    "wall_s": start.elapsed().as_secs_f64(), "violations": viol.is_some() as u32,
  });
  std::fs::create_dir_all(format!("{}/replay", out)).unwrap();
  std::fs::write(format!("{}/C07.json", out), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
  eprintln!("C07: sequential histories {} transitions {}; schedules {} points {} distinct outcomes {} capped {} {:.1}s", sr.histories, sr.transitions, pr.execs, pr.points, pr.outcomes, pr.capped, start.elapsed().as_secs_f64());
  if let Some((case, why)) = viol {
    if why.contains("HARNESS") {
      eprintln!("error in the harness: {}", why);
      std::process::exit(3);
    }
    let p = format!("{}/replay/C07.json", out);
    std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": "C07", "why": why, "case": case, "replay": "/verif/c07.sh replay <this file>"})).unwrap()).unwrap();
    println!("{}\n{}", why, case);
    println!("VIOLATION property=C07 replay={}", p);
    std::process::exit(1);
  }
}
