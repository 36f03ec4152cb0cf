//! All interleavings of the thread bodies.
use crate::thread_body::{body, judge};
use serde_json::{json, Value};
use std::collections::HashSet;
use ttgraph::Context;
use ttstd::sched;

#[derive(Default)]
pub struct Report {
  pub execs: u64,
  pub points: u64,
  pub outcomes: usize,
  pub bound: usize,
  pub twice: u64,
  pub capped: bool,
  pub what: String,
  pub sample: Value,
  pub viol: Option<(Value, String)>,
}

struct One {
  trace: Vec<sched::Point>,
  obs: Vec<Vec<usize>>,
  why: Option<String>,
}

fn once(progs: &[&str], prefix: &[usize]) -> One {
  let ctx = Context::new();
  let bodies: Vec<Box<dyn FnOnce() -> crate::thread_body::Out + Send + '_>> = progs
    .iter()
    .enumerate()
    .map(|(k, p)| {
      let ctx = &ctx;
      Box::new(move || body(ctx, k, p)) as Box<dyn FnOnce() -> _ + Send>
    })
    .collect();
  let o = sched::run(prefix, bodies);
  let mut one = One { trace: o.trace, obs: vec![], why: o.dead };
  if one.why.is_some() {
    return one;
  }
  let mut outs = Vec::new();
  for (k, r) in o.results.into_iter().enumerate() {
    match r {
      Some(Ok(x)) => outs.push(x),
      Some(Err(e)) => {
        one.why = Some(format!("thread {} panics: {}", k, e));
        return one;
      },
      None => {
        one.why = Some("HARNESS: a thread gave no result".into());
        return one;
      },
    }
  }
  one.obs = outs.iter().map(|o| o.handed.iter().map(|i| i.0).collect()).collect();
  one.why = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(&ctx, outs))) {
    Ok(r) => r.err(),
    Err(_) => Some("putting the graphs of the threads together panics".into()),
  };
  one
}

fn preemptions(t: &[sched::Point]) -> usize {
  t.iter().filter(|p| p.running.is_some_and(|r| p.enabled[p.chosen] != r)).count()
}

fn programs(alpha: &str, len: usize) -> Vec<String> {
  let mut all: Vec<String> = vec![];
  let mut cur: Vec<String> = vec![String::new()];
  for _ in 0..len {
    cur = cur.iter().flat_map(|p| alpha.chars().map(move |c| format!("{}{}", p, c))).collect();
    all.extend(cur.iter().cloned());
  }
  all
}
fn multisets(ps: &[String], k: usize) -> Vec<Vec<String>> {
  fn go(ps: &[String], from: usize, k: usize, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if cur.len() == k {
      out.push(cur.clone());
      return;
    }
    for i in from..ps.len() {
      cur.push(ps[i].clone());
      go(ps, i, k, cur, out);
      cur.pop();
    }
  }
  let mut out = vec![];
  go(ps, 0, k, &mut vec![], &mut out);
  out
}

pub fn explore(thorough: bool) -> Report {
  // two threads, three threads
  let mut jobs: Vec<Vec<String>> = vec![];
  if thorough {
    jobs.extend(multisets(&programs("IUSGC", 3), 2));
    jobs.extend(multisets(&programs("IBUSRGXCN", 2), 2));
    jobs.extend(multisets(&programs("IUSC", 2), 3));
    jobs.extend(multisets(&programs("IS", 2), 4).into_iter().filter(|p| p.iter().map(|s| s.len()).sum::<usize>() <= 6));
  } else {
    jobs.extend(multisets(&programs("IUS", 3), 2));
    jobs.extend(multisets(&programs("IBUSRGXCN", 2), 2));
    jobs.extend(multisets(&programs("IUS", 2), 3));
  }
  jobs.sort_by_key(|j| j.iter().map(|s| s.len()).sum::<usize>());
  let bound = if thorough { 4 } else { 2 };
  // fully explored whatever the number of preemptions when an execution has at most this many points
  let full = if thorough { 12 } else { 9 };
  let cap: u64 = if thorough { 60_000_000 } else { 1_500_000 };
  let next = std::sync::atomic::AtomicUsize::new(0);
  let total = std::sync::atomic::AtomicU64::new(0);
  let stop = std::sync::atomic::AtomicBool::new(false);
  use std::sync::atomic::Ordering::SeqCst;
  let reps: Vec<(Report, HashSet<u64>)> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
      .map(|_| {
        let (jobs, next, total, stop) = (&jobs, &next, &total, &stop);
        s.spawn(move || {
          let mut r = Report::default();
          let mut outs: HashSet<u64> = HashSet::new();
          loop {
            let j = next.fetch_add(1, SeqCst);
            if j >= jobs.len() || stop.load(SeqCst) {
              break;
            }
            let progs: Vec<&str> = jobs[j].iter().map(|s| s.as_str()).collect();
            let mut stack: Vec<Vec<usize>> = vec![vec![]];
            let mut first = true;
            while let Some(prefix) = stack.pop() {
              if stop.load(SeqCst) {
                break;
              }
              if total.fetch_add(1, SeqCst) >= cap {
                r.capped = true;
                break;
              }
              let x = once(&progs, &prefix);
              r.execs += 1;
              r.points += x.trace.len() as u64;
              if first && x.why.is_none() {
                first = false;
                r.twice += 1;
                let ch: Vec<usize> = x.trace.iter().map(|p| p.chosen).collect();
                let y = once(&progs, &ch);
                if y.obs != x.obs || y.trace.len() != x.trace.len() {
                  // the same schedule must give the same execution
                  stop.store(true, SeqCst);
                  r.viol = Some((json!({"threads": progs}), "HARNESS: a schedule run twice gives different observations".into()));
                  break;
                }
              }
              {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (j, &x.obs).hash(&mut h);
                outs.insert(h.finish());
              }
              if r.execs == 50 {
                r.sample = json!({"threads": progs, "schedule": x.trace.iter().map(|p| p.enabled[p.chosen]).collect::<Vec<_>>(), "indexes": x.obs});
              }
              let ch: Vec<usize> = x.trace.iter().map(|p| p.chosen).collect();
              if let Some(w) = x.why {
                // must fail again in the same way
                let y = once(&progs, &ch);
                let w = if y.why.as_ref() == Some(&w) { w } else { format!("HARNESS: not reproducible: {} / {:?}", w, y.why) };
                stop.store(true, SeqCst);
                r.viol = Some((json!({"threads": progs, "choices": ch, "schedule": x.trace.iter().map(|p| p.enabled[p.chosen]).collect::<Vec<_>>()}), w));
                break;
              }
              for i in (prefix.len()..x.trace.len()).rev() {
                let p = &x.trace[i];
                let cost = preemptions(&x.trace[..i]) + p.running.is_some() as usize;
                if cost > bound && x.trace.len() > full {
                  continue;
                }
                for alt in 1..p.enabled.len() {
                  let mut q = ch[..i].to_vec();
                  q.push(alt);
                  stack.push(q);
                }
              }
            }
          }
          (r, outs)
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  let mut r = Report { bound, ..Default::default() };
  let mut outs = HashSet::new();
  for (x, o) in reps {
    r.execs += x.execs;
    r.points += x.points;
    r.twice += x.twice;
    r.capped |= x.capped;
    if !x.sample.is_null() {
      r.sample = x.sample;
    }
    outs.extend(o);
    if let Some(v) = x.viol {
      // the one with the fewest operations
      let size = |v: &(Value, String)| v.0.to_string().len();
      if r.viol.as_ref().map_or(true, |o| size(&v) < size(o)) {
        r.viol = Some(v);
      }
    }
  }
  r.outcomes = outs.len();
  r.what = format!("{} thread programs: all interleavings up to {} scheduling points, at most {} preemptions beyond", jobs.len(), full, bound);
  r
}

pub fn replay(c: &Value) -> Option<String> {
  let progs: Vec<String> = serde_json::from_value(c["threads"].clone()).unwrap();
  let ch: Vec<usize> = serde_json::from_value(c["choices"].clone()).unwrap_or_default();
  println!("threads {:?}, schedule {}", progs, c["schedule"]);
  let p: Vec<&str> = progs.iter().map(|s| s.as_str()).collect();
  let x = once(&p, &ch);
  println!("indexes {:?}", x.obs);
  x.why
}
