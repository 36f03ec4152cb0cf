//! Command line of the checker binaries.
use crate::engine::*;
use crate::explore::*;
use crate::report::*;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Instant;

/// One checker binary: where its schemas are, what it runs for a property, and its own path.
#[derive(Clone, Copy)]
pub struct App {
  pub lookup: fn(&str) -> Sc,
  pub plan: fn(&mut Plan, &str),
  pub bin: &'static str,
}

/// mc check <property> <tier> <evidence dir> [part filter]
/// mc replay <file>
pub fn main(app: App) {
  let args: Vec<String> = std::env::args().collect();
  match args.get(1).map(|s| s.as_str()) {
    Some("check") => check(&app, &args),
    Some("replay") => replay(&app, &args[2]),
    _ => {
      eprintln!("usage: mc check <property> <tier> <evidence dir> | mc replay <file>");
      std::process::exit(3);
    },
  }
}

fn check(app: &App, args: &[String]) {
  quiet_panics();
  let run = Run { prop: args[2].clone(), tier: args[3].clone(), out: PathBuf::from(&args[4]), start: Instant::now() };
  let run = Arc::new(run);
  let r2 = run.clone();
  let bin = app.bin;
  watchdog(move |case| {
    let v = Viol { case, why: format!("does not come to an end within {} s", HANG.as_secs()) };
    let p = r2.artefact(&v, &format!("{} replay <this file>", bin));
    r2.evidence(&Acc::default(), &[], serde_json::json!({}), 1, false);
    println!("{}", v.why);
    println!("VIOLATION property={} replay={}", r2.prop, p.display());
    std::process::exit(1);
  });
  let mut p = Plan { ctl: Ctl::new(), acc: Acc::default(), parts: vec![], thorough: run.tier == "thorough", only: args.get(5).map(|x| x.as_str()), lookup: app.lookup };
  if p.thorough {
    crate::enumr::ORDERED.store(3, std::sync::atomic::Ordering::Relaxed);
  }
  (app.plan)(&mut p, &run.prop);
  let v = p.ctl.viol.lock().unwrap().clone();
  let v = v.map(|v| shrink(app, &run.prop, v));
  run.evidence(&p.acc, &p.parts, serde_json::json!({}), v.is_some() as u64, v.is_none());
  eprintln!("{}: states {} transitions {} histories {} refusals {:?} unspecified {:?} {:.1}s", run.prop, p.acc.states.len(), p.acc.transitions, p.acc.histories, p.acc.refusals, p.acc.unspec, run.start.elapsed().as_secs_f64());
  if let Some(v) = v {
    if v.why.contains("HARNESS") {
      eprintln!("error in the harness: {}\n{}", v.why, v.case);
      std::process::exit(3);
    }
    let path = run.artefact(&v, &format!("{} replay <this file>", app.bin));
    println!("{}", v.why);
    println!("{}", v.case);
    println!("VIOLATION property={} replay={}", run.prop, path.display());
    std::process::exit(1);
  }
}

/// Make a failing history smaller as long as it keeps failing.
fn shrink(app: &App, prop: &str, v: Viol) -> Viol {
  let Ok(mut case) = serde_json::from_value::<Case>(v.case.clone()) else { return v };
  let Some(cfg) = cfg_of(prop) else { return v };
  let sc = (app.lookup)(&case.schema);
  let fails = |c: &Case| -> Option<String> {
    let mut acc = Acc::default();
    run_case(&sc, c, cfg, &mut acc).map(|x| format!("step {}: {}", x.0, x.1)).filter(|w| !w.contains("HARNESS"))
  };
  let Some(mut why) = fails(&case) else { return v };
  let t = Instant::now();
  let mut again = true;
  while again && t.elapsed().as_secs() < 20 {
    again = false;
    for k in (0..case.steps.len()).rev() {
      let mut c = case.clone();
      c.steps.remove(k);
      if let Some(w) = fails(&c) {
        case = c;
        why = w;
        again = true;
        break;
      }
      let n = match &case.steps[k] {
        Step::Txn(o) | Step::Checked(o) => o.len(),
        _ => 0,
      };
      for i in (0..n).rev() {
        let mut c = case.clone();
        if let Step::Txn(o) | Step::Checked(o) = &mut c.steps[k] {
          o.remove(i);
        }
        if let Some(w) = fails(&c) {
          case = c;
          why = w;
          again = true;
          break;
        }
      }
    }
  }
  Viol { case: serde_json::to_value(&case).unwrap(), why }
}

fn replay(app: &App, file: &str) {
  let text = std::fs::read_to_string(file).expect("cannot read the file");
  let v: serde_json::Value = serde_json::from_str(&text).expect("not JSON");
  let prop = v["property"].as_str().unwrap_or("C01").to_string();
  ALL_FORMATS.store(prop == "C11", std::sync::atomic::Ordering::Relaxed);
  println!("property {}\nrecorded: {}", prop, v["why"].as_str().unwrap_or(""));
  let r = if !v["case"]["seq"].is_null() {
    replay_seq(&v["case"]["seq"])
  } else if !v["case"]["weave"].is_null() {
    replay_weave(&v["case"]["weave"])
  } else {
    let case: Case = serde_json::from_value(v["case"].clone()).expect("not a history");
    for (k, s) in case.steps.iter().enumerate() {
      println!("step {}: {}", k, serde_json::to_string(s).unwrap());
    }
    let mut acc = Acc::default();
    run_case(&(app.lookup)(&case.schema), &case, cfg_of(&prop).expect("no such property"), &mut acc).map(|x| format!("step {}: {}", x.0, x.1))
  };
  match r {
    Some(w) => {
      println!("reproduced: {}", w);
      std::process::exit(1);
    },
    None => println!("not reproduced"),
  }
}

#[cfg(feature = "core")]
fn replay_seq(v: &serde_json::Value) -> Option<String> {
  crate::c08::replay(&serde_json::from_value(v.clone()).expect("not a sequence"))
}
#[cfg(feature = "core")]
fn replay_weave(v: &serde_json::Value) -> Option<String> {
  crate::c18::replay(&serde_json::from_value(v.clone()).expect("not a weave"))
}
#[cfg(not(feature = "core"))]
fn replay_weave(_: &serde_json::Value) -> Option<String> {
  panic!("not a history of this checker")
}
#[cfg(not(feature = "core"))]
fn replay_seq(_: &serde_json::Value) -> Option<String> {
  panic!("not a history of this checker")
}
