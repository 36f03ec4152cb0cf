//! Command line, evidence and replay, shared by the checker binaries.
use crate::engine::*;
use crate::explore::Part;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub struct Run {
  pub prop: String,
  pub tier: String,
  pub out: PathBuf,
  pub start: std::time::Instant,
}

pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|_| {}));
}

impl Run {
  pub fn artefact(&self, v: &Viol, replay_cmd: &str) -> PathBuf {
    let dir = self.out.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", self.prop));
    let body = json!({ "property": self.prop, "why": v.why, "case": v.case, "replay": replay_cmd });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
  }
  pub fn evidence(&self, acc: &Acc, parts: &[Part], extra: Value, violations: u64, complete: bool) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = json!({
      "states": acc.states.len(),
      "transitions": acc.transitions,
      "traces_validated_against_impl": acc.histories,
      "exhaustive": complete,
      "samples": acc.samples,
      "expected_refusals": acc.refusals.iter().map(|(k, v)| (format!("{:?}", k), *v)).collect::<std::collections::BTreeMap<_, _>>(),
      "not_judged_because_unspecified": acc.unspec,
      "parts": parts.iter().map(|p| json!({"name": p.name, "histories": p.histories, "transitions": p.transitions})).collect::<Vec<_>>(),
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
      for (k, v) in e {
        c.insert(k.clone(), v.clone());
      }
    }
    let body = json!({
      "property": self.prop, "tier": self.tier, "seed": seed, "level": "model_checking",
      "coverage": cov,
      "assumptions": [
        "bounds are the ones named in coverage.parts; nothing is sampled, the seed is not used",
        "a state is a distinct observed graph (read through the public API); a transition is one judged step of a history on the real crate",
        "every history is executed on the crate built from /repo's working tree, so every model trace is validated against the implementation"
      ],
      "wall_s": self.start.elapsed().as_secs_f64(),
      "violations": violations,
    });
    let _ = std::fs::create_dir_all(&self.out);
    write(&self.out.join(format!("{}.json", self.prop)), &body);
  }
}

fn write(p: &Path, v: &Value) {
  std::fs::write(p, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap_or_else(|e| {
    eprintln!("cannot write {}: {}", p.display(), e);
    std::process::exit(3);
  });
}
