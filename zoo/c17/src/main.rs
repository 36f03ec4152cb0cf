use mc::cli::App;
use mc::engine::Sc;
use mc::enumr::*;
use mc::explore::*;

fn parts() -> Vec<(&'static [&'static str], fn(&str) -> Option<Sc>)> {
  vec![(c17_p0::ALL, c17_p0::lookup), (c17_p1::ALL, c17_p1::lookup), (c17_p2::ALL, c17_p2::lookup), (c17_p3::ALL, c17_p3::lookup), (c17_p4::ALL, c17_p4::lookup), (c17_p5::ALL, c17_p5::lookup), (c17_p6::ALL, c17_p6::lookup)]
}
fn lookup(name: &str) -> Sc {
  parts().iter().find_map(|p| (p.1)(name)).unwrap_or_else(|| panic!("unknown schema {}", name))
}
fn all() -> Vec<&'static str> {
  parts().iter().flat_map(|p| p.0.iter().copied()).collect()
}
fn plan(p: &mut Plan, prop: &str) {
  let cfg = cfg_of(prop).unwrap();
  let t = p.thorough;
  for s in all() {
    // spellings of a type that is explored in depth under another name
    let wide = !s.contains("spelling");
    p.e1(cfg, s, 2, if wide || t { 3 } else { 2 }, 1, Alpha::ALL, Wrap::Txn, any);
    p.e1(cfg, s, 1, 1, 2, Alpha { update: false, data: false, ..Alpha::ALL }, Wrap::Txn, any);
    p.hist(cfg, s, 2, 2, 1, Moves { alpha: Alpha::NONE, switch: true, serde: true, adopt: true, ..MOVES }, None);
    p.sized(cfg, s, if wide { SIZES } else { &[3, 17] }, &[0]);
    if wide || t {
      p.e1(cfg, s, 3, 2, 1, LEAN, Wrap::Txn, any);
      p.hist(cfg, s, 1, 1, 2, Moves { alpha: LEAN, switch: true, serde: true, ..MOVES }, None);
      p.e1(cfg, s, 2, 1, 2, LEAN, Wrap::Txn, any);
    }
    if t && wide {
      p.e1(cfg, s, 2, 2, 2, Alpha { update: false, data: false, ..Alpha::ALL }, Wrap::Txn, any);
      p.hist(cfg, s, 2, 1, 2, Moves { switch: true, serde: true, adopt: true, ..MOVES }, None);
    }
  }
}
fn main() {
  mc::cli::main(App { lookup: lookup, plan, bin: "/verif/zoo.sh" });
}
