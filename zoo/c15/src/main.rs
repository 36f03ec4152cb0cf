use mc::cli::App;
use mc::engine::Sc;
use mc::enumr::*;
use mc::explore::*;

fn parts() -> Vec<(&'static [&'static str], fn(&str) -> Option<Sc>)> {
  vec![(c15_p0::ALL, c15_p0::lookup), (c15_p1::ALL, c15_p1::lookup), (c15_p2::ALL, c15_p2::lookup), (c15_p3::ALL, c15_p3::lookup), (c15_p4::ALL, c15_p4::lookup), (c15_p5::ALL, c15_p5::lookup), (c15_p6::ALL, c15_p6::lookup)]
}
fn lookup(name: &str) -> Sc {
  parts().iter().find_map(|p| (p.1)(name)).unwrap_or_else(|| panic!("unknown schema {}", name))
}
fn all() -> Vec<&'static str> {
  parts().iter().flat_map(|p| p.0.iter().copied()).collect()
}
fn plan(p: &mut Plan, prop: &str) {
  let cfg = cfg_of(prop).unwrap();
  for s in all() {
    p.e1(cfg, s, 2, 2, 1, Alpha::ALL, Wrap::Txn, any);
    p.e1(cfg, s, 1, 1, 2, Alpha { update: false, data: false, ..Alpha::ALL }, Wrap::Txn, any);
    p.e1(cfg, s, 3, 1, 1, LEAN, Wrap::Txn, any);
  }
}
fn main() {
  mc::cli::main(App { lookup: lookup, plan, bin: "/verif/zoo.sh" });
}
