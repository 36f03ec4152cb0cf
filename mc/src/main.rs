fn main() {
  mc::cli::main(mc::cli::App { lookup: mc::suites::core, plan: |p, prop| p.run(prop), bin: "/verif/mc/target/release/mc" });
}
