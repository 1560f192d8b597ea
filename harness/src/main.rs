mod aucpace;
mod base;
mod builds;
mod engine;
mod groups;
mod hasher;
mod intruder;
mod json;
mod life;
mod os;
mod prng;
mod report;
mod spake;
mod srp;
mod srpgroups;
mod strings;
mod system;
mod tape;
mod term;
mod total;
mod util;
mod wire;

fn main() {
    let a = util::Args::parse();
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if a.family == "alone" {
        return engine::Script::alone_here();
    }
    if a.family == "marathon" {
        return system::marathon_here(&a);
    }
    let mut rep = report::Report::default();
    let r = util::guard(|| match (a.family.as_str(), a.prop.as_str()) {
        ("intruder", _) => intruder::conformance(&a, &mut rep),
        ("spake", "S07") => groups::conformance(&a, &mut rep),
        ("spake", "S08") => spake::generic(&a, &mut rep),
        ("spake", _) => spake::conformance(&a, &mut rep),
        ("aucpace", _) => aucpace::conformance(&a, &mut rep),
        ("srp", _) => srp::conformance(&a, &mut rep),
        ("total", _) => total::conformance(&a, &mut rep),
        ("system", "X02") => builds::conformance(&a, &mut rep),
        ("system", _) => system::conformance(&a, &mut rep),
        x => panic!("unknown {x:?}"),
    });
    if r.is_none() {
        eprintln!("harness error (run with VH_PANICS=1 to see it)");
        std::process::exit(2);
    }
    let out = rep.json().text();
    match a.opt("out") {
        Some(f) => std::fs::write(f, out).unwrap(),
        None => println!("{out}"),
    }
}
