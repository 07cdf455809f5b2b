extern crate alloc;

mod answers;
mod elsewhere;
mod engine;
mod equal;
mod fresh;
mod gen;
mod model;
mod names;
mod narrow;
mod obs;
mod props;
mod props2;
mod props3;
mod iters;
mod report;
mod sections;
mod sound;
mod spec;
mod table;
mod threads;
mod worker;

use std::collections::{BTreeMap, BTreeSet};

/// Lines "property=C16 finding=<name> ..." are findings; "fixed: ..." lines and the rest are for people.
fn known_findings(out: &str) -> BTreeMap<String, BTreeSet<String>> {
    let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for line in std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", out)).unwrap_or_default().lines() {
        if !line.starts_with("property=") { continue; }
        let mut w = line.split_whitespace();
        let (p, f) = (w.next(), w.next());
        if let (Some(p), Some(f)) = (p.and_then(|p| p.strip_prefix("property=")), f.and_then(|f| f.strip_prefix("finding="))) {
            m.entry(p.into()).or_default().insert(f.into());
        }
    }
    m
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| d.to_string());
    let out = env("VERIF_DIR", "/verif");
    obs::install_panic_hook();
    let mk = |id: &str, tier: String| engine::Run {
        id: id.to_string(), tier, seed: env("VERIF_SEED", "1").parse().unwrap_or(1), known: known_findings(&out), out: out.clone(),
        scale: env("VERIF_SCALE", "1").parse().unwrap_or(1.0),
    };
    let props = props::props();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) });
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        [cmd @ ("check" | "check-child"), id, ref rest @ ..] => {
            let tier = rest.first().map(|s| s.to_string()).unwrap_or_else(|| env("VERIF_TIER", "quick"));
            let g = gen::Gen::new(&env("VERIF_SRC", "/repo/src"));
            if cmd == "check" { engine::supervise(find(id), &g, &mk(id, tier)) } else { engine::run(find(id), &g, &mk(id, tier)) }
        }
        ["check-one", id, tier, idx] => {
            let g = gen::Gen::new(&env("VERIF_SRC", "/repo/src"));
            let p = find(id);
            let n = (p.sweep_len)(&g, tier == "thorough");
            let case = engine::make_case(p, &g, mk(id, tier.into()).seed, idx.parse().expect("index"), n, tier == "thorough");
            engine::on_thread(|| engine::judge(p, &case));
            0
        }
        ["replay", id, file] => engine::replay(find(id), &mk(id, "quick".into()), file),
        ["replay-child", id, file] => engine::replay_child(find(id), file),
        ["worker", kind] => worker::serve(kind),
        ["list"] => { for p in &props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: check ID [quick|thorough] | replay ID FILE | list"); 2 }
    };
    std::process::exit(code);
}
