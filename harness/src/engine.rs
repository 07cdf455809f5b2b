//! Runs a property over generated cases, shrinks what fails, writes replay and evidence files.

use crate::gen::{Gen, Rng};
use crate::obs::GROUPS;
use crate::table::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A generated input: a processor, what to ask it, and numbers a property may use in its own way
/// (a history of operations, say).
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub t: Table,
    /// A second processor state, for properties that relate two.
    pub t2: Option<Table>,
    pub groups: Vec<&'static str>,
    pub prog: Vec<u32>,
}

impl Case {
    pub fn hash64(&self) -> u64 {
        let mut h = self.t.hash64();
        if let Some(t2) = &self.t2 { h = mix(h ^ t2.hash64().rotate_left(17)); }
        for g in &self.groups { h = mix(h ^ GROUPS.iter().position(|x| x == g).unwrap_or(99) as u64); }
        for p in &self.prog { h = mix(h ^ *p as u64); }
        h
    }
    pub fn to_json(&self) -> Value {
        let groups: Vec<&str> = if self.groups.len() == GROUPS.len() { vec!["*"] } else { self.groups.clone() };
        json!({ "processor": self.t.to_json(), "processor2": self.t2.as_ref().map(|t| t.to_json()), "groups": groups, "prog": self.prog })
    }
    pub fn from_json(v: &Value) -> Option<Case> {
        let t = Table::from_json(v.get("processor")?)?;
        let t2 = v.get("processor2").filter(|x| !x.is_null()).and_then(Table::from_json);
        let names: Vec<&str> = v.get("groups")?.as_array()?.iter().filter_map(|x| x.as_str()).collect();
        let groups = GROUPS.iter().filter(|g| names == ["*"] || names.contains(*g)).cloned().collect();
        let prog = v.get("prog")?.as_array()?.iter().filter_map(|x| x.as_u64()).map(|x| x as u32).collect();
        Some(Case { t, t2, groups, prog })
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// What kind of failure, without figures: the shrinker keeps to one kind.
    pub kind: String,
    pub detail: String,
    /// The recorded finding this is an instance of.
    pub known: Option<&'static str>,
}

#[derive(Default)]
pub struct Report {
    pub fails: Vec<Fail>,
    pub nontrivial: bool,
    /// How many single answers were compared with the oracle.
    pub compared: u64,
    /// Classes this case belongs to, counted in the evidence.
    pub tags: Vec<&'static str>,
}
impl Report {
    pub fn fail(&mut self, kind: impl Into<String>, detail: impl Into<String>) {
        self.fails.push(Fail { kind: kind.into(), detail: detail.into(), known: None });
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Systematic cases: how many there are, and the k-th.
    pub sweep_len: Box<dyn Fn(&Gen, bool) -> u64 + Sync + Send>,
    pub sweep: Box<dyn Fn(&Gen, &mut Rng, u64, bool) -> Case + Sync + Send>,
    /// Random cases: how many (quick, thorough), and the making of one.
    pub random: (u64, u64),
    pub gen: Box<dyn Fn(&Gen, &mut Rng) -> Case + Sync + Send>,
    pub check: Box<dyn Fn(&Case) -> Report + Sync + Send>,
    /// Cases capture this process's standard output, or depend on its affinity: one at a time.
    pub single: bool,
}

pub struct Run { pub id: String, pub tier: String, pub seed: u64, pub known: BTreeMap<String, BTreeSet<String>>, pub out: String, pub scale: f64 }

const HANG: u64 = 200;
/// What a thread has by default; deaths are tried again with the same.
pub const STACK: usize = 2 << 20;

/// The check of a case in a process of its own, which it may bring down.
fn judge_apart(id: &str, c: &Case) -> Report {
    use std::os::unix::process::CommandExt;
    let file = std::env::temp_dir().join(format!("cpuidcheck-case-{}-{}", id, std::process::id()));
    let _ = std::fs::write(&file, json!({ "case": c.to_json() }).to_string());
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("exe"));
    cmd.args(["replay-child", id]).arg(&file).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe { cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    let st = cmd.status();
    let _ = std::fs::remove_file(&file);
    let mut r = Report::default();
    if let Ok(st) = st { if st.code().is_none() { r.fail("death", format!("the process died: {}", st)); } }
    r
}

/// Runs `f` on a thread with the stack the checking threads have.
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("thread").join().expect("join"))
}

#[derive(Default)]
struct Tally { evals: u64, nontrivial: u64, distinct: HashSet<u64>, compared: u64, tags: BTreeMap<&'static str, u64>, samples: Vec<(u64, Value)>, known: BTreeMap<&'static str, (u64, String)>, first: Option<(u64, Case)> }

pub fn make_case(p: &Prop, g: &Gen, seed: u64, idx: u64, sweep_n: u64, thorough: bool) -> Case {
    // The same index means the same case, whoever runs it.
    let salt = p.id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = Rng::new(mix(seed) ^ mix(salt ^ 0x51ab) ^ mix(idx.wrapping_mul(0x9E37_79B9)));
    if idx < sweep_n { (p.sweep)(g, &mut r, idx, thorough) } else { (p.gen)(g, &mut r) }
}

fn unlisted(rep: &Report, run: &Run) -> Option<Fail> {
    let listed = run.known.get(&run.id);
    rep.fails.iter().find(|f| match f.known { Some(k) => !listed.map(|l| l.contains(k)).unwrap_or(false), None => true }).cloned()
}

/// The check of one case; a panic nobody expected is a failure like another.
pub fn judge(p: &Prop, c: &Case) -> Report {
    match crate::obs::caught(|| (p.check)(c)) {
        Ok(r) => r,
        Err(e) => { let mut r = Report::default(); r.fail("panic", format!("panicked: {}", e)); r }
    }
}

/// Runs the check in a child: what kills the process (an overflowing stack, say) is to be a failing case as well.
pub fn supervise(p: &Prop, g: &Gen, run: &Run) -> i32 {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("exe");
    let progress = std::env::temp_dir().join(format!("cpuidcheck-{}-{}", run.id, std::process::id()));
    let spawn = |args: &[&str]| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("VERIF_PROGRESS", &progress);
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); let l = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 }; libc::setrlimit(libc::RLIMIT_AS, &l); Ok(()) }); }
        c.status()
    };
    let code = spawn(&["check-child", &run.id, &run.tier]).ok().and_then(|s| s.code());
    let places = std::fs::read(&progress).unwrap_or_default();
    let code = code.unwrap_or_else(|| {
        let thorough = run.tier == "thorough";
        let sweep_n = (p.sweep_len)(g, thorough);
        for w in places.chunks_exact(8) {
            let idx = u64::from_le_bytes(w.try_into().unwrap());
            if idx == 0 { continue; }
            let st = spawn(&["check-one", &run.id, &run.tier, &(idx - 1).to_string()]);
            if let Ok(st) = st {
                if st.code().is_none() {
                    let case = make_case(p, g, run.seed, idx - 1, sweep_n, thorough);
                    let (case, f) = shrink(&|c| judge_apart(&run.id, c), run, case);
                    let path = write_replay(run, &case, &f);
                    println!("{}: case {} (seed {}): {}", run.id, idx - 1, run.seed, f.detail);
                    println!("VIOLATION property={} replay={}", run.id, path);
                    return 1;
                }
            }
        }
        eprintln!("{}: the check died", run.id);
        2
    });
    let _ = std::fs::remove_file(&progress);
    code
}

pub fn run(p: &Prop, g: &Gen, run: &Run) -> i32 {
    use std::os::unix::fs::FileExt;
    let progress = std::env::var_os("VERIF_PROGRESS").and_then(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).ok());
    let t0 = Instant::now();
    let thorough = run.tier == "thorough";
    let sweep_n = (p.sweep_len)(g, thorough);
    let rand_n = ((if thorough { p.random.1 } else { p.random.0 }) as f64 * run.scale) as u64;
    let total = sweep_n + rand_n;
    let nthreads = if p.single { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let tallies: Mutex<Vec<Tally>> = Mutex::new(Vec::new());
    let worker = |me: usize| {
        let mut ta = Tally::default();
        'outer: loop {
            let chunk = next.fetch_add(64, Ordering::Relaxed);
            if chunk >= total || stop.load(Ordering::Relaxed) { break; }
            for idx in chunk..(chunk + 64).min(total) {
                let case = make_case(p, g, run.seed, idx, sweep_n, thorough);
                busy[me].1.store(idx, Ordering::Relaxed);
                busy[me].0.store(t0.elapsed().as_secs() + 1, Ordering::Release);
                if let Some(f) = &progress { let _ = f.write_at(&(idx + 1).to_le_bytes(), me as u64 * 8); }
                let rep = judge(p, &case);
                busy[me].0.store(0, Ordering::Release);
                ta.evals += 1;
                ta.compared += rep.compared;
                for t in &rep.tags { *ta.tags.entry(t).or_default() += 1; }
                if rep.nontrivial {
                    ta.nontrivial += 1;
                    if ta.distinct.insert(case.hash64()) && ta.samples.len() < 2 && (idx % 7 == 0 || idx >= sweep_n) { ta.samples.push((idx, case.to_json())); }
                }
                for f in &rep.fails {
                    if let Some(k) = f.known {
                        let e = ta.known.entry(k).or_insert((0, f.detail.clone()));
                        e.0 += 1;
                    }
                }
                if unlisted(&rep, run).is_some() {
                    ta.first = Some((idx, case));
                    stop.store(true, Ordering::Relaxed);
                    break 'outer;
                }
            }
        }
        tallies.lock().unwrap().push(ta);
    };
    let hung: Mutex<Option<u64>> = Mutex::new(None);
    std::thread::scope(|s| {
        let watch = s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_secs() + 1;
                for b in &busy {
                    let st = b.0.load(Ordering::Acquire);
                    if st != 0 && now > st + HANG {
                        let idx = b.1.load(Ordering::Relaxed);
                        *hung.lock().unwrap() = Some(idx);
                        let case = make_case(p, g, run.seed, idx, sweep_n, thorough);
                        let f = Fail { kind: "hang".into(), detail: format!("no answer within {} s", HANG), known: None };
                        let path = write_replay(run, &case, &f);
                        eprintln!("{}: {}", run.id, f.detail);
                        println!("VIOLATION property={} replay={}", run.id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..nthreads).map(|i| { let w = &worker; std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || w(i)).expect("thread") }).collect();
        for h in hs { h.join().expect("worker"); }
        done.store(true, Ordering::Relaxed);
        watch.join().unwrap();
    });
    let tallies = tallies.into_inner().unwrap();
    let mut all = Tally::default();
    for t in tallies {
        all.evals += t.evals; all.nontrivial += t.nontrivial; all.compared += t.compared;
        all.distinct.extend(t.distinct);
        for (k, v) in t.tags { *all.tags.entry(k).or_default() += v; }
        all.samples.extend(t.samples);
        for (k, v) in t.known { let e = all.known.entry(k).or_insert((0, v.1.clone())); e.0 += v.0; }
        if let Some((i, c)) = t.first { if all.first.as_ref().map(|f| i < f.0).unwrap_or(true) { all.first = Some((i, c)); } }
    }
    all.samples.sort_by_key(|s| s.0);
    let mut samples: Vec<Value> = Vec::new();
    if let Some(s) = all.samples.first() { samples.push(s.1.clone()); }
    if let Some(s) = all.samples.get(all.samples.len() / 2) { samples.push(s.1.clone()); }
    if let Some(s) = all.samples.last() { samples.push(s.1.clone()); }
    for (k, (n, d)) in &all.known {
        if run.known.get(&run.id).map(|l| l.contains(*k)).unwrap_or(false) {
            println!("KNOWN-FINDING: property={} {} ({} times in this run), e.g. {}", run.id, k, n, d);
        }
    }
    let mut violations = 0;
    if let Some((idx, case)) = all.first {
        violations = 1;
        let (small, f) = shrink(&|c| on_thread(|| judge(p, c)), run, case);
        let path = write_replay(run, &small, &f);
        println!("{}: case {} (seed {}): {}", run.id, idx, run.seed, f.detail);
        println!("shrunk case: {}", small.to_json());
        println!("VIOLATION property={} replay={}", run.id, path);
    }
    let ev = json!({
        "property": run.id, "tier": run.tier, "seed": run.seed, "level": "exploration",
        "coverage": {
            "evaluations": all.evals, "distinct_nontrivial": all.distinct.len(), "nontrivial": all.nontrivial,
            "systematic_cases": sweep_n.min(all.evals), "answers_compared": all.compared,
            "rule": p.rule, "classes": all.tags, "samples": samples,
            "known_finding_hits": all.known.iter().map(|(k, v)| (k.to_string(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = format!("{}/evidence", run.out);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, run.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!("{}: {} cases, {} distinct non-trivial, {} answers compared, {:.1} s: {}", run.id, all.evals, all.distinct.len(), all.compared,
        t0.elapsed().as_secs_f64(), if violations > 0 { "BROKEN" } else { "held" });
    if violations == 0 && all.distinct.len() < 20 {
        eprintln!("{}: only {} non-trivial cases: the generator has gone wrong", run.id, all.distinct.len());
        return 2;
    }
    violations
}

pub fn write_replay(run: &Run, case: &Case, f: &Fail) -> String {
    let dir = format!("{}/replays", run.out);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, run.id, case.hash64());
    let v = json!({ "property": run.id, "kind": f.kind, "detail": f.detail, "case": case.to_json() });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn read_case(file: &str) -> Option<Case> {
    std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).and_then(|v| Case::from_json(v.get("case")?))
}
pub fn replay_child(p: &Prop, file: &str) -> i32 {
    let Some(case) = read_case(file) else { return 2 };
    on_thread(|| judge(p, &case));
    0
}

pub fn replay(p: &Prop, run: &Run, file: &str) -> i32 {
    let Some(case) = read_case(file) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let mut rep = judge_apart(&run.id, &case);
    if rep.fails.is_empty() { rep = on_thread(|| judge(p, &case)); }
    for f in &rep.fails { println!("{}: {}", f.kind, f.detail); }
    if unlisted(&rep, run).is_some() { println!("VIOLATION property={} replay={}", run.id, file); 1 } else { println!("{}: held on {}", run.id, file); 0 }
}

/// Greedy: drop the noise, rows, parts of the programme; clear registers, then bits; as long as
/// the same kind of failure remains.
fn shrink(judge: &dyn Fn(&Case) -> Report, run: &Run, case: Case) -> (Case, Fail) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(40);
    // What depends on the timing of threads may take some tries.
    let mut rep = judge(&case);
    for _ in 0..20 { if unlisted(&rep, run).is_some() { break; } rep = judge(&case); }
    let Some(mut fail) = unlisted(&rep, run) else {
        return (case, Fail { kind: "flaky".into(), detail: "failed once, not again".into(), known: None });
    };
    let mut best = case;
    let kind = fail.kind.clone();
    let sane = |t: &Table| [0x17, 0x18].iter().all(|l| t.get(*l, 0)[EAX] <= crate::gen::MOST_SUBLEAVES);
    let attempt = |c: &Case, fail: &mut Fail| -> bool {
        if !sane(&c.t) || !c.t2.as_ref().map(sane).unwrap_or(true) { return false; }
        let rep = judge(c);
        let listed = run.known.get(&run.id);
        match rep.fails.iter().find(|f| f.kind == kind && f.known.map(|k| !listed.map(|l| l.contains(k)).unwrap_or(false)).unwrap_or(true)) {
            Some(f) => { *fail = f.clone(); true }
            None => false,
        }
    };
    loop {
        let mut changed = false;
        if best.t.noise.is_some() {
            let mut c = best.clone();
            c.t.noise = None;
            if attempt(&c, &mut fail) { best = c; changed = true; }
        }
        if t0.elapsed() < limit && best.groups.len() > 1 {
            let gs = best.groups.clone();
            for g in gs {
                let mut c = best.clone();
                c.groups = vec![g];
                if attempt(&c, &mut fail) { best = c; changed = true; break; }
            }
        }
        let mut k = 0;
        while k < best.prog.len() && t0.elapsed() < limit {
            let mut c = best.clone();
            c.prog.remove(k);
            if attempt(&c, &mut fail) { best = c; changed = true; } else { k += 1; }
        }
        for k in 0..best.prog.len() {
            if t0.elapsed() > limit { break; }
            for v in [0, best.prog[k] & 0xff, best.prog[k] / 2] {
                if v < best.prog[k] {
                    let mut c = best.clone();
                    c.prog[k] = v;
                    if attempt(&c, &mut fail) { best = c; changed = true; }
                }
            }
        }
        for second in [false, true] {
            if second && best.t2.is_none() { continue; }
            let keys: Vec<_> = if second { best.t2.as_ref().unwrap().m.keys().cloned().collect() } else { best.t.m.keys().cloned().collect() };
            for key in keys {
                if t0.elapsed() > limit { break; }
                let mut c = best.clone();
                if second { c.t2.as_mut().unwrap().m.remove(&key); } else { c.t.m.remove(&key); }
                if attempt(&c, &mut fail) { best = c; changed = true; continue; }
                for reg in 0..4 {
                    let cur = |b: &Case| if second { b.t2.as_ref().unwrap().get(key.0, key.1)[reg] } else { b.t.get(key.0, key.1)[reg] };
                    if cur(&best) == 0 { continue; }
                    let put = |b: &Case, v: u32| { let mut c = b.clone(); if second { c.t2.as_mut().unwrap().set_reg(key.0, key.1, reg, v); } else { c.t.set_reg(key.0, key.1, reg, v); } c };
                    let c = put(&best, 0);
                    if attempt(&c, &mut fail) { best = c; changed = true; continue; }
                    for b in (0..32).rev() {
                        let v = cur(&best);
                        if v >> b & 1 == 0 { continue; }
                        let c = put(&best, v & !(1 << b));
                        if attempt(&c, &mut fail) { best = c; changed = true; }
                    }
                }
            }
        }
        if !changed || t0.elapsed() > limit { return (best, fail); }
    }
}
