//! The native reader, the command, and builds of another kind.

use crate::engine::{Case, Prop, Report};
use crate::gen::{Gen, Rng};
use crate::obs::{self, GROUPS};
use crate::props::{borrowed, full, Swept, STANDIN};
use crate::table::*;
use crate::report::{dump_row, plain_text};
use crate::worker::{run_once, Worker};
use raw_cpuid::{cpuid, native_cpuid, CpuId, CpuIdReader, CpuIdReaderNative, CpuIdResult};
use std::cell::RefCell;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> { vec![native(), builds(), command()] }

// --- C25 -----------------------------------------------------------------------
pub fn real(l: u32, s: u32) -> Regs {
    let r = std::arch::x86_64::__cpuid_count(l, s);
    [r.eax, r.ebx, r.ecx, r.edx]
}
fn regs(r: CpuIdResult) -> Regs { [r.eax, r.ebx, r.ecx, r.edx] }

/// Keeps this thread on the core it is on: cores differ in what they answer.
fn stay() {
    thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    DONE.with(|d| if !d.replace(true) {
        unsafe {
            let cpu = libc::sched_getcpu();
            if cpu >= 0 {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpu as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
        }
    });
}

/// The cores this process may run on.
fn cores() -> &'static [usize] {
    static ALL: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| unsafe {
        // of the first thread: this one may have been told to stay already
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(libc::getpid(), std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return vec![]; }
        (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    })
}
/// Moves this thread to the n-th of them, and keeps it there.
fn move_to(n: u32) -> bool {
    let all = cores();
    if all.is_empty() { return false; }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(all[n as usize % all.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set) == 0
    }
}

/// What `f` yields between two equal readings of the truth.
fn steady<T, U: PartialEq>(truth: impl Fn() -> U, f: impl Fn() -> T) -> Option<(U, T)> {
    for _ in 0..20 {
        let a = truth();
        let x = f();
        if truth() == a { return Some((a, x)); }
    }
    None
}

fn native_check(c: &Case) -> Report {
    let mut rep = Report::default();
    stay();
    // One way of asking, and one handle, from core to core.
    if c.prog.len() % 3 == 2 { return moving_check(c); }
    for op in c.prog.chunks_exact(3) {
        let (how, l, s) = (op[0] % 11, op[1], op[2]);
        let (name, sub): (&str, u32) = match how {
            0 => ("cpuid!(leaf)", 0), 1 => ("cpuid!(leaf, sub)", s), 2 => ("cpuid_count", s), 3 => ("native reader, one argument", 0), 4 => ("native reader, two arguments", s),
            5 => ("cpuid!(leaf as u64)", 0), 6 => ("cpuid!(leaf as i32, sub as i32)", s), 7 => ("cpuid!(leaf, sub as u8)", s as u8 as u32), 9 => ("cpuid!(leaf, sub), each to be had once", s), 10 => ("cpuid!(leaf), to be had once", 0), _ => ("a copy of the native reader", s),
        };
        let ask = || match how {
            0 => cpuid!(l), 1 => cpuid!(l, s), 2 => native_cpuid::cpuid_count(l, s), 3 => CpuIdReaderNative.cpuid1(l), 4 => CpuIdReaderNative.cpuid2(l, s),
            5 => cpuid!(l as u64), 6 => cpuid!(l as i32, s as i32), 7 => cpuid!(l, s as u8), 9 => { let (mut a, mut b) = ([l].into_iter(), [s].into_iter()); cpuid!(a.next().unwrap_or(!l), b.next().unwrap_or(!s)) }
            10 => { let mut a = [l].into_iter(); cpuid!(a.next().unwrap_or(!l)) } _ => { let x = CpuIdReaderNative; let y = x; y.cpuid2(l, s) }
        };
        let Some((want, got)) = steady(|| real(l, sub), ask) else { continue };
        rep.compared += 1;
        if regs(got) != want && (0..3).all(|_| steady(|| real(l, sub), ask).map_or(true, |(w, g)| w != regs(g))) { rep.fail(name, format!("{} for leaf {:#x} sub-leaf {:#x}: {:x?}, the processor says {:x?}", name, l, s, regs(got), want)); }
        if want != [0; 4] { rep.nontrivial = true; }
    }
    if c.prog.len() % 3 == 1 {
        rep.nontrivial = true;
        let truth = || format!("{:?}", CpuId::with_cpuid_reader(|l, s| res(real(l, s))));
        let which = c.prog[c.prog.len() - 1] % 4;
        let got = steady(truth, || match which {
            0 => format!("{:?}", CpuId::new()),
            1 => format!("{:?}", CpuId::default()),
            2 => format!("{:?}", CpuId::with_cpuid_reader(CpuIdReaderNative)),
            #[allow(deprecated)]
            _ => format!("{:?}", CpuId::with_cpuid_fn(native_cpuid::cpuid_count)),
        });
        if let Some((want, got)) = got {
            rep.compared += 1;
            if want != got && truth() == want {
                let at = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                let cut = |s: &str| s.get(at.saturating_sub(60)..(at + 60).min(s.len())).unwrap_or("").to_string();
                rep.fail("handle", format!("handle {} prints ..{}.., reading the processor otherwise gives ..{}..", which, cut(&got), cut(&want)));
            }
        }
    }
    rep
}

/// Answers are of the core asked on, whatever core was asked before.
fn moving_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let (l, s) = (c.prog[0], c.prog[1]);
    let ids = [CpuId::new(), CpuId::default()];
    let mut seen: Option<Regs> = None;
    for (k, op) in c.prog[2..].iter().enumerate() {
        if !move_to(*op) { return rep; }
        let ask = || [cpuid!(l, s), native_cpuid::cpuid_count(l, s), CpuIdReaderNative.cpuid2(l, s)].map(regs);
        if let Some((want, got)) = steady(|| real(l, s), ask) {
            rep.compared += 3;
            if seen.is_some_and(|x| x != want) { rep.nontrivial = true; rep.tags.push("cores that differ"); }
            seen = Some(want);
            if got.iter().any(|g| *g != want) && (0..3).all(|_| steady(|| real(l, s), ask).map_or(true, |(w, g)| g.iter().any(|g| *g != w))) {
                rep.fail("moved", format!("leaf {:#x} sub-leaf {:#x} after {} moves between cores: {:x?}, the processor says {:x?}", l, s, k + 1, got, want));
                return rep;
            }
        }
        let truth = || { let id = CpuId::with_cpuid_reader(|l, s| res(real(l, s))); format!("{:?} {:?}", id.get_feature_info(), id.get_extended_topology_info()) };
        let ask = || format!("{:?} {:?}", ids[k % 2].get_feature_info(), ids[k % 2].get_extended_topology_info());
        if let Some((want, got)) = steady(truth, ask) {
            rep.compared += 1;
            if want != got && (0..3).all(|_| steady(truth, ask).map_or(true, |(w, g)| w != g)) { rep.fail("handle moved", format!("after {} moves between cores a handle answers {} instead of {}", k + 1, crate::iters::clip(&got), crate::iters::clip(&want))); return rep; }
        }
    }
    rep
}

fn native() -> Prop {
    Prop {
        id: "C25",
        rule: "each leaf up to 0x40 of each range with sub-leaves 0 to 3 in each of eleven ways of asking, then random leaf and sub-leaf numbers and whole handles, on a thread that stays on its core, and histories of moves from core to core, each reading between two equal readings by the compiler's intrinsic. Non-trivial: the processor's answer is not all zero",
        assumptions: &["the compiler's own CPUID intrinsic is right", "the processor at hand answers the same question the same way twice in a row"],
        sweep_len: Box::new(|_, _| 4 * 0x40 * 4),
        sweep: Box::new(|_, _, k, _| {
            let l = [0u32, 0x4000_0000, 0x8000_0000, 0x2000_0000][(k % 4) as usize] + (k / 4 % 0x40) as u32;
            let s = (k / 256) as u32;
            let mut prog: Vec<u32> = (0..11).flat_map(|h| [h, l, s]).collect();
            if k % 16 == 0 { prog.push(k as u32 / 16); }
            Case { prog, ..Case::default() }
        }),
        random: (6_000, 400_000),
        gen: Box::new(|g, r| {
            let mut prog = vec![];
            if r.one_in(12) {
                // the leaves that differ from core to core, and some others
                let l = match r.below(4) { 0 => *r.pick(&[1, 0xb, 0x1f, 0x8000_001e, 2, 4, 0x1a]), 1 => r.below(0x20), 2 => 0x8000_0000 + r.below(0x27), _ => *r.pick(&[1, 0xb]) };
                return Case { prog: vec![l, r.below(3), r.u32(), r.u32(), r.u32()], ..Case::default() };
            }
            for _ in 0..6 {
                let l = match r.below(6) { 0 => r.below(0x40), 1 => 0x8000_0000 + r.below(0x30), 2 => 0x4000_0000 + r.below(0x20), 3 => g.reg(r), _ => *r.pick(&[4, 7, 0xb, 0xd, 0xf, 0x10, 0x12, 0x14, 0x17, 0x18, 0x1f, 0x8000_001d, 0x8000_0020, 0x8000_0026]) };
                let s = match r.below(4) { 0 => 0, 1 => r.below(70), 2 => g.reg(r), _ => r.below(5) };
                prog.extend([r.below(11), l, s]);
            }
            if r.one_in(60) { prog.push(r.below(4)); }
            Case { prog, ..Case::default() }
        }),
        check: Box::new(native_check),
        single: false,
    }
}

// --- C26 -----------------------------------------------------------------------
thread_local! { static PLAIN: RefCell<[Option<Worker>; 3]> = const { RefCell::new([None, None, None]) }; }
const BUILDS: [&str; 3] = ["no features, optimised, unchecked", "serialize alone, not optimised, checked", "std alone, optimised for size, checked"];

fn plain_exe(k: usize) -> PathBuf {
    let here = std::env::current_exe().expect("exe");
    match k { 0 => here.with_file_name("plainobs"), k => here.with_file_name("..").join("kinds").join(["", "slow", "small"][k]).join("plainobs") }
}

fn builds_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let msg = serde_json::json!({ "processor": c.t.to_json(), "groups": c.groups }).to_string();
    let here = obs::dump(&c.t, &c.groups);
    for k in 0..3 {
        // the slow one, and the other, take turns
        if k > 0 && c.hash64() % 4 != k as u64 { continue; }
        let exe = plain_exe(k);
        if !exe.exists() { rep.fail("build", format!("the library does not build with {}", BUILDS[k])); return rep; }
        let (out, how) = PLAIN.with(|w| {
            let w = &mut w.borrow_mut()[k];
            let r = w.get_or_insert_with(|| Worker::start(&exe, &[], false)).ask(&msg);
            if r.1.is_err() { *w = None; }
            r
        });
        if let Err(e) = how { rep.fail("death", format!("{}: {}", BUILDS[k], e)); return rep; }
        compare_builds(&mut rep, &here, &out, BUILDS[k]);
        if !rep.fails.is_empty() { return rep; }
    }
    rep
}

fn compare_builds(rep: &mut Report, here: &str, out: &str, which: &str) {
    let (mut a, mut b) = (here.trim_end().lines(), out.trim_end().lines());
    loop {
        match (a.next(), b.next()) {
            (None, None) => break,
            (x, y) if x == y => { rep.compared += 1; if x.unwrap_or("").ends_with("present = B(true)") { rep.nontrivial = true; } }
            (x, y) => {
                let kind = x.or(y).unwrap_or("").split(" = ").next().unwrap_or("").to_string();
                let cut = |s: Option<&str>| s.unwrap_or("nothing").chars().take(400).collect::<String>();
                rep.fail(kind, format!("with features and checks: {}; {}: {}", cut(x), which, cut(y)));
                break;
            }
        }
    }
}

fn builds() -> Prop {
    let sw = Swept::new(GROUPS);
    Prop {
        id: "C26",
        rule: "each structure alone on four vendors with empty, full and random contents, then systematic cases of the other properties and random processors; a child built without features, fully optimised and unchecked, answers everything, and one of two others (serialisation alone, not optimised; std alone, optimised for size) every second case; their answers and texts are compared with the harness's own. Non-trivial: a structure is present",
        assumptions: &[STANDIN, "four builds stand for all: all features with overflow checks, none without, serialisation alone not optimised, std alone optimised for size"],
        sweep_len: Box::new(|_, th| GROUPS.len() as u64 * 4 * 16 * if th { 16 } else { 1 }),
        sweep: Box::new(|g: &Gen, r: &mut Rng, k, _| {
            let grp = GROUPS[(k % GROUPS.len() as u64) as usize];
            let k = k / GROUPS.len() as u64;
            Case { t: full(g, r, (k % 4) as u32, &[grp], k / 4 % 16), groups: vec![grp], ..Case::default() }
        }),
        random: (60_000, 2_000_000),
        gen: Box::new(move |g, r| {
            if r.one_in(2) { return borrowed(&sw, g, r); }
            let groups = if r.one_in(4) { GROUPS.to_vec() } else { GROUPS.iter().filter(|_| r.one_in(8)).cloned().collect() };
            Case { t: g.table(r, &groups), groups, ..Case::default() }
        }),
        check: Box::new(builds_check),
        single: false,
    }
}

// --- C27 -----------------------------------------------------------------------
thread_local! { static NATIVE: RefCell<[Option<Worker>; 2]> = const { RefCell::new([None, None]) }; }

/// The word given as a format, and the way it is given: 0 none at all, then -f W, -fW, --format W, --format=W.
fn command_line(prog: &[u32]) -> (Vec<String>, String) {
    let how = prog.first().cloned().unwrap_or(0) % 5;
    let word: String = prog.iter().skip(2).map(|c| char::from_u32(*c & 0x7f).filter(|c| !c.is_control()).unwrap_or('x')).collect();
    let args = match how { 0 => vec![], 1 => vec!["-f".into(), word.clone()], 2 => vec![format!("-f{}", word)], 3 => vec!["--format".into(), word.clone()], _ => vec![format!("--format={}", word)] };
    (args, if how == 0 { "cli".into() } else { word })
}

/// A failure counts when it shows again: the processor at hand is not ours alone.
fn command_check(c: &Case) -> Report {
    let first = command_once(c);
    if first.fails.is_empty() || command_once(c).fails.is_empty() { Report { fails: vec![], ..first } } else { first }
}

fn command_once(c: &Case) -> Report {
    let mut rep = Report::default();
    stay();
    let exe = std::env::current_exe().expect("exe").parent().and_then(|p| p.parent()).expect("target").join("cli/release/cpuid");
    let (args, word) = command_line(&c.prog);
    let tty = c.prog.get(1).cloned().unwrap_or(0) % 2 == 1;
    match word.as_str() {
        "raw" => {
            rep.nontrivial = true;
            // Answers that change from one reading to the next are left out.
            let (before, (out, code)) = (answers_now(), run_once(&exe, &args, tty));
            let after = answers_now();
            if code != Some(0) { rep.fail("exit", format!("cpuid {:?} ends with {:?}", args, code)); }
            let rows: std::collections::BTreeMap<(u32, u32), Regs> = plain_text(&out).lines().filter_map(dump_row).collect();
            for (k, v) in &before {
                if after.get(k) != Some(v) { continue; }
                rep.compared += 1;
                if rows.get(k) != Some(v) { rep.fail("raw", format!("cpuid {:?} shows leaf {:#x} as {:x?}, the processor says {:x?}", args, k.0, rows.get(k), v)); }
            }
        }
        "cli" => {
            rep.nontrivial = true;
            // The report is laid out for what it is printed on.
            let own = || NATIVE.with(|w| { let mut w = w.borrow_mut(); let (text, how) = w[tty as usize].get_or_insert_with(|| Worker::own("native", tty)).ask(&Table::default().to_json().to_string());
                how.expect("the report");
                assert!(text.contains("CpuId"), "no report");
                plain_text(&text).trim().to_string()
            });
            let Some((want, (out, code))) = steady(own, || run_once(&exe, &args, tty)) else { return rep };
            if code != Some(0) { rep.fail("exit", format!("cpuid {:?} ends with {:?}", args, code)); }
            let got = plain_text(&out);
            let got: Vec<&str> = got.trim().lines().collect();
            if got.len() > want.lines().count() { rep.fail("cli", format!("cpuid {:?} prints {} lines, the report has {}", args, got.len(), want.lines().count())); }
            for (i, (a, b)) in want.lines().zip(got.into_iter().chain(std::iter::repeat("nothing"))).enumerate() {
                rep.compared += 1;
                if a.trim_end() != b.trim_end() { rep.fail("cli", format!("cpuid {:?}, line {}: {:?}, the report is {:?}", args, i + 1, b.trim(), a.trim())); break; }
            }
        }
        _ => {
            let (out, code) = run_once(&exe, &args, tty);
            rep.compared += 1;
            if code == Some(0) || code.is_none() { rep.fail("accepted", format!("cpuid {:?} ends with {:?}", args, code)); }
            if plain_text(&out).lines().any(|l| dump_row(l).is_some()) || out.contains("Vendor") { rep.fail("printed", format!("cpuid {:?} prints although it knows no such format", args)); }
        }
    }
    rep
}

fn answers_now() -> std::collections::BTreeMap<(u32, u32), Regs> {
    let mut m = std::collections::BTreeMap::new();
    for base in [0u32, 0x4000_0000, 0x8000_0000] {
        let max = real(base, 0)[EAX];
        if base == 0x4000_0000 && real(1, 0)[ECX] >> 31 == 0 { continue; }
        if max < base || max - base > 4096 { continue; }
        for l in base..=max { m.insert((l, 0), real(l, 0)); }
    }
    m
}

fn command() -> Prop {
    let line = |how: u32, tty: u32, w: &str| Case { prog: [how, tty].into_iter().chain(w.bytes().map(|b| b as u32)).collect(), ..Case::default() };
    Prop {
        id: "C27",
        rule: "the command is run with no format and with each format given in four ways, on a terminal and into a pipe, then with words that are no format, one edit away from one or random; what it prints is compared with the processor's registers (raw) or with the report made from them by the library function (cli). Non-trivial: the format is a known one",
        assumptions: &["the compiler's own CPUID intrinsic is right", "what the processor answers twice in a row it answers in between"],
        sweep_len: Box::new(|_, _| 5 * 2 * 8),
        sweep: Box::new(move |_, _, k, _| line((k / 16) as u32, (k / 8 % 2) as u32, ["raw", "cli", "raw", "cli", "", "RAW", "Cli", "markdown"][(k % 8) as usize])),
        random: (2_500, 100_000),
        gen: Box::new(move |_, r| {
            let (how, tty) = (1 + r.below(4), r.below(2));
            let mut w: Vec<u8> = match r.below(4) { 0 => b"raw".to_vec(), 1 => b"cli".to_vec(), 2 => r.pick(&["markdown", "json", "text", "Raw", "CLI", "default", "rawcli", "0", "1"]).bytes().collect(), _ => (0..r.below(8)).map(|_| b'!' + r.below(94) as u8).collect() };
            match r.below(5) { 0 => w.push(b'a' + r.below(26) as u8), 1 => { w.pop(); } 2 => if let Some(p) = (!w.is_empty()).then(|| r.below(w.len() as u32) as usize) { w[p] ^= 1 << r.below(6); if w[p] < b' ' || w[p] > b'~' { w[p] = b'z'; } }, _ => {} }
            // "-f=raw" is another way to say "-fraw"; words that look like options are their own affair
            while matches!(w.first(), Some(b'=' | b'-')) { w.remove(0); }
            line(how, tty, &String::from_utf8(w).unwrap_or_default())
        }),
        check: Box::new(command_check),
        single: false,
    }
}
