//! Processors that are no x86 ones: programs there read the registers of another machine (through a device, or from a
//! file). An interpreter plays such processors, of both byte orders and widths.

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, Gen, Rng};
use crate::narrow::{compare, message};
use crate::obs::{self, GROUPS};
use crate::props::{borrowed, extra_fields, full, Swept, STANDIN};
use crate::sound::{text_case, TEXTS};
use crate::table::*;
use crate::worker::Worker;
use std::cell::RefCell;

pub fn props() -> Vec<Prop> { vec![elsewhere()] }

/// The target, and what it is.
pub const TARGETS: [(&str, &str); 3] = [
    ("s390x-unknown-linux-gnu", "on a 64-bit big-endian processor"),
    ("powerpc-unknown-linux-gnu", "on a 32-bit big-endian processor"),
    ("aarch64-unknown-linux-gnu", "on a 64-bit little-endian processor that is no x86"),
];

const LONG: usize = 9_000;

thread_local! { static PLAYED: RefCell<[Option<Worker>; 3]> = const { RefCell::new([None, None, None]) }; }

fn start(k: usize) -> Worker {
    let exe = std::env::current_exe().expect("exe");
    let target = exe.parent().and_then(|p| p.parent()).expect("target").join("elsewhere").join(TARGETS[k].0);
    let manifest = concat!(env!("CARGO_MANIFEST_DIR"), "/../elsewhere/Cargo.toml");
    Worker::with("cargo", &["+nightly", "miri", "run", "--manifest-path", manifest, "--target", TARGETS[k].0, "--offline", "--locked", "-q"], false, |c| {
        c.env("CARGO_TARGET_DIR", &target).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation").env_remove("RUSTFLAGS");
        if std::env::var_os("VERIF_MIRI_LOUD").is_none() { c.stderr(std::process::Stdio::null()); }
    })
}

fn ask(k: usize, msg: &[u8]) -> (String, Result<(), String>) {
    let once = || PLAYED.with(|w| {
        let w = &mut w.borrow_mut()[k];
        let r = w.get_or_insert_with(|| start(k)).ask_bytes(msg);
        if r.1.is_err() { *w = None; }
        r
    });
    let r = once();
    // An interpreter may have been ended for other reasons.
    if r.1.is_err() { once() } else { r }
}

fn finish(mut t: Table, grp: &'static str, k: u64) -> Case {
    bound(&mut t);
    Case { t, groups: vec![grp], prog: if k % 16 == 0 { vec![(k / 16 % 3) as u32, 3] } else { vec![(k % 3) as u32] }, ..Case::default() }
}

const LISTS: [&str; 8] = ["cache_params", "topology", "topology_v2", "ext_cpu_topo", "sgx", "dat", "soc", "xsave"];

/// A processor with a list of a few items, any registers otherwise.
fn brief(g: &Gen, r: &mut Rng, grp: &'static str) -> Table {
    let vendor = if grp == "ext_cpu_topo" { 1 } else { r.below(4) };
    let mut t = full(g, r, vendor, &[grp], 2);
    let n = r.range(1, 3);
    let mut rows = |t: &mut Table, leaf: u32, from: u32, reg: usize, mask: u32, value: &dyn Fn(u32) -> u32| for k in 0..=n {
        let mut w = [0; 4].map(|_| if r.one_in(3) { g.reg(r) } else { r.u32() });
        // the last one ends the list
        w[reg] = w[reg] & !mask | if k < n { value(k) & mask } else { 0 };
        t.set(leaf, from + k, w);
    };
    match grp {
        "cache_params" => for leaf in [4, 0x8000_001d] { rows(&mut t, leaf, 0, EAX, 0x1f, &|k| 1 + k % 3) },
        "topology" | "topology_v2" | "ext_cpu_topo" => { let leaf = match grp { "topology" => 0xb, "topology_v2" => 0x1f, _ => 0x8000_0026 }; rows(&mut t, leaf, 0, ECX, 0xff00, &|k| (k + 1) << 8); t.set(leaf, n, [0; 4]) }
        "sgx" => { t.set_reg(7, 0, EBX, 4); rows(&mut t, 0x12, 2, EAX, 0xf, &|_| 1); *t.reg_mut(0x12, 0, EAX) |= 1; }
        "dat" => { rows(&mut t, 0x18, 0, EDX, 0x1f, &|k| 1 + k); t.set_reg(0x18, 0, EAX, n); }
        "soc" => { rows(&mut t, 0x17, 4, EAX, 0, &|_| 0); t.set_reg(0x17, 0, EAX, 3 + n); }
        _ => { rows(&mut t, 0xd, 2, ECX, 0, &|_| 0); t.set_reg(0xd, 0, EAX, 3 | (4 << n) - 4); for reg in [ECX, EDX] { t.set_reg(0xd, 1, reg, 0); } }
    }
    t
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    // the text of everything takes longest
    let all = c.prog.len() != 1;
    let here = obs::dump_of(&c.t, &c.groups, all);
    // What is long here would be far longer there.
    if here.contains(FUEL_MSG) || here.len() > LONG { rep.tags.push("long, left out"); return rep; }
    let msg = message(&format!("{} {}", if all { "all" } else { "-" }, c.groups.join(" ")), c.t.noise, c.t.m.iter().map(|((l, s), r)| [*l, *s, r[0], r[1], r[2], r[3]]));
    for k in 0..3 {
        if !c.prog.is_empty() && !c.prog.contains(&(k as u32)) { continue; }
        let (out, how) = ask(k, &msg);
        rep.tags.push(TARGETS[k].1);
        if let Err(e) = how { rep.fail("death", format!("{}: {}", TARGETS[k].1, e)); return rep; }
        compare(&mut rep, &here, &out, "here", TARGETS[k].1);
    }
    rep
}

fn elsewhere() -> Prop {
    let sw = Swept::new(GROUPS);
    let fields: Vec<_> = GROUPS.iter().flat_map(|g| extra_fields(g)).filter(|(.., lo, hi)| hi - lo >= 8).flat_map(|f| {
        let max = u32::MAX >> (31 - (f.5 - f.4));
        [max / 2 + 1, max - 1].into_iter().map(move |v| (f, v))
    }).collect();
    let (nf, ng, nt, nl) = (fields.len() as u64, GROUPS.len() as u64 * 4 * 2, 3 * 3 * 8, 8 * 3 * 4);
    Prop {
        id: "C34",
        rule: "an interpreter plays three processors that are no x86 ones (two big-endian, one of them 32 bits wide, and one little-endian); the library there answers everything about: each structure alone on four vendors, texts of several kinds, short lists, wide fields whose bytes differ, systematic cases of the other properties, random processors; compared with this process's own answers and texts. Non-trivial: a structure is present",
        assumptions: &[STANDIN, "three targets stand for all", "the interpreter (Miri) plays them truly"],
        sweep_len: Box::new(move |_, th| ng * if th { 6 } else { 1 } + nf + nt + nl),
        sweep: Box::new(move |g: &Gen, r: &mut Rng, k, _| {
            if k < nt { let mut c = text_case(g, r, TEXTS[(k / 3 % 3) as usize]); c.prog = vec![(k % 3) as u32]; return c; }
            let k = k - nt;
            if k < nl { let grp = LISTS[(k / 3 % 8) as usize]; return finish(brief(g, r, grp), grp, k); }
            let k = k - nl;
            if k < nf {
                let ((grp, l, s, reg, lo, hi), v) = fields[k as usize];
                let vendor = if l >= 0x8000_0000 { r.range(1, 2) } else { r.below(4) };
                let mut t = full(g, r, vendor, &[grp], 2);
                let m = (u32::MAX >> (31 - (hi - lo))) << lo;
                let cur = t.get(l, s)[reg];
                t.set_reg(l, s, reg, cur & !m | v << lo);
                return finish(t, grp, k);
            }
            let k = k - nf;
            let grp = GROUPS[(k / 8 % GROUPS.len() as u64) as usize];
            finish(full(g, r, (k / 2 % 4) as u32, &[grp], k / 8 / GROUPS.len() as u64 + k % 2), grp, r.below(48).into())
        }),
        random: (900, 20_000),
        gen: Box::new(move |g, r| {
            let k = r.below(3);
            if r.one_in(5) { let grp = *r.pick(&TEXTS); let mut c = text_case(g, r, grp); c.prog = vec![k]; return c; }
            if r.one_in(6) { let grp = *r.pick(&LISTS); let t = brief(g, r, grp); return finish(t, grp, r.below(48).into()); }
            if r.one_in(2) { let mut c = borrowed(&sw, g, r); c.prog = vec![k]; return c; }
            let n = r.range(1, 3);
            let mut groups: Vec<&'static str> = (0..n).map(|_| *r.pick(GROUPS)).collect();
            groups.dedup();
            let mut t = g.table(r, &groups);
            bound(&mut t);
            Case { t, groups, prog: if r.one_in(8) { vec![k, 3] } else { vec![k] }, ..Case::default() }
        }),
        check: Box::new(check),
        single: false,
    }
}
