//! No input leads the library to undefined behaviour. The interpreter, which keeps account of every byte that is
//! read and of what every value may be, runs the same questions as this process does.

#[path = "../../miri/src/look.rs"]
mod look;

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, rows_of, Gen, Rng};
use crate::obs::{caught, GROUPS};
use crate::props::{extra_fields, full, STANDIN};
use crate::table::*;
use crate::worker::Worker;
use raw_cpuid::CpuId;
use std::cell::RefCell;

const MOST: usize = 6;
pub const TEXTS: [&str; 3] = ["vendor", "brand", "soc"];

thread_local! { static INTERPRETER: RefCell<Option<Worker>> = const { RefCell::new(None) }; }

fn start() -> Worker {
    let exe = std::env::current_exe().expect("exe");
    let target = exe.parent().and_then(|p| p.parent()).expect("target").join("miri");
    let manifest = concat!(env!("CARGO_MANIFEST_DIR"), "/../miri/Cargo.toml");
    Worker::with("cargo", &["+nightly", "miri", "run", "--manifest-path", manifest, "--offline", "--locked", "-q"], false, |c| {
        c.env("CARGO_TARGET_DIR", &target).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks").env_remove("RUSTFLAGS");
        if std::env::var_os("VERIF_MIRI_LOUD").is_none() { c.stderr(std::process::Stdio::null()); }
    })
}

/// Where each row of a text lies.
fn text_rows(g: &str) -> Vec<(u32, u32)> {
    match g { "vendor" => vec![(0, 0)], "brand" => (2..5).map(|k| (0x8000_0000 + k, 0)).collect(), _ => (1..4).map(|s| (0x17, s)).collect() }
}

/// Registers of bytes of a few kinds, so that ends and breaks fall on every place.
fn rough_text(g: &Gen, r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => g.text_bytes(r, n),
        1 => vec![b'a' + r.below(26) as u8; n],
        2 => { let mut b = vec![b'x'; n]; for _ in 0..r.range(1, 3) { b[r.below(n as u32) as usize] = r.u32() as u8; } b }
        3 => { let at = r.below(n as u32 + 1) as usize; (0..n).map(|k| if k < at { b'q' } else { 0 }).collect() }
        4 => { let w: &[u8] = [&b"\xc3\xa9"[..], b"\xe2\x82\xac", b"\xf0\x9f\x98\x80"][r.below(3) as usize]; let off = r.below(4) as usize; (0..n).map(|k| if k < off { b'-' } else { w[(k - off) % w.len()] }).collect() }
        _ => (0..n).map(|_| r.u32() as u8).collect(),
    }
}

pub fn put(t: &mut Table, g: &str, b: &[u8]) {
    for (k, (l, s)) in text_rows(g).into_iter().enumerate() {
        for reg in 0..4 {
            if g == "vendor" {
                let at = match reg { EBX => 0, EDX => 4, ECX => 8, _ => continue };
                t.set_reg(l, s, reg, u32::from_le_bytes(b[at..at + 4].try_into().unwrap()));
            } else {
                let at = k * 16 + reg * 4;
                t.set_reg(l, s, reg, u32::from_le_bytes(b[at..at + 4].try_into().unwrap()));
            }
        }
    }
}

pub fn text_case(g: &Gen, r: &mut Rng, grp: &'static str) -> Case {
    let v = r.below(4);
    let mut t = full(g, r, v, &[grp], 2);
    let b = rough_text(g, r, if grp == "vendor" { 12 } else { 48 });
    put(&mut t, grp, &b);
    finish(t, grp)
}

fn finish(mut t: Table, grp: &'static str) -> Case {
    bound(&mut t);
    t.noise = None;
    Case { t, t2: None, groups: vec![grp], prog: vec![] }
}

pub fn props() -> Vec<Prop> { vec![sound()] }

fn sound() -> Prop {
    let fields: Vec<_> = GROUPS.iter().flat_map(|g| extra_fields(g)).filter(|(.., lo, hi)| hi - lo < 8).flat_map(|f| {
        let n = 1u32 << (f.5 - f.4 + 1);
        // every value of a narrow field, in a wider one those at the edges
        (0..n).filter(move |v| n <= 32 || *v < 10 || *v >= n - 2 || v.count_ones() == 1).map(move |v| (f, v))
    }).collect();
    // every place a text may end at
    let ends: Vec<(&'static str, usize, u8)> = TEXTS.iter().flat_map(|g| (0..=if *g == "vendor" { 12 } else { 48 }).flat_map(move |n| [0u8, 0xff].into_iter().map(move |b| (*g, n, b)))).collect();
    let (nf, ne) = (fields.len() as u64, ends.len() as u64);
    Prop {
        id: "C30",
        rule: "structures looked at (every text and item of one) in an interpreter that notices undefined behaviour: texts that end or break at each place, each value of narrow coded fields, then random texts and registers; what is seen there compared with what this process sees. Non-trivial: the structure is there, and has something to say",
        assumptions: &[STANDIN, "the interpreter (Miri) notices undefined behaviour where it comes to pass, on x86_64", "reading the processor itself is left out"],
        sweep_len: Box::new(move |_, _| nf + ne + GROUPS.len() as u64 * 2),
        sweep: Box::new(move |g, r, k, _| {
            if k < ne {
                let (grp, n, b) = ends[k as usize];
                let mut c = text_case(g, r, grp);
                let all = if grp == "vendor" { 12 } else { 48 };
                let bytes: Vec<u8> = (0..all).map(|i| if i == n { b } else { b'a' + (i % 26) as u8 }).collect();
                put(&mut c.t, grp, &bytes);
                c
            } else if k < ne + nf {
                let ((grp, l, s, reg, lo, hi), v) = fields[(k - ne) as usize];
                let amd = l >= 0x8000_0000;
                let vendor = if amd { r.range(1, 2) } else { r.below(4) };
                let mut t = full(g, r, vendor, &[grp], 2);
                let m = (u32::MAX >> (31 - (hi - lo))) << lo;
                let cur = t.get(l, s)[reg];
                t.set_reg(l, s, reg, cur & !m | v << lo);
                finish(t, grp)
            } else {
                let k = k - ne - nf;
                let grp = GROUPS[(k / 2) as usize];
                finish(full(g, r, [0, 1][(k % 2) as usize], &[grp], 1), grp)
            }
        }),
        random: (700, 20_000),
        gen: Box::new(|g: &Gen, r: &mut Rng| {
            if r.pct(60) { let grp = *r.pick(&TEXTS); return text_case(g, r, grp); }
            let grp = *r.pick(GROUPS);
            if r.one_in(3) { return finish(g.table(r, &[grp]), grp); }
            let v = r.below(4);
            let mut t = full(g, r, v, &[grp], 2);
            let rows = rows_of(grp);
            if !rows.is_empty() && r.one_in(2) { let (l, s) = *r.pick(&rows); if l != 0 && l != 0x8000_0000 { let w = r.u32(); t.set_reg(l, s, r.below(4) as usize, w); } }
            finish(t, grp)
        }),
        check: Box::new(check),
        single: false,
    }
}

fn message(c: &Case, grp: &str) -> Vec<u8> {
    let mut b = format!("{}\n", grp).into_bytes();
    for ((l, s), r) in &c.t.m { for w in [*l, *s, r[0], r[1], r[2], r[3]] { b.extend(w.to_le_bytes()); } }
    b
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    if c.t.noise.is_some() { return rep; }
    for grp in &c.groups {
        let r = TableReader::new(&c.t);
        let mut d = look::Digest::default();
        let own = caught(|| look::look(&CpuId::with_cpuid_reader(r.clone()), grp, MOST, &mut d));
        // what does not end here would not there
        if let Err(e) = &own { if e.contains(FUEL_MSG) { continue; } }
        if r.fuel.get() + 2000 < FUEL { rep.tags.push("long, left out"); continue; }
        let how = match &own { Ok(x) => x.to_string(), Err(_) => "panic".to_string() };
        let (sum, long) = d.sum();
        let want = format!("{} {:016x} {}", how, sum, long);
        if d.1 { rep.fail(format!("{}.no-text", grp), format!("{} hands out a text that is not UTF-8", grp)); return rep; }
        let msg = message(c, grp);
        let ask = || INTERPRETER.with(|w| {
            let mut w = w.borrow_mut();
            let r = w.get_or_insert_with(start).ask_bytes(&msg);
            if r.1.is_err() { *w = None; }
            r
        });
        let (mut got, mut done) = ask();
        // An interpreter may have been ended for other reasons.
        if done.is_err() { (got, done) = ask(); }
        rep.compared += 1;
        match done {
            Err(e) => rep.fail(format!("{}.undefined", grp), format!("{}: the interpreter stops at undefined behaviour ({})", grp, e)),
            Ok(()) => if got.trim() != want { rep.fail(format!("{}.differs", grp), format!("{}: interpreted '{}', compiled '{}'", grp, got.trim(), want)) }
        }
        if long > 0 { rep.nontrivial = true; }
        if how == "panic" { rep.tags.push("panics"); }
        if TEXTS.contains(grp) { rep.tags.push("text"); }
    }
    rep
}
