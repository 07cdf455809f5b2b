//! A build for 32-bit processors.

use crate::engine::{Case, Prop, Report};
use crate::gen::{Gen, Rng};
use crate::obs::{self, GROUPS};
use crate::props::{borrowed, extra_fields, full, Swept, STANDIN};
use crate::table::*;
use crate::worker::Worker;
use std::cell::RefCell;

pub fn props() -> Vec<Prop> { vec![narrow()] }

thread_local! { static NARROW: RefCell<Option<Worker>> = const { RefCell::new(None) }; }

fn ask(msg: &[u8]) -> (String, Result<(), String>) {
    NARROW.with(|w| {
        let mut w = w.borrow_mut();
        let r = w.get_or_insert_with(|| {
            let exe = std::env::current_exe().expect("exe").parent().and_then(|p| p.parent()).expect("target").join("narrow/i686-unknown-linux-gnu/release/narrowobs");
            Worker::start(&exe, &[], false)
        }).ask_bytes(msg);
        if r.1.is_err() { *w = None; }
        r
    })
}

pub fn message(names: &str, noise: Option<u64>, rows: impl Iterator<Item = [u32; 6]>) -> Vec<u8> {
    let mut b = format!("{}\n", names).into_bytes();
    let mut word = |w: u32| b.extend(w.to_le_bytes());
    word(noise.is_some() as u32);
    word(noise.unwrap_or(0) as u32);
    word((noise.unwrap_or(0) >> 32) as u32);
    for r in rows { r.into_iter().for_each(&mut word); }
    b
}

/// A line without what may differ: letters one standard library knows and another prints as `\u{..}` (see look.rs), the
/// width of addresses, and a number of sets that a 32-bit word does not hold.
fn even(line: &str) -> String {
    let mut out = String::with_capacity(line.len());
    let mut rest = line;
    while let Some(c) = rest.chars().next() {
        rest = &rest[c.len_utf8()..];
        if c == '\\' {
            let code = rest.trim_start_matches('\\').strip_prefix("u{").and_then(|r| r.split_once('}'));
            if let Some((x, after)) = code.and_then(|(x, after)| Some((char::from_u32(u32::from_str_radix(x, 16).ok()?)?, after))) {
                out.push(x);
                rest = after;
                continue;
            }
        }
        out.push(c);
        if c == '0' {
            // 0x00000000_xxxxxxxx
            if let Some(x) = rest.strip_prefix("x00000000").and_then(|r| r.get(..8)).filter(|x| x.bytes().all(|b| b.is_ascii_hexdigit())) {
                out.push('x');
                out.push_str(x);
                rest = &rest[17..];
            }
        }
    }
    if out.contains("4294967296") && out.contains("sets") { out = out.replace("4294967296", "4294967295"); }
    out
}

/// All answers of one build against those of another.
pub fn compare(rep: &mut Report, a: &str, b: &str, one: &str, other: &str) {
    let (mut a, mut b) = (a.trim_end().lines(), b.trim_end().lines());
    loop {
        match (a.next(), b.next()) {
            (None, None) => break,
            (x, y) => {
                if x == y || x.map(even) == y.map(even) { rep.compared += 1; if x.unwrap_or("").ends_with("present = B(true)") { rep.nontrivial = true; } continue; }
                let kind = x.or(y).unwrap_or("").split(" = ").next().unwrap_or("").to_string();
                let (x, y) = (x.unwrap_or("nothing"), y.unwrap_or("nothing"));
                let at = x.chars().zip(y.chars()).take_while(|(a, b)| a == b).count().saturating_sub(120);
                let cut = |s: &str| s.chars().skip(at).take(400).collect::<String>();
                rep.fail(kind, format!("{}: {}; {}: {}", one, cut(x), other, cut(y)));
                break;
            }
        }
    }
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    if !c.prog.is_empty() {
        // the processor at hand
        let msg = message("native", None, c.prog.chunks_exact(3).map(|p| [p[1], p[2], p[0], 0, 0, 0]));
        let (out, how) = ask(&msg);
        if let Err(e) = how { rep.fail("native-death", format!("reading the processor in a 32-bit process: {}", e)); return rep; }
        for l in out.lines() {
            rep.compared += 1;
            let mut w = l.split(' ');
            if w.next() == Some("differs") { rep.fail("native", format!("in a 32-bit process, a reading is not the intrinsic's: {}", l)); }
            if w.next() == Some("1") { rep.nontrivial = true; }
        }
        rep.tags.push("the processor at hand");
        return rep;
    }
    let here = obs::dump(&c.t, &c.groups);
    if here.contains(FUEL_MSG) { return rep; }
    let msg = message(&c.groups.join(" "), c.t.noise, c.t.m.iter().map(|((l, s), r)| [*l, *s, r[0], r[1], r[2], r[3]]));
    let (out, how) = ask(&msg);
    if let Err(e) = how { rep.fail("death", format!("in a 32-bit process: {}", e)); return rep; }
    compare(&mut rep, &here, &out, "in a 64-bit process", "in a 32-bit one");
    rep
}

fn narrow() -> Prop {
    let sw = Swept::new(GROUPS);
    let fields: Vec<_> = GROUPS.iter().flat_map(|g| extra_fields(g)).flat_map(|f| {
        let max = u32::MAX >> (31 - (f.5 - f.4));
        [0, 1, max / 2, max / 2 + 1, max - 1, max].into_iter().map(move |v| (f, v))
    }).collect();
    let (nf, ng, nn) = (fields.len() as u64, GROUPS.len() as u64 * 4 * 16, 4 * 0x40);
    Prop {
        id: "C32",
        rule: "a child built for 32-bit processors, with checks, answers everything: each structure alone on four vendors with empty, full and random contents, the edges of coded fields, then systematic cases of the other properties and random processors; its answers and texts are compared with this (64-bit) process's own. It also reads the processor at hand in each way there is, compared with the compiler's intrinsic. Non-trivial: a structure is present, or the processor's answer is not all zero",
        assumptions: &[STANDIN, "one 32-bit target (i686) stands for all", "the compiler's own CPUID intrinsic is right"],
        sweep_len: Box::new(move |_, th| ng * if th { 16 } else { 1 } + nf + nn),
        sweep: Box::new(move |g: &Gen, r: &mut Rng, k, _| {
            if k < nn {
                let l = [0u32, 0x4000_0000, 0x8000_0000, 0x2000_0000][(k % 4) as usize] + (k / 4) as u32;
                return Case { prog: (0..15).flat_map(|h| [h % 5, l, h / 5]).collect(), ..Case::default() };
            }
            let k = k - nn;
            if k < nf {
                let ((grp, l, s, reg, lo, hi), v) = fields[k as usize];
                let vendor = if l >= 0x8000_0000 { r.range(1, 2) } else { r.below(4) };
                let mut t = full(g, r, vendor, &[grp], 2);
                let m = (u32::MAX >> (31 - (hi - lo))) << lo;
                let cur = t.get(l, s)[reg];
                t.set_reg(l, s, reg, cur & !m | v << lo);
                crate::gen::bound(&mut t);
                return Case { t, groups: vec![grp], ..Case::default() };
            }
            let k = k - nf;
            let grp = GROUPS[(k % GROUPS.len() as u64) as usize];
            let k = k / GROUPS.len() as u64;
            Case { t: full(g, r, (k % 4) as u32, &[grp], k / 4 % 16), groups: vec![grp], ..Case::default() }
        }),
        random: (40_000, 1_500_000),
        gen: Box::new(move |g, r| {
            if r.one_in(40) { return Case { prog: (0..6).flat_map(|_| [r.below(5), match r.below(4) { 0 => r.below(0x40), 1 => 0x8000_0000 + r.below(0x30), 2 => g.reg(r), _ => 0x4000_0000 + r.below(0x20) }, if r.one_in(2) { r.below(6) } else { g.reg(r) }]).collect(), ..Case::default() } }
            if r.one_in(2) { return borrowed(&sw, g, r); }
            let groups = if r.one_in(6) { GROUPS.to_vec() } else { GROUPS.iter().filter(|_| r.one_in(12)).cloned().collect() };
            Case { t: g.table(r, &groups), groups, ..Case::default() }
        }),
        check: Box::new(check),
        single: false,
    }
}
