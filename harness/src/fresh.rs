//! Answers are of the time of the question.

use crate::engine::{Case, Prop, Report};
use crate::equal::other;
use crate::gen::{bound, rows_of, Gen, Rng};
use crate::model;
use crate::obs::{self, caught, Map, GROUPS, V};
use crate::props::{full, STANDIN};
use crate::table::*;
use raw_cpuid::CpuId;
use std::rc::Rc;
use std::sync::Arc;

pub fn props() -> Vec<Prop> { vec![fresh()] }

/// What a handle may have read when it was made stays as it is.
fn same_start(t: &Table, t2: &mut Table) {
    for l in [0, 0x8000_0000] { t2.set(l, 0, t.get(l, 0)); }
}

const ASK: u32 = 0;
const COPY: u32 = 4;
const SWITCH: u32 = 5;
const OTHER: u32 = 6;

fn fresh() -> Prop {
    let places: Vec<(&'static str, u32, u32)> = GROUPS.iter().flat_map(|g| rows_of(g).into_iter().map(move |(l, s)| (*g, l, s))).filter(|(_, l, _)| *l != 0 && *l != 0x8000_0000).collect();
    let places = Arc::new(places);
    let p2 = places.clone();
    Prop {
        id: "C29",
        rule: "a processor changes under a handle: each bit of each register the structures are read from in turn (asked before, with the bit changed, and after it has changed back), then random histories of changes and questions through the handle, its copies, and a handle on another processor; each answer and text compared with that of a handle made afresh. Non-trivial: some answer asked for is different after a change",
        assumptions: &[STANDIN, "the vendor and the highest leaf numbers do not change under a handle"],
        sweep_len: Box::new(move |_, th| places.len() as u64 * 128 * if th { 8 } else { 1 }),
        sweep: Box::new(move |g, r, k, _| {
            let (grp, l, s) = p2[(k / 128 % p2.len() as u64) as usize];
            let amd = l >= 0x8000_0002 && r.pct(80);
            let v = if amd { r.range(1, 2) } else { r.below(4) };
            let mut t = full(g, r, v, &[grp], [2, 2, 1, 0][(k / 128 % 4) as usize]);
            bound(&mut t);
            let mut t2 = t.clone();
            *t2.reg_mut(l, s, (k / 32 % 4) as usize) ^= 1 << (k % 32);
            bound(&mut t2);
            Case { t, t2: Some(t2), groups: vec![grp], prog: vec![ASK, SWITCH, ASK, OTHER, SWITCH, ASK] }
        }),
        random: (120_000, 4_000_000),
        gen: Box::new(|g: &Gen, r: &mut Rng| {
            let mut gs: Vec<&'static str> = (0..r.range(1, 4)).map(|_| *r.pick(GROUPS)).collect();
            gs.dedup();
            let t = if r.one_in(3) { g.table(r, &gs) } else { let v = r.below(4); full(g, r, v, &gs, 2) };
            let mut t2 = t.clone();
            for grp in &gs { let style = r.below(7); t2 = other(g, r, &t2, grp, style); }
            same_start(&t, &mut t2);
            bound(&mut t2);
            let n = r.range(4, 16);
            Case { t, t2: Some(t2), groups: gs, prog: (0..n).map(|_| r.u32()).collect() }
        }),
        check: Box::new(check),
        single: false,
    }
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    let Some(t2) = &c.t2 else { return rep };
    if c.groups.is_empty() || [0, 0x8000_0000].iter().any(|l| c.t.get(*l, 0) != t2.get(*l, 0)) { return rep; }
    let tables = [Rc::new(c.t.clone()), Rc::new(t2.clone())];
    type Seen = (Map, Vec<(&'static str, u32, V)>);
    let mut want: std::collections::BTreeMap<(usize, &'static str), Result<Seen, String>> = Default::default();
    let see = |id: &CpuId<TableReader>, g: &'static str, r: &TableReader| -> Seen { let o = obs::observe_with(id, &[g], r, true); (o.m, o.dbg) };
    let r = TableReader::new(&c.t);
    let Ok(id) = caught(|| CpuId::with_cpuid_reader(r.clone())) else { rep.fail("construction", "constructing panicked".to_string()); return rep };
    let r2 = TableReader::new(t2);
    let Ok(second) = caught(|| CpuId::with_cpuid_reader(r2.clone())) else { rep.fail("construction", "constructing panicked".to_string()); return rep };
    let mut copies: Vec<CpuId<TableReader>> = vec![];
    let mut now = 0;
    let mut done: Vec<String> = vec![];
    for op in &c.prog {
        let g = c.groups[(op >> 8) as usize % c.groups.len()];
        if op % 8 == SWITCH || op >> 16 & 3 == 1 { now ^= 1; r.become_(&tables[now]); done.push("change".into()); }
        if op % 8 == SWITCH { continue; }
        let (on, reader, at) = match op % 8 {
            COPY => { copies.push(id.clone()); done.push("copy".into()); (copies.last().unwrap(), &r, now) }
            OTHER => (&second, &r2, 1),
            7 if !copies.is_empty() => (&copies[(op >> 24) as usize % copies.len()], &r, now),
            _ => (&id, &r, now),
        };
        let want = want.entry((at, g)).or_insert_with(|| {
            let r = TableReader::new(&tables[at]);
            caught(|| CpuId::with_cpuid_reader(r.clone())).map(|id| see(&id, g, &r))
        });
        let Ok(want) = want else { continue };
        let got = see(on, g, reader);
        done.push(format!("ask {}{}", g, if op % 8 == OTHER { " of another processor" } else { "" }));
        rep.compared += got.0.len() as u64;
        if got.0 != want.0 || got.1 != want.1 {
            let k = got.0.keys().chain(want.0.keys()).find(|k| got.0.get(k) != want.0.get(k));
            rep.fail(format!("{}.stale", g), format!("[{}]: {} answers otherwise than on a handle made then: {:?}", done.join(", "), g, k.map(|k| (k.to_string(), got.0.get(k), want.0.get(k)))));
            return rep;
        }
    }
    for g in &c.groups {
        if let (Some(Ok(a)), Some(Ok(b))) = (want.get(&(0, *g)), want.get(&(1, *g))) { if a != b { rep.nontrivial = true; rep.tags.push("different after the change"); } }
        if model::present(&c.t, g) != model::present(t2, g) { rep.tags.push("comes or goes"); }
    }
    if c.groups.len() > 1 || c.hash64() % 32 == 0 {
        for at in [0, 1, 0] {
            r.become_(&tables[at]);
            r.refuel();
            let f = TableReader::new(&tables[at]);
            let (a, b) = (caught(|| format!("{:?}", id)), caught(|| CpuId::with_cpuid_reader(f.clone())).and_then(|x| caught(|| format!("{:?}", x))));
            rep.compared += 1;
            if let (Ok(a), Ok(b)) = (&a, &b) { if a != b { rep.fail("cpuid.stale", "the handle prints otherwise than one made now".to_string()); return rep; } }
        }
    }
    rep
}
