//! Properties over everything at once: totality, presence, locality, histories, text.

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, rows_of, Gen, Rng, VENDOR_STRINGS};
use crate::iters;
use crate::model::{self, Ven};
use crate::obs::{self, caught, Key, GROUPS, NOIDX, V};
use crate::props::{full, Swept, STANDIN};
use crate::table::*;
use raw_cpuid::{CpuId, CpuIdReader, CpuIdResult};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn props() -> Vec<Prop> { vec![totality(), presence(), locality(), histories(), recorded(), debug_text()] }

fn some_groups(r: &mut Rng, n: u32) -> Vec<&'static str> {
    let mut gs: Vec<&'static str> = (0..n).map(|_| *r.pick(GROUPS)).collect();
    gs.sort();
    gs.dedup();
    GROUPS.iter().filter(|g| gs.contains(g)).cloned().collect()
}

// --- C01 -----------------------------------------------------------------------
/// Lists as long as lists can be: `prog` is a leaf and the registers that each of its sub-leaves from 4 on answers.
const LONGEST: &[(&str, [u32; 5])] = &[
    ("dat", [0x18, 0, 0, 0, 0]), ("dat", [0x18, 0, 0x0004_0001, 1, 1]), ("soc", [0x17, 0, 0, 0, 0]), ("topology", [0xb, 1, 2, 0x100, 0]),
    ("topology_v2", [0x1f, 1, 2, 0x100, 0]), ("cache_params", [4, 0x21, 0, 0, 0]), ("sgx", [0x12, 1, 0, 1, 0]), ("ext_cpu_topo", [0x8000_0026, 1, 2, 0x100, 0]),
    ("xsave", [0xd, 7, 7, 0, 0]), ("cache_info", [2, 0x0302_0301, 0, 0, 0]),
];
#[derive(Clone)]
struct Same { t: std::rc::Rc<Table>, leaf: u32, row: CpuIdResult }
impl CpuIdReader for Same {
    #[inline]
    fn cpuid2(&self, leaf: u32, sub: u32) -> CpuIdResult { if leaf == self.leaf && sub >= 4 { self.row } else { res(self.t.get(leaf, sub)) } }
}
fn longest_case(k: usize) -> Case {
    let (g, p) = LONGEST[k];
    let mut t = Table::new();
    let v = Gen::vendor_of(if g == "ext_cpu_topo" { 1 } else { 0 });
    let le = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
    t.set(0, 0, [0x20, le(0), le(8), le(4)]);
    t.set(0x8000_0000, 0, [0x8000_0026, 0, 0, 0]);
    if g == "sgx" { t.set(7, 0, [0, 4, 0, 0]); t.set(0x12, 0, [1, 0, 0, 0]); }
    for s in 0..4 { if g != "sgx" || s >= 2 { t.set(p[0], s, [p[1], p[2], p[3], p[4]]); } }
    if g == "dat" || g == "soc" { t.set_reg(p[0], 0, EAX, u32::MAX); }
    Case { t, groups: vec![g], prog: p.to_vec(), ..Case::default() }
}
fn longest_check(c: &Case) -> Report {
    fn walk<T>(rep: &mut Report, g: &str, it: Option<impl Iterator<Item = T>>) {
        let Some(mut it) = it else { return };
        rep.nontrivial = true;
        rep.tags.push("list of 2^32 sub-leaves");
        let mut ended = false;
        // asked on after its end, for none of these has anything further on
        for n in 0..(1u64 << 32) + 100 {
            if it.next().is_none() { ended = true; } else if ended { rep.fail(format!("{}.back", g), format!("{}: an item after the end, asked for the {}th time", g, n + 1)); break; }
        }
        if !ended { rep.fail(format!("{}.endless", g), format!("{}: more items than there are sub-leaves", g)); }
        rep.compared += 1;
    }
    let mut rep = Report::default();
    let r = Same { t: std::rc::Rc::new(c.t.clone()), leaf: c.prog[0], row: res([c.prog[1], c.prog[2], c.prog[3], c.prog[4]]) };
    let g = c.groups[0];
    let done = caught(|| {
        let id = CpuId::with_cpuid_reader(r);
        match g {
            "dat" => walk(&mut rep, g, id.get_deterministic_address_translation_info()),
            "soc" => walk(&mut rep, g, id.get_soc_vendor_info().and_then(|s| s.get_vendor_attributes())),
            "topology" => walk(&mut rep, g, id.get_extended_topology_info()),
            "topology_v2" => walk(&mut rep, g, id.get_extended_topology_info_v2()),
            "cache_params" => walk(&mut rep, g, id.get_cache_parameters()),
            "sgx" => walk(&mut rep, g, id.get_sgx_info().map(|s| s.iter())),
            "ext_cpu_topo" => walk(&mut rep, g, id.get_extended_cpu_topology()),
            "xsave" => walk(&mut rep, g, id.get_extended_state_info().map(|x| x.iter())),
            "cache_info" => walk(&mut rep, g, id.get_cache_info()),
            _ => {}
        }
    });
    if let Err(e) = done { rep.fail(format!("{}.longest", g), format!("{}: walking a list of all sub-leaves panicked: {}", g, e)); }
    rep
}

fn totality() -> Prop {
    let sw = Arc::new(Swept::new(GROUPS));
    let sw2 = sw.clone();
    Prop {
        id: "C01",
        rule: "one list of 2^32 sub-leaves of each kind, asked 2^32 times and more; each bit of each register and each field value as for the other properties, then random processors with every structure filled in; on each, every public question and every Debug and Display text. Non-trivial: some structure is present",
        assumptions: &[STANDIN, "built with overflow checks and debug assertions", "no more than 70000 sub-leaves are claimed by the leaves that state a number of sub-leaves, except in one walk over all 2^32 of each list"],
        sweep_len: Box::new(move |_, th| sw.len(th) + LONGEST.len() as u64),
        sweep: Box::new(move |g, r, k, th| {
            // one for each thread to begin with
            let n = LONGEST.len() as u64;
            if k % 64 == 0 && k / 64 < n { return longest_case((k / 64) as usize); }
            sw2.case(g, r, k - (k / 64 + 1).min(n), th)
        }),
        random: (40_000, 1_500_000),
        gen: Box::new(|g, r| {
            let gs = if r.one_in(3) { GROUPS.to_vec() } else { some_groups(r, 6) };
            Case { t: g.table(r, &gs), groups: gs, ..Case::default() }
        }),
        check: Box::new(|c| {
            if c.prog.len() == 5 { return longest_check(c); }
            let mut rep = Report::default();
            let r = TableReader::new(&c.t);
            let id = match caught(|| CpuId::with_cpuid_reader(r.clone())) { Ok(x) => x, Err(e) => { rep.fail("construction", format!("constructing panicked: {}", e)); return rep; } };
            let o = obs::observe_with(&id, &c.groups, &r, true);
            rep.compared = o.calls;
            for (k, v) in &o.m {
                if let V::Panic(e) = v { rep.fail(format!("{}.{}", k.g, k.f), format!("{} panicked: {}", k, e)); }
                if k.f == "present" && *v == V::B(true) { rep.nontrivial = true; rep.tags.push(k.g); }
            }
            for (g, i, v) in &o.dbg {
                if let V::Panic(e) = v { rep.fail(format!("{}.debug", g), format!("printing {}[{}] panicked: {}", g, *i as i32, e)); }
            }
            if c.groups.len() > 1 || c.hash64() % 64 == 0 {
                rep.compared += 1;
                for pretty in [false, true] {
                    r.refuel();
                    if let Err(e) = caught(|| if pretty { format!("{:#?}", id) } else { format!("{:?}", id) }) { rep.fail("cpuid.debug", format!("printing CpuId panicked: {}", e)); }
                }
            }
            rep
        }),
        single: false,
    }
}

// --- C02 -----------------------------------------------------------------------
fn std_maxes() -> Vec<u32> { (0..=0x40).chain([0x7f, 0x80, 0xff, 0x100, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x7fff_ffff, 0x8000_0000, 0x8000_0026, u32::MAX]).collect() }
fn ext_maxes() -> Vec<u32> { (0x8000_0000..=0x8000_0040).chain([0, 1, 0x26, 0x7fff_ffff, 0x8000_00ff, 0x8000_0100, 0xc000_0000, u32::MAX - 1, u32::MAX]).collect() }
const GATES: u64 = 32;

fn presence() -> Prop {
    let flips = 96u64 * 4;
    let per = 8 * GATES;
    let n = move || (std_maxes().len() + ext_maxes().len()) as u64 * per + flips * 4;
    Prop {
        id: "C02",
        rule: "each highest leaf number up to 0x40 (and 0x80000040) and special ones, on eight vendors, with the gating feature bits in all combinations; each vendor string one bit off; then random processors. Every structure is asked for. Non-trivial: some structure is present",
        assumptions: &[STANDIN, "the reference model transcribes the Intel and AMD manuals"],
        sweep_len: Box::new(move |_, th| n() * if th { 16 } else { 2 }),
        sweep: Box::new(move |g, r, k, _| {
            let k = k % n();
            let mut t = Table::new();
            let bg = r.below(4);
            if bg == 3 { t.noise = Some(r.u64() >> 12); }
            if bg == 1 || bg == 2 {
                for grp in GROUPS { for (l, s) in rows_of(grp) { t.set(l, s, if bg == 1 { [u32::MAX; 4] } else { g.row_at(r, l, s) }); } }
            }
            let (sm, em) = (std_maxes(), ext_maxes());
            let main = (sm.len() + em.len()) as u64 * per;
            let (v, s, e, gates) = if k < main {
                let i = (k / per) as usize;
                let j = k % per;
                let (s, e) = if i < sm.len() { (sm[i], if r.one_in(3) { *r.pick(&em) } else { 0x8000_0030 }) } else { (if r.one_in(3) { *r.pick(&sm) } else { 0x24 }, em[i - sm.len()]) };
                (VENDOR_STRINGS[(j / GATES) as usize].to_vec(), s, e, (j % GATES) as u32)
            } else {
                let j = k - main;
                let mut v = VENDOR_STRINGS[(j / 96 % 4) as usize].to_vec();
                v[(j % 96 / 8) as usize] ^= 1 << (j % 8);
                (v, if r.pct(70) { 0x24 } else { r.below(0x24) }, 0x8000_0028, r.u32() % GATES as u32)
            };
            let row = g.vendor_row(r, &v, s);
            t.set(0, 0, row);
            t.set(0x8000_0000, 0, [e, if r.pct(50) { row[1] } else { g.reg(r) }, row[2], row[3]]);
            let gate = |t: &mut Table, l: u32, reg: usize, b: u32, on: bool| { let x = t.reg_mut(l, 0, reg); if on { *x |= 1 << b } else { *x &= !(1 << b) } };
            gate(&mut t, 7, EBX, 2, gates & 1 != 0);
            gate(&mut t, 0x8000_0001, ECX, 2, gates & 2 != 0);
            gate(&mut t, 1, ECX, 31, gates & 4 != 0);
            gate(&mut t, 1, EDX, 18, gates & 8 != 0);
            t.set_reg(0x4000_0000, 0, EAX, if gates & 16 != 0 { *r.pick(&[1, 0x4000_0000, 0x4000_0001, 0x4000_0010, u32::MAX]) } else { 0 });
            if r.one_in(8) { let leaf = r.below(0x20); t.set(leaf.max(1), 0, [0; 4]); }
            bound(&mut t);
            Case { t, groups: GROUPS.to_vec(), ..Case::default() }
        }),
        random: (60_000, 3_000_000),
        gen: Box::new(|g, r| {
            let gs = some_groups(r, 5);
            let mut t = g.table(r, &gs);
            if r.pct(60) {
                let x = if r.pct(50) { *r.pick(&std_maxes()) } else { g.max_std(r) };
                t.set_reg(0, 0, EAX, x);
                let x = if r.pct(50) { *r.pick(&ext_maxes()) } else { g.max_ext(r) };
                t.set_reg(0x8000_0000, 0, EAX, x);
            }
            Case { t, groups: GROUPS.to_vec(), ..Case::default() }
        }),
        check: Box::new(presence_check),
        single: false,
    }
}
fn presence_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let r = TableReader::new(&c.t);
    let id = match caught(|| CpuId::with_cpuid_reader(r.clone())) { Ok(x) => x, Err(e) => { rep.fail("construction", format!("constructing panicked: {}", e)); return rep; } };
    rep.tags.push(match model::vendor(&c.t) { Ven::Intel => "vendor intel", Ven::Amd => "vendor amd or hygon", Ven::Other => "vendor other" });
    for g in &c.groups {
        r.refuel();
        let want = model::present(&c.t, g);
        let got = caught(|| obs::is_present(&id, g));
        rep.compared += 1;
        if want { rep.nontrivial = true; }
        if got != Ok(want) {
            rep.fail(format!("{}.present", g), format!("{}: expected {}, got {:?} (vendor {:?}, highest leaves {:#x} and {:#x})", g, if want { "present" } else { "absent" }, got,
                String::from_utf8_lossy(&model::vendor_bytes(&c.t)), c.t.get(0, 0)[EAX], c.t.get(0x8000_0000, 0)[EAX]));
        }
    }
    rep
}

// --- C19 -----------------------------------------------------------------------
/// Where the answers of a group may come from.
fn dep(t: &Table, g: &str, leaf: u32, sub: u32) -> bool {
    if (leaf, sub) == (0, 0) || (leaf, sub) == (0x8000_0000, 0) { return true; }
    let own = model::leaf_of(g);
    match g {
        "cache_params" => leaf == if model::vendor(t) == Ven::Amd { 0x8000_001d } else { 4 },
        "sgx" => (leaf, sub) == (7, 0) || leaf == 0x12,
        "topology" | "topology_v2" | "ext_cpu_topo" | "xsave" | "soc" | "dat" | "rdt_mon" | "rdt_alloc" | "pqos" | "proc_trace" | "ext_features" => leaf == own,
        "svm" => matches!((leaf, sub), (0x8000_0001, 0) | (0x8000_000a, 0)),
        "hypervisor" => matches!((leaf, sub), (1, 0) | (0x4000_0000, 0) | (0x4000_0010, 0)),
        "serial" => matches!((leaf, sub), (1, 0) | (3, 0)),
        "brand" => matches!(leaf, 0x8000_0002..=0x8000_0004) && sub == 0,
        _ => (leaf, sub) == (own, 0),
    }
}
/// Of rows that only gate a group, the bits that matter.
fn gate_mask(g: &str, leaf: u32) -> Option<Regs> {
    match (g, leaf) {
        ("vendor", 0x8000_0000) => Some([0; 4]),
        (_, 0x8000_0000) => Some([u32::MAX, 0, 0, 0]),
        ("sgx", 7) => Some([0, 4, 0, 0]),
        ("svm", 0x8000_0001) => Some([0, 0, 4, 0]),
        ("hypervisor", 1) => Some([0, 0, 1 << 31, 0]),
        ("serial", 1) => Some([u32::MAX, 0, 0, 0]),
        _ => None,
    }
}
fn other_rows() -> Vec<(u32, u32)> {
    let mut s = std::collections::BTreeSet::new();
    for g in GROUPS { s.extend(rows_of(g)); }
    s.extend((0..0x24).map(|l| (l, 0)));
    s.extend((0x8000_0000..0x8000_0028).map(|l| (l, 0)));
    s.extend([(0x4000_0000, 0), (0x4000_0001, 0), (0x4000_0010, 0), (7, 2), (0xd, 19), (0x8000_0020, 1), (0x8000_0020, 2), (0x14, 2), (2, 1), (1, 1), (0, 1)]);
    s.into_iter().collect()
}
/// The same processor as far as `g` is concerned, and another one in everything else.
fn perturb(r: &mut Rng, g: &Gen, t: &Table, grp: &str, style: u32, only: Option<(u32, u32)>) -> Table {
    let absent = !model::present(t, grp);
    let keeps = |l: u32, s: u32| dep(t, grp, l, s) && !(absent && gate_mask(grp, l).is_none() && l != 0 && (grp != "hypervisor" || l != 0x4000_0000));
    let mut t2 = Table::new();
    for (k, v) in &t.m { if keeps(k.0, k.1) || only.is_some() { t2.set(k.0, k.1, *v); } }
    if only.is_none() {
        if style == 2 {
            t2.noise = Some(r.u64() >> 12);
            // what the group reads stays as it was where the table says nothing
            let own = match grp { "cache_params" if model::vendor(t) == Ven::Amd => 0x8000_001d, _ => model::leaf_of(grp) };
            let last = t.m.keys().filter(|k| k.0 == own).map(|k| k.1).max().unwrap_or(0);
            let more = if matches!(grp, "soc" | "dat") { t.get(own, 0)[EAX].min(1000) + 2 } else { 70 };
            for s in 0..=(last + 4).max(more) { if keeps(own, s) { t2.m.entry((own, s)).or_insert([0; 4]); } }
            for (l, s) in rows_of(grp) { if keeps(l, s) { t2.m.entry((l, s)).or_insert([0; 4]); } }
            for (l, s) in [(0, 0), (0x8000_0000, 0), (0x4000_0000, 0), (0x4000_0010, 0), (1, 0), (7, 0), (0x8000_0001, 0)] { if keeps(l, s) { let v = t.get(l, s); t2.m.entry((l, s)).or_insert(v); } }
        } else {
            for (l, s) in other_rows() {
                if keeps(l, s) { continue; }
                t2.set(l, s, match style { 0 => [0; 4], 1 => [u32::MAX; 4], _ => g.row_at(r, l, s) });
            }
        }
    } else if let Some((l, s)) = only {
        if !keeps(l, s) { let x = t.get(l, s); t2.set(l, s, match style { 0 => x.map(|v| !v), 1 => [u32::MAX; 4], 2 => [0; 4], _ => g.row_at(r, l, s) }); }
    }
    for l in [0x8000_0000, 7, 0x8000_0001, 1] {
        if !dep(t, grp, l, 0) { continue; }
        let Some(m) = gate_mask(grp, l) else { continue };
        let (a, b) = (t.get(l, 0), match style { 0 => [0; 4], 1 => [u32::MAX; 4], _ => g.row_at(r, l, 0) });
        let mut x = [0; 4];
        for k in 0..4 { x[k] = (a[k] & m[k]) | (b[k] & !m[k]); }
        t2.set(l, 0, x);
    }
    // The highest leaf numbers say which leaves there are and nothing else.
    if grp != "vendor" && r.pct(50) {
        let leaves: Vec<u32> = [1, 2, 3, 4, 5, 6, 7, 9, 0xa, 0xb, 0xd, 0xf, 0x10, 0x12, 0x14, 0x15, 0x16, 0x17, 0x18, 0x1f].iter().cloned().chain(0x8000_0001..0x8000_0027).filter(|l| dep(t, grp, *l, 0)).collect();
        for l in [0, 0x8000_0000u32] {
            for _ in 0..6 {
                let x = if l == 0 { g.max_std(r) } else { g.max_ext(r) };
                let mut c = t2.clone();
                c.set_reg(l, 0, EAX, x);
                if leaves.iter().all(|q| model::supported(t, *q) == model::supported(&c, *q)) { t2 = c; break; }
            }
        }
    }
    t2
}

fn locality() -> Prop {
    let per_group = |th: bool| other_rows().len() as u64 * 2 * if th { 8 } else { 2 };
    Prop {
        id: "C19",
        rule: "pairs of processors that agree on the leaves a structure is defined by and on the gating bits, and differ elsewhere: in one other leaf (each in turn, for each structure), or in everything else (zeros, ones, garbage, other plausible values), in the highest leaf numbers as far as these do not matter, and in the signature of the processor, each number of the source in turn; the structure must give the same answers and print the same. Non-trivial: the structure is present",
        assumptions: &[STANDIN],
        sweep_len: Box::new(move |g, th| GROUPS.len() as u64 * (per_group(th) + 4 * g.dict.ints.len() as u64)),
        sweep: Box::new(move |g, r, k, th| {
            if k >= GROUPS.len() as u64 * per_group(th) {
                // each number of the source in turn, as the signature of the processor
                let k = k - GROUPS.len() as u64 * per_group(th);
                let grp = GROUPS[(k % GROUPS.len() as u64) as usize];
                let k = (k / GROUPS.len() as u64) as usize;
                let (vendor, style) = (r.below(4), (k % 4) as u64);
                let mut t = full(g, r, vendor, &[grp], style);
                calm(&mut t);
                let mut t2 = t.clone();
                if !dep(&t, grp, 1, 0) { t2.set_reg(1, 0, EAX, g.dict.ints[k / 4]); }
                return Case { t, t2: Some(t2), groups: vec![grp], ..Case::default() };
            }
            let grp = GROUPS[(k / per_group(th)) as usize];
            let k = k % per_group(th);
            let rows = other_rows();
            let row = rows[(k % rows.len() as u64) as usize];
            let vendor = r.below(4);
            let mut t = full(g, r, vendor, &[grp], 2);
            for o in some_groups(r, 3) { if o != grp { for (l, s) in rows_of(o) { if !dep(&t, grp, l, s) { t.set(l, s, g.row_at(r, l, s)); } } } }
            calm(&mut t);
            let t2 = perturb(r, g, &t, grp, (k / rows.len() as u64) as u32 % 4, Some(row));
            Case { t, t2: Some(t2), groups: vec![grp], ..Case::default() }
        }),
        random: (250_000, 8_000_000),
        gen: Box::new(|g, r| {
            let grp = *r.pick(GROUPS);
            let mut gs = some_groups(r, 4);
            if !gs.contains(&grp) { gs.push(grp); }
            let mut t = g.table(r, &gs);
            t.noise = None;
            calm(&mut t);
            let style = r.below(4);
            let mut t2 = perturb(r, g, &t, grp, style, None);
            g.company(r, &mut t2, |l, s| dep(&t, grp, l, s));
            if r.one_in(3) {
                let rows = other_rows();
                for _ in 0..r.range(1, 4) {
                    let (l, s) = if r.one_in(2) { *r.pick(&[(1, 0), (7, 0), (0x8000_0001, 0), (0x4000_0000, 0)]) } else { *r.pick(&rows) };
                    if !matches!((l, s), (0, 0) | (0x8000_0000, 0)) && !dep(&t, grp, l, s) { t2.set_reg(l, s, r.below(4) as usize, *r.pick(&g.dict.ints)); }
                }
            }
            Case { t, t2: Some(t2), groups: vec![grp], ..Case::default() }
        }),
        check: Box::new(|c| {
            let mut rep = Report::default();
            let Some(t2) = &c.t2 else { return rep };
            // shrinking must not make the two differ where the structure lives
            for g in &c.groups {
                let same = |l: u32, s: u32| { let m = gate_mask(g, l).unwrap_or([u32::MAX; 4]); let (a, b) = (c.t.get(l, s), t2.get(l, s)); (0..4).all(|k| a[k] & m[k] == b[k] & m[k]) };
                if model::vendor_bytes(&c.t) != model::vendor_bytes(t2) { return rep; }
                if model::present(&c.t, g) != model::present(t2, g) { return rep; }
                if !model::present(&c.t, g) { continue; }
                let keys: std::collections::BTreeSet<_> = c.t.m.keys().chain(t2.m.keys()).cloned().collect();
                for k in keys { if !matches!(k, (0, 0) | (0x8000_0000, 0)) && dep(&c.t, g, k.0, k.1) && !same(k.0, k.1) { return rep; } }
                if *g == "vendor" && c.t.get(0, 0) != t2.get(0, 0) { return rep; }
                if *g == "brand" || *g == "sgx" || *g == "svm" { /* presence compared above */ }
            }
            let see = |t: &Table| -> Result<obs::Obs, String> {
                let r = TableReader::new(t);
                let id = caught(|| CpuId::with_cpuid_reader(r.clone()))?;
                Ok(obs::observe_with(&id, &c.groups, &r, true))
            };
            let (a, b) = match (see(&c.t), see(t2)) { (Ok(a), Ok(b)) => (a, b), (a, b) => { rep.fail("construction", format!("constructing panicked: {:?} {:?}", a.err(), b.err())); return rep; } };
            for k in a.m.keys().chain(b.m.keys().filter(|k| !a.m.contains_key(k))) {
                rep.compared += 1;
                if k.f == "present" && a.m.get(k) == Some(&V::B(true)) { rep.nontrivial = true; rep.tags.push(k.g); }
                if a.m.get(k) != b.m.get(k) {
                    rep.fail(format!("{}.{}", k.g, k.f), format!("{}: {:?} on one, {:?} on the other, which differ only in leaves that do not define it", k, a.m.get(k), b.m.get(k)));
                    return rep;
                }
            }
            if a.dbg != b.dbg { rep.fail("debug", format!("{:?} print differently on processors which differ only in leaves that do not define them", c.groups)); }
            rep
        }),
        single: false,
    }
}
/// Counted lists of moderate length: the other processor has to spell them out.
fn calm(t: &mut Table) {
    for leaf in [0x17, 0x18] { let v = t.get(leaf, 0)[EAX]; if v > 600 { t.set_reg(leaf, 0, EAX, 3 + v % 300); } }
}

// --- C20 -----------------------------------------------------------------------
/// Structures that are read whole when asked for: all others hand out lists or parts on demand.
const EAGER: &[&str] = &["vendor", "feature_info", "cache_info", "serial", "monitor_mwait", "thermal_power", "ext_features", "dca", "perf_mon", "proc_trace", "tsc", "freq",
    "ext_ids", "brand", "l1", "l2l3", "apm", "capacity", "svm", "tlb1g", "perf_opt", "ibs", "proc_topo", "mem_enc", "ext_feat_id2", "ext_perf_mon", "mem_multikey"];

fn histories() -> Prop {
    let make = |g: &Gen, r: &mut Rng, len: u32| {
        let mut gs = some_groups(r, 5);
        for l in ["cache_params", "topology", "topology_v2", "xsave", "sgx", "dat", "ext_cpu_topo", "soc", "cache_info"] { if r.pct(60) && !gs.contains(&l) { gs.push(l); } }
        let t = if r.pct(60) { let v = r.below(4); full(g, r, v, &gs, 2) } else { g.table(r, &gs) };
        Case { t, t2: None, groups: gs, prog: (0..len).map(|_| r.u32()).collect() }
    };
    Prop {
        id: "C20",
        rule: "random histories: a sequence of queries on one processor through one handle, its copies, and iterators left half-way, each compared with a fresh handle; a sequence of next, nth, count, last, collect, size_hint, copy and print on several cursors over each list, compared with the list as a plain vector. Non-trivial: some list has at least two items",
        assumptions: &[STANDIN],
        sweep_len: Box::new(|_, _| 0),
        sweep: Box::new(|_, _, _, _| unreachable!()),
        random: (60_000, 2_000_000),
        gen: Box::new(move |g, r| { let n = r.range(4, 60); make(g, r, n) }),
        check: Box::new(history_check),
        single: false,
    }
}

fn history_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let r = TableReader::new(&c.t);
    let id = match caught(|| CpuId::with_cpuid_reader(r.clone())) { Ok(x) => x, Err(e) => { rep.fail("construction", format!("constructing panicked: {}", e)); return rep; } };
    let mut base: BTreeMap<&'static str, (obs::Map, Vec<(&'static str, u32, V)>)> = BTreeMap::new();
    let all: Vec<&'static str> = c.groups.clone();
    let mut clones: Vec<CpuId<TableReader>> = vec![];
    let mut held: Vec<Box<dyn std::any::Any>> = vec![];
    let mut done: Vec<String> = vec![];
    for (n, op) in c.prog.iter().enumerate() {
        if all.is_empty() { break; }
        let g = all[(op >> 8) as usize % all.len()];
        if n >= 12 { break; }
        let on: &CpuId<TableReader> = match op % 8 {
            0..=3 => &id,
            4 => { clones.push(id.clone()); done.push("copy".into()); clones.last().unwrap() }
            5 if !clones.is_empty() => { let k = (op >> 24) as usize % clones.len(); let x = clones[k].clone(); clones.push(x); clones.last().unwrap() }
            6 => { r.refuel(); if let Ok(h) = caught(|| hold(&id, *op)) { held.push(h); done.push("hold an iterator".into()); } &id }
            _ => &id,
        };
        let want = base.entry(g).or_insert_with(|| {
            let r = TableReader::new(&c.t);
            let fresh = CpuId::with_cpuid_reader(r.clone());
            let o = obs::observe_with(&fresh, &[g], &r, true);
            (o.m, o.dbg)
        });
        let o = obs::observe_with(on, &[g], &r, true);
        rep.compared += o.m.len() as u64;
        done.push(format!("ask {}", g));
        if o.m != want.0 || o.dbg != want.1 {
            let k = o.m.keys().chain(want.0.keys()).find(|k| o.m.get(k) != want.0.get(k));
            rep.fail(format!("{}.history", g), format!("after [{}], {} answers otherwise than on a fresh handle: {:?}", done.join(", "), g,
                k.map(|k| (k.to_string(), o.m.get(k), want.0.get(k)))));
            return rep;
        }
    }
    drop(held);
    // A structure already obtained answers from what was read then.
    for g in all.iter().filter(|g| EAGER.contains(g)) {
        let mut o = obs::Obs { disarm: Some(r.clone()), ..obs::Obs::default() };
        r.refuel();
        obs::observe_group(&mut o, &id, g);
        for (k, v) in &o.m {
            if matches!(v, V::Panic(e) if e.starts_with(FUEL_MSG)) { rep.fail(format!("{}.reread", g), format!("{}: reads the processor again after the structure was handed out", k)); return rep; }
        }
    }
    r.refuel();
    // The same processor behind another kind of reader.
    let t = std::rc::Rc::new(c.t.clone());
    let t2 = t.clone();
    let f = move |l: u32, s: u32| -> CpuIdResult { res(t2.get(l, s)) };
    if let Ok(want) = caught(|| format!("{:?}", id)) {
        for k in 0..3 {
            let got = caught(|| match k { 0 => format!("{:?}", CpuId::with_cpuid_fn(f.clone())), 1 => format!("{:?}", CpuId::with_cpuid_reader(f.clone())), _ => format!("{:?}", CpuId::with_cpuid_fn(r.clone())) });
            rep.compared += 1;
            if got.as_ref() != Ok(&want) { rep.fail("reader", format!("a handle made in way {} prints {} instead of {}", k, iters::clip(&got.unwrap_or_else(|e| e)), iters::clip(&want))); }
        }
        for (l, s) in c.t.m.keys().take(8) {
            if *s == 0 && f.cpuid1(*l) != f.cpuid2(*l, 0) { rep.fail("cpuid1", format!("leaf {:#x} without a sub-leaf is not sub-leaf 0", l)); }
        }
    }
    rep.fails.truncate(1);
    if rep.fails.is_empty() { iters::scripts(&mut rep, &id, &c.t, &r, &c.prog); }
    rep
}
fn hold(c: &CpuId<TableReader>, op: u32) -> Box<dyn std::any::Any> {
    let n = (op >> 16) as usize % 4;
    macro_rules! part { ($e:expr) => {{ let mut it = $e; if let Some(i) = it.as_mut() { for _ in 0..n { i.next(); } } Box::new(it) as Box<dyn std::any::Any> }} }
    match (op >> 20) % 8 {
        0 => part!(c.get_cache_parameters()),
        1 => part!(c.get_extended_topology_info()),
        2 => part!(c.get_extended_topology_info_v2()),
        3 => part!(c.get_extended_state_info().map(|x| x.iter())),
        4 => part!(c.get_deterministic_address_translation_info()),
        5 => part!(c.get_extended_cpu_topology()),
        6 => part!(c.get_cache_info()),
        _ => part!(c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes())),
    }
}

// --- C21 -----------------------------------------------------------------------
fn recorded() -> Prop {
    Prop {
        id: "C21",
        rule: "every register row of random processors, written as JSON and read back (also with its fields in another order), and the whole processor replayed from its JSON record; equality and all_zero of rows one bit apart. Non-trivial: some row is neither zero nor all ones and some structure is present",
        assumptions: &[STANDIN, "serde_json is right"],
        sweep_len: Box::new(|_, _| 128 * 4),
        sweep: Box::new(|g, r, k, _| {
            let mut t = g.table(r, &["feature_info", "ext_features"]);
            let x = 1u32 << (k % 32);
            let mut row = [0; 4];
            row[(k / 32 % 4) as usize] = x;
            match k / 128 { 0 => {} 1 => row = row.map(|v| !v), 2 => { for v in row.iter_mut() { *v ^= r.u32() } } _ => { for v in row.iter_mut() { *v = v.wrapping_add(g.reg(r)) } } }
            t.set(1, 0, row);
            Case { t, groups: vec!["feature_info", "ext_features"], ..Case::default() }
        }),
        random: (20_000, 600_000),
        gen: Box::new(|g, r| { let gs = some_groups(r, 4); Case { t: g.table(r, &gs), groups: gs, ..Case::default() } }),
        check: Box::new(recorded_check),
        single: false,
    }
}
fn recorded_check(c: &Case) -> Report {
    use serde_json::Value;
    let mut rep = Report::default();
    let mut log: Vec<(u32, u32, String)> = vec![];
    for ((l, s), regs) in &c.t.m {
        rep.compared += 1;
        let row = res(*regs);
        let at = format!("{:#x}.{:#x} {:x?}", l, s, regs);
        let r = caught(|| -> Result<String, String> {
            let js = serde_json::to_string(&row).map_err(|e| format!("not written: {}", e))?;
            let back: CpuIdResult = serde_json::from_str(&js).map_err(|e| format!("{} not read back: {}", js, e))?;
            if [back.eax, back.ebx, back.ecx, back.edx] != *regs { return Err(format!("{} read back as {:?}", js, back)); }
            if back != row { return Err("unequal to itself read back".into()); }
            let v: Value = serde_json::from_str(&js).map_err(|e| e.to_string())?;
            for (k, n) in REGN.iter().enumerate() {
                if v.get(n).and_then(|x| x.as_u64()) != Some(regs[k] as u64) { return Err(format!("{}: no {} = {}", js, n, regs[k])); }
            }
            let shuffled = format!("{{\"edx\":{},\"ebx\":{},\"ecx\":{},\"eax\":{}}}", regs[3], regs[1], regs[2], regs[0]);
            let again: CpuIdResult = serde_json::from_str(&shuffled).map_err(|e| format!("{}: {}", shuffled, e))?;
            if again != row { return Err(format!("{} read as {:?}", shuffled, again)); }
            let via: CpuIdResult = serde_json::from_value(serde_json::to_value(row).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            if via != row { return Err(format!("through a JSON value: {:?}", via)); }
            // A format that writes no names: the values come back in the order they went.
            let in_order: Vec<u32> = js.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
            let plain = <CpuIdResult as serde::Deserialize>::deserialize(serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(in_order.iter().cloned())).map_err(|e| format!("without names: {}", e))?;
            if plain != row { return Err(format!("{} without names read as {:?}", js, plain)); }
            // What is no complete record is refused, not filled in or cut short.
            let k = (regs[0] ^ regs[1] ^ *s) as usize % 4;
            let with = |x: Option<&str>| format!("{{{}}}", (0..4).filter_map(|i| if i == k { x.map(|x| format!("\"{}\":{}", REGN[i], x)) } else { Some(format!("\"{}\":{}", REGN[i], regs[i])) }).collect::<Vec<_>>().join(","));
            for bad in [None, Some("4294967296"), Some("-1"), Some("null"), Some("1.5"), Some("\"1\"")] {
                if let Ok(x) = serde_json::from_str::<CpuIdResult>(&with(bad)) { return Err(format!("{} read as {:?}", with(bad), x)); }
            }
            let bytes = serde_json::to_vec(&row).map_err(|e| e.to_string())?;
            let from = serde_json::from_reader::<_, CpuIdResult>(&bytes[..]).map_err(|e| e.to_string())?;
            if from != row { return Err(format!("{} read from a stream as {:?}", js, from)); }
            if row.all_zero() != (*regs == [0; 4]) { return Err(format!("all_zero() is {}", row.all_zero())); }
            let mut other = *regs;
            let b = (l.wrapping_mul(7).wrapping_add(*s).wrapping_add(regs[0])) % 128;
            other[(b / 32) as usize] ^= 1 << (b % 32);
            if res(other) == row { return Err(format!("equal to {:x?}", other)); }
            let text = format!("{:?}", row);
            for (k, n) in REGN.iter().enumerate() {
                let shown = text.split(&format!("{}: ", n)).nth(1).map(|x| x.chars().take_while(|c| c.is_ascii_alphanumeric()).collect::<String>());
                let num = shown.as_ref().and_then(|s| s.strip_prefix("0x").map(|h| u32::from_str_radix(h, 16).ok()).unwrap_or_else(|| s.parse().ok()));
                if num != Some(regs[k]) { return Err(format!("prints {} as {:?}", n, shown)); }
            }
            Ok(js)
        });
        match r {
            Ok(Ok(js)) => log.push((*l, *s, js)),
            Ok(Err(e)) => { rep.fail("row", format!("{}: {}", at, e)); return rep; }
            Err(e) => { rep.fail("row", format!("{}: panicked: {}", at, e)); return rep; }
        }
        if *regs != [0; 4] && *regs != [u32::MAX; 4] { rep.nontrivial = true; }
    }
    // The processor replayed from its record.
    let mut t2 = Table { m: Default::default(), noise: c.t.noise };
    for (l, s, js) in log {
        let x: CpuIdResult = serde_json::from_str(&js).expect("read before");
        t2.set(l, s, [x.eax, x.ebx, x.ecx, x.edx]);
    }
    let see = |t: &Table| -> Result<(obs::Map, u64), String> {
        let r = TableReader::new(t);
        let id = caught(|| CpuId::with_cpuid_reader(r.clone()))?;
        let o = obs::observe(&id, &c.groups, &r);
        Ok((o.m, o.calls))
    };
    match (see(&c.t), see(&t2)) {
        (Ok(a), Ok(b)) => {
            rep.compared += a.1;
            if !a.0.iter().any(|(k, v)| k.f == "present" && *v == V::B(true)) { rep.nontrivial = false; }
            if a.0 != b.0 { rep.fail("replay", "the replayed processor answers otherwise".to_string()); }
        }
        (a, b) => rep.fail("construction", format!("{:?} {:?}", a.err(), b.err())),
    }
    rep
}

// --- C24 -----------------------------------------------------------------------
const FIELDS: &[(&str, &str)] = &[
    ("vendor_info", "vendor"), ("feature_info", "feature_info"), ("cache_info", "cache_info"), ("processor_serial", "serial"), ("cache_parameters", "cache_params"),
    ("monitor_mwait_info", "monitor_mwait"), ("thermal_power_info", "thermal_power"), ("extended_feature_info", "ext_features"), ("direct_cache_access_info", "dca"),
    ("performance_monitoring_info", "perf_mon"), ("extended_topology_info", "topology"), ("extended_state_info", "xsave"), ("rdt_monitoring_info", "rdt_mon"),
    ("rdt_allocation_info", "rdt_alloc"), ("sgx_info", "sgx"), ("processor_trace_info", "proc_trace"), ("tsc_info", "tsc"), ("processor_frequency_info", "freq"),
    ("deterministic_address_translation_info", "dat"), ("soc_vendor_info", "soc"), ("hypervisor_info", "hypervisor"),
    ("extended_processor_and_feature_identifiers", "ext_ids"), ("processor_brand_string", "brand"), ("l1_cache_and_tlb_info", "l1"), ("l2_l3_cache_and_tlb_info", "l2l3"),
    ("advanced_power_mgmt_info", "apm"), ("processor_capacity_feature_info", "capacity"), ("svm_info", "svm"), ("tlb_1gb_page_info", "tlb1g"),
    ("performance_optimization_info", "perf_opt"), ("processor_topology_info", "proc_topo"), ("memory_encryption_info", "mem_enc"),
    ("extended_topology_info_v2", "topology_v2"), ("instruction_based_sampling_capabilities", "ibs"), ("pqos_extended_feature_info", "pqos"), ("extended_feature_identification_2", "ext_feat_id2"),
    ("extended_performance_monitoring_and_debug", "ext_perf_mon"), ("multi_key_encrypted_memory_capabilities", "mem_multikey"), ("extended_cpu_topology", "ext_cpu_topo"),
];

fn debug_text() -> Prop {
    let sw = Arc::new(Swept::new(GROUPS));
    let sw2 = sw.clone();
    Prop {
        id: "C24",
        rule: "the systematic and random processors of the other properties; the Debug text of each structure and list item is read back, every printed name that is also a question compared with the answer, and the Debug text of the whole handle compared with the texts of its structures. Non-trivial: at least one printed value was compared",
        assumptions: &[STANDIN],
        sweep_len: Box::new(move |_, th| if th { sw.len(th) } else { sw.len(th) / 4 }),
        sweep: Box::new(move |g, r, k, th| { let k = if th { k } else { k * 4 + r.below(4) as u64 }; sw2.case(g, r, k, th) }),
        random: (12_000, 500_000),
        gen: Box::new(|g, r| {
            let gs = if r.one_in(3) { GROUPS.to_vec() } else { some_groups(r, 6) };
            let t = if r.pct(40) { let v = r.below(4); full(g, r, v, &gs, 2) } else { g.table(r, &gs) };
            Case { t, groups: gs, ..Case::default() }
        }),
        check: Box::new(debug_check),
        single: false,
    }
}
/// What the text of each structure names, whatever the processor.
static SHOWN: &[(&str, &[&str])] = &[
    ("ProcessorBrandString", &["as_str"]),
    ("CacheParameter", &["associativity", "cache_type", "coherency_line_size", "has_complex_indexing", "is_fully_associative", "is_inclusive", "is_self_initializing", "is_write_back_invalidate", "level", "max_cores_for_cache", "max_cores_for_package", "physical_line_partitions", "sets"]),
    ("ProcessorCapacityAndFeatureInfo", &["apic_id_size", "guest_physical_address_bits", "has_cl_zero", "has_inst_ret_cntr_msr", "has_int_wbinvd", "has_invlpgb", "has_invlpgb_nested", "has_mcommit", "has_rdpru", "has_restore_fp_error_ptrs", "has_unsupported_efer_lmsle", "has_wbnoinvd", "invlpgb_max_pages", "linear_address_bits", "max_rdpru_id", "maximum_logical_processors", "num_phys_threads", "perf_tsc_size", "physical_address_bits"]),
    ("DatInfo", &["has_1gb_entries", "has_2mb_entries", "has_4k_entries", "has_4mb_entries", "is_fully_associative"]),
    ("DirectCacheAccessInfo", &["dca_cap_value"]),
    ("ExtendedFeatures", &["mawau_value"]),
    ("ExtendedProcessorFeatureIdentifiers", &["extended_signature"]),
    ("FeatureInfo", &["brand_index", "cflush_cache_line_size", "extended_family_id", "extended_model_id", "family_id", "initial_local_apic_id", "max_logical_processor_ids", "model_id", "stepping_id"]),
    ("ProcessorFrequencyInfo", &["bus_frequency", "processor_base_frequency", "processor_max_frequency"]),
    ("HypervisorInfo", &["apic_frequency", "identify", "tsc_frequency"]),
    ("MonitorMwaitInfo", &["extensions_supported", "interrupts_as_break_event", "largest_monitor_line", "smallest_monitor_line", "supported_c0_states", "supported_c1_states", "supported_c2_states", "supported_c3_states", "supported_c4_states", "supported_c5_states", "supported_c6_states", "supported_c7_states"]),
    ("PerformanceMonitoringInfo", &["counter_bit_width", "ebx_length", "fixed_function_counters", "fixed_function_counters_bit_width", "number_of_counters", "version_id"]),
    ("PqosExtendedFeatureInfo", &["has_abmc", "has_bmec", "has_l3mbe", "has_l3rr", "has_l3smbe", "has_sdciae"]),
    ("ProcessorTopologyInfo", &["core_id", "node_id", "nodes_per_processor", "threads_per_core", "x2apic_id"]),
    ("ProcessorTraceInfo", &["configurable_address_ranges", "supported_cycle_threshold_value_encodings", "supported_mtc_period_encodings", "supported_psb_frequency_encodings"]),
    ("L2CatInfo", &["capacity_mask_length", "highest_cos", "isolation_bitmap"]),
    ("L3CatInfo", &["capacity_mask_length", "highest_cos", "isolation_bitmap"]),
    ("MemBwAllocationInfo", &["has_linear_response_delay", "highest_cos", "max_hba_throttling"]),
    ("RdtAllocationInfo", &["l2_cat", "l3_cat", "memory_bandwidth_allocation"]),
    ("L3MonitoringInfo", &["conversion_factor", "maximum_rmid_range"]),
    ("RdtMonitoringInfo", &["l3_monitoring", "rmid_range"]),
    ("ProcessorSerial", &["serial_lower", "serial_middle"]),
    ("SgxInfo", &["has_encls_leaves_etrackc_erdinfo_eldbc_elduc", "has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext", "has_sgx1", "has_sgx2", "max_enclave_size_64bit", "max_enclave_size_non_64bit", "miscselect"]),
    ("SoCVendorInfo", &["project_id", "soc_vendor_id", "stepping_id", "vendor_attributes", "vendor_brand"]),
    ("ThermalPowerInfo", &["dts_irq_threshold", "has_arat", "has_dts", "has_ecmd", "has_energy_bias_pref", "has_flexible_hwp", "has_hdc", "has_hw_coord_feedback", "has_hwp", "has_hwp_activity_window", "has_hwp_capabilities", "has_hwp_energy_performance_preference", "has_hwp_fast_access_mode", "has_hwp_notification", "has_hwp_package_level_request", "has_hwp_peci_override", "has_ignore_idle_processor_hwp_request", "has_pln", "has_ptm", "has_turbo_boost3"]),
    ("ExtendedTopologyLevel", &["next_apic_id", "number", "processors", "type", "x2apic_id"]),
    ("TscInfo", &["denominator", "nominal_frequency", "numerator", "tsc_frequency"]),
    ("VendorInfo", &["brand_string"]),
    ("ExtendedState", &["is_compacted_format", "is_in_ia32_xss", "is_in_xcr0", "offset", "size"]),
];
/// And what it names of AMD processors alone.
static SHOWN_AMD: &[(&str, &[&str])] = &[("ExtendedProcessorFeatureIdentifiers", &["pkg_type", "brand_id"])];
/// Flags that no text shows: group, leaf, sub-leaf, register, and bit or 32 for all.
static UNSHOWN: &[(&str, u32, u32, usize, u32)] = &[
    ("ext_features", 7, 0, EDX, 32), ("ext_features", 7, 1, EAX, 32), ("ext_features", 7, 1, EDX, 32), ("perf_mon", 0xa, 0, EBX, 32), ("perf_mon", 0xa, 0, EDX, 32),
    ("proc_trace", 0x14, 0, EBX, 32), ("proc_trace", 0x14, 0, ECX, 32), ("thermal_power", 6, 0, EAX, 1),
];
/// name -> value of the fields at the top level of a `{:#?}` text.
fn debug_fields(s: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let lines: Vec<&str> = s.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        let Some(rest) = l.strip_prefix("    ") else { continue };
        if rest.starts_with(' ') { continue; }
        let Some((n, v)) = rest.split_once(": ") else { continue };
        let mut v = v.trim_end_matches(',').to_string();
        if v == "Some(" && i + 2 < lines.len() && lines[i + 2].trim() == ")," { v = lines[i + 1].trim().trim_end_matches(',').to_string(); }
        if v == "(" && i + 3 < lines.len() && lines[i + 3].trim() == ")," { v = format!("({} {})", lines[i + 1].trim().trim_end_matches(','), lines[i + 2].trim().trim_end_matches(',')); }
        out.push((n.to_string(), v));
    }
    out
}
fn debug_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let r = TableReader::new(&c.t);
    let id = match caught(|| CpuId::with_cpuid_reader(r.clone())) { Ok(x) => x, Err(e) => { rep.fail("construction", format!("constructing panicked: {}", e)); return rep; } };
    let o = obs::observe_with(&id, &c.groups, &r, true);
    let names: BTreeMap<(&str, &str), &'static str> = o.m.keys().map(|k| ((k.g, k.f), k.f)).collect();
    let mut whole: BTreeMap<&str, &str> = BTreeMap::new();
    for (g, i, v) in &o.dbg {
        let V::S(text) = v else { rep.fail(format!("{}.debug", g), format!("printing {} panicked: {:?}", g, v)); return rep; };
        if *i == NOIDX && !whole.contains_key(g) { whole.insert(g, text); }
        if *g == "cache_info" { continue; }
        let fields = debug_fields(text);
        if let Some(name) = text.lines().next().and_then(|l| l.strip_suffix(" {")) {
            let amd = model::vendor(&c.t) == model::Ven::Amd;
            let find = |l: &'static [(&'static str, &'static [&'static str])]| l.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(&[]);
            for (wanted, there) in find(SHOWN).iter().map(|w| (w, true)).chain(find(SHOWN_AMD).iter().map(|w| (w, amd))) {
                rep.compared += 1;
                if fields.iter().any(|f| f.0 == **wanted) != there { rep.fail(format!("{}.{}.shown", g, wanted), format!("{} {} {} in {}", g, if there { "does not show" } else { "shows" }, wanted, iters::clip(text))); return rep; }
            }
        }
        // Names of flags stand for what the questions say.
        for l in text.lines().map(|l| l.trim().trim_end_matches(',')) {
            if l.is_empty() || !l.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || "_ |x".contains(c)) { continue; }
            for w in l.split(" | ") {
                let w = w.to_lowercase().replace('_', "");
                if !w.starts_with(|c: char| c.is_ascii_alphabetic()) { continue; }
                let said = names.iter().filter(|(k, _)| k.0 == *g && k.1.strip_prefix("has_").unwrap_or(k.1).replace('_', "") == w);
                for (_, f) in said {
                    // the bit is there, but means this on one vendor's processors only
                    if crate::spec::FLAGS.iter().any(|x| x.amd && x.g == *g && x.f == *f) { continue; }
                    if let Some(V::B(false)) = o.m.get(&Key { g, f, i: *i }) { rep.fail(format!("{}.{}.flag", g, f), format!("{}.{} is false, but {} prints {}", g, f, g, l)); return rep; }
                    rep.compared += 1;
                }
            }
        }
        for (n, shown) in fields {
            // The text of a structure names some questions with a little variation.
            let n2 = match (*g, n.as_str()) { ("vendor", "brand_string") => "as_str", ("brand", _) => "as_str", ("dca", "dca_cap_value") => "get_dca_cap_value",
                ("topology" | "topology_v2", "number") => "level_number", ("topology" | "topology_v2", "next_apic_id") => "shift_right_for_next_apic_id",
                ("topology" | "topology_v2", "type") => "level_type", ("soc", "soc_vendor_id") => "get_soc_vendor_id", ("soc", "project_id") => "get_project_id", ("soc", "stepping_id") => "get_stepping_id",
                (_, n) => n };
            let Some(f) = names.get(&(*g, n2)) else { continue };
            let key = Key { g, f, i: *i };
            let Some(ans) = o.m.get(&key) else { continue };
            let ok = match ans {
                V::B(b) => { if shown != "true" && shown != "false" { continue; } shown == b.to_string() }
                V::U(u) => { let num: Option<u128> = match shown.strip_prefix("0x") { Some(h) => u128::from_str_radix(h, 16).ok(), None => shown.parse().ok() }; let Some(num) = num else { continue }; num == *u }
                V::S(s) if shown.starts_with('"') => shown == format!("{:?}", s),
                V::S(s) => { if s == "None" || !s.chars().all(|c| c.is_ascii_alphanumeric()) || s.is_empty() { continue; } shown == *s || !shown.chars().all(|c| c.is_ascii_alphanumeric()) }
                _ => continue,
            };
            rep.compared += 1;
            rep.nontrivial = true;
            if !ok { rep.fail(format!("{}.{}", g, n), format!("{} is {:?}, but prints as {}", key, ans, shown)); return rep; }
        }
    }
    // A flag that a structure answers with shows in its text.
    let there: Vec<_> = crate::spec::FLAGS.iter().filter(|x| whole.contains_key(x.g) && !UNSHOWN.iter().any(|u| u.0 == x.g && u.1 == x.leaf && u.2 == x.sub && u.3 == x.reg && (u.4 == 32 || u.4 == x.bit))).collect();
    let mut h = Rng::new(c.hash64());
    for _ in 0..if there.is_empty() { 0 } else { 2 } {
        let x = h.pick(&there);
        let k = Key { g: x.g, f: x.f, i: NOIDX };
        let mut t = c.t.clone();
        t.set_reg(x.leaf, x.sub, x.reg, t.get(x.leaf, x.sub)[x.reg] ^ 1 << x.bit);
        let r = TableReader::new(&t);
        let Ok(id) = caught(|| CpuId::with_cpuid_reader(r.clone())) else { continue };
        let o2 = obs::observe_with(&id, &[x.g], &r, true);
        let (Some(V::B(was)), Some(V::B(is))) = (o.m.get(&k), o2.m.get(&k)) else { continue };
        if was == is { continue; }
        rep.compared += 1;
        let text = o2.dbg.iter().find_map(|y| match &y.2 { V::S(s) if y.1 == NOIDX => Some(s.as_str()), _ => None });
        if text == whole.get(x.g).copied() {
            rep.fail(format!("{}.{}.hidden", x.g, x.f), format!("{}.{} is {}, then {}, but {} prints {} both times", x.g, x.f, was, is, x.g, iters::clip(text.unwrap_or("")))); return rep; }
    }
    // The text of a list shows its items, all of them, and those of a structure that holds one too.
    for g in ["cache_info", "cache_params", "topology", "topology_v2", "xsave", "sgx", "dat", "ext_cpu_topo"] {
        let Some(text) = whole.get(g) else { continue };
        let mut items: Vec<&str> = o.dbg.iter().filter(|x| x.0 == g && x.1 < 0x100_0000).filter_map(|x| match &x.2 { V::S(s) => Some(s.as_str()), _ => None }).collect();
        if items.len() >= obs::ITER_LIMIT || o.m.get(&Key { g, f: "len", i: NOIDX }) != Some(&V::U(items.len() as u128)) { continue; }
        rep.compared += items.len() as u64;
        let inner = o.dbg.iter().find_map(|x| match &x.2 { V::S(s) if x.0 == g && x.1 == 0x100_0000 => Some(s.as_str()), _ => None });
        let ok = if g == "cache_info" {
            // their order means nothing
            let mut got: Vec<String> = text.split("\n    CacheInfo {").skip(1).map(|x| format!("CacheInfo {{{}", x.trim_end_matches(']').trim_end().trim_end_matches(',').replace("\n    ", "\n"))).collect();
            got.sort();
            items.sort();
            got.len() == items.len() && got.iter().zip(&items).all(|(a, b)| a == b)
        } else {
            let want = if items.is_empty() { "[]".to_string() } else { format!("[\n{}]", items.iter().map(|x| format!("    {},\n", x.replace('\n', "\n    "))).collect::<String>()) };
            inner.map(|i| i == want).unwrap_or(true) && if text.starts_with('[') { *text == want } else { text.contains(&want.replace('\n', "\n    ")) }
        };
        if !ok { rep.fail(format!("{}.items", g), format!("{} holds {} items, but not just those are in its text {}", g, items.len(), iters::clip(text))); return rep; }
    }
    r.refuel();
    if c.groups.len() < 2 && c.hash64() % 16 != 0 { return rep; }
    let text = match caught(|| format!("{:#?}", id)) { Ok(s) => s, Err(e) => { rep.fail("cpuid.debug", format!("printing the handle panicked: {}", e)); return rep; } };
    for (field, g) in FIELDS {
        if !c.groups.contains(g) { continue; }
        let want = match whole.get(g) {
            None => format!("\n    {}: None,\n", field),
            Some(t) => format!("\n    {}: Some(\n        {},\n    ),\n", field, t.replace('\n', "\n        ")),
        };
        rep.compared += 1;
        if !text.contains(&want) {
            let start = text.find(&format!("\n    {}:", field)).map(|k| iters::clip(&text[k..])).unwrap_or_else(|| "nothing".into());
            rep.fail(format!("cpuid.{}", field), format!("the handle prints {} where {} itself prints {}", start, g, iters::clip(&want)));
            return rep;
        }
    }
    rep
}

