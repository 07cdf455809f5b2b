//! The properties, each as a generator and a check.

use crate::answers::{compare, is_flag};
use crate::engine::{Case, Prop};
use crate::gen::{bound, rows_of, Gen, Rng};
use crate::model;
use crate::obs::Key;
use crate::spec::*;
use crate::table::*;

pub const VENDORS: u32 = 4;
pub const BGS: u64 = 4;

/// A processor on which every group of questions is answered.
pub fn full(g: &Gen, r: &mut Rng, vendor: u32, gs: &[&'static str], bg: u64) -> Table {
    let mut t = Table::new();
    for grp in gs {
        if bg >= 2 { g.fill_group(r, &mut t, grp); }
        else { for (l, s) in rows_of(grp) { t.set(l, s, if bg == 0 { [0; 4] } else { [u32::MAX; 4] }); } }
    }
    let row = g.vendor_row(r, Gen::vendor_of(vendor), 0x24);
    t.set(0, 0, row);
    t.set(0x8000_0000, 0, [0x8000_0030, row[1], row[2], row[3]]);
    for grp in gs {
        match *grp {
            "sgx" => *t.reg_mut(7, 0, EBX) |= 4,
            "svm" => *t.reg_mut(0x8000_0001, 0, ECX) |= 4,
            "hypervisor" => { *t.reg_mut(1, 0, ECX) |= 1 << 31; if t.get(0x4000_0000, 0)[EAX] < 0x4000_0010 { t.set_reg(0x4000_0000, 0, EAX, 0x4000_0010); } }
            _ => {}
        }
    }
    bound(&mut t);
    t
}

/// Every bit of every register a group reads, on every vendor, on every background.
fn bit_places(gs: &[&'static str]) -> Vec<(&'static str, u32, u32)> {
    gs.iter().flat_map(|g| rows_of(g).into_iter().map(move |(l, s)| (*g, l, s))).filter(|(_, l, _)| *l != 0 && *l != 0x8000_0000).collect()
}
/// Every value of a field of up to `wide` bits; edges and samples of a wider one.
fn field_places(gs: &[&'static str]) -> Vec<(&'static str, u32, u32, usize, u32, u32)> {
    let mut v: Vec<_> = NUMS.iter().filter(|n| gs.contains(&n.g)).map(|n| (n.g, n.leaf, n.sub, n.reg, n.lo, n.hi)).collect();
    for g in gs { v.extend(extra_fields(g)); }
    v
}
pub fn extra_fields(g: &'static str) -> Vec<(&'static str, u32, u32, usize, u32, u32)> {
    let f = |l: &[(u32, u32, usize, u32, u32)]| l.iter().map(|x| (g, x.0, x.1, x.2, x.3, x.4)).collect::<Vec<_>>();
    match g {
        "l1" => f(&[(0x8000_0005, 0, EAX, 8, 15), (0x8000_0005, 0, EAX, 24, 31), (0x8000_0005, 0, EBX, 8, 15), (0x8000_0005, 0, EBX, 24, 31), (0x8000_0005, 0, ECX, 16, 23), (0x8000_0005, 0, EDX, 16, 23)]),
        "l2l3" => f(&[(0x8000_0006, 0, EAX, 12, 15), (0x8000_0006, 0, EAX, 28, 31), (0x8000_0006, 0, EBX, 12, 15), (0x8000_0006, 0, EBX, 28, 31), (0x8000_0006, 0, ECX, 12, 15), (0x8000_0006, 0, EDX, 12, 15)]),
        "tlb1g" => f(&[(0x8000_0019, 0, EAX, 12, 15), (0x8000_0019, 0, EAX, 28, 31), (0x8000_0019, 0, EBX, 12, 15), (0x8000_0019, 0, EBX, 28, 31)]),
        "capacity" => f(&[(0x8000_0008, 0, ECX, 16, 17)]),
        "proc_topo" => f(&[(0x8000_001e, 0, EBX, 8, 15)]),
        "proc_trace" => f(&[(0x14, 0, EAX, 0, 7), (0x14, 1, EAX, 0, 2), (0x14, 1, EAX, 16, 31), (0x14, 1, EBX, 0, 15), (0x14, 1, EBX, 16, 31)]),
        "rdt_alloc" => f(&[(0x10, 1, EAX, 0, 4), (0x10, 1, EDX, 0, 15), (0x10, 2, EAX, 0, 4), (0x10, 2, EDX, 0, 15), (0x10, 3, EAX, 0, 11), (0x10, 3, EDX, 0, 15)]),
        "pqos" => f(&[(0x8000_0020, 3, EBX, 0, 7), (0x8000_0020, 5, EAX, 0, 7), (0x8000_0020, 5, EBX, 0, 15)]),
        "cache_params" => [4, 0x8000_001d].iter().flat_map(|l| f(&[(*l, 0, EAX, 0, 4), (*l, 0, EAX, 5, 7), (*l, 0, EAX, 14, 25), (*l, 0, EAX, 26, 31), (*l, 0, EBX, 0, 11), (*l, 0, EBX, 12, 21), (*l, 0, EBX, 22, 31), (*l, 1, EAX, 0, 4), (*l, 0, ECX, 0, 31)])).collect(),
        "topology" => f(&[(0xb, 0, ECX, 8, 15), (0xb, 1, ECX, 8, 15), (0xb, 0, ECX, 0, 7), (0xb, 0, EAX, 0, 4), (0xb, 0, EBX, 0, 15)]),
        "topology_v2" => f(&[(0x1f, 0, ECX, 8, 15), (0x1f, 1, ECX, 8, 15), (0x1f, 0, ECX, 0, 7), (0x1f, 0, EAX, 0, 4), (0x1f, 0, EBX, 0, 15)]),
        "ext_cpu_topo" => f(&[(0x8000_0026, 0, ECX, 8, 15), (0x8000_0026, 1, ECX, 8, 15), (0x8000_0026, 0, ECX, 0, 7), (0x8000_0026, 0, EAX, 0, 4), (0x8000_0026, 0, EBX, 0, 15), (0x8000_0026, 0, EBX, 16, 23), (0x8000_0026, 0, EBX, 24, 27), (0x8000_0026, 0, EBX, 28, 31)]),
        "sgx" => f(&[(0x12, 2, EAX, 0, 3), (0x12, 3, EAX, 0, 3)]),
        "soc" => f(&[(0x17, 0, EAX, 0, 7)]),
        "dat" => f(&[(0x18, 0, EAX, 0, 7), (0x18, 0, EDX, 0, 4), (0x18, 1, EDX, 0, 4), (0x18, 1, EDX, 5, 7), (0x18, 1, EDX, 14, 25), (0x18, 1, EBX, 8, 10), (0x18, 1, EBX, 16, 31)]),
        "xsave" => f(&[(0xd, 0, EAX, 0, 9), (0xd, 1, ECX, 8, 16)]),
        "cache_info" => (0..4).flat_map(|reg| f(&[(2, 0, reg, 0, 7), (2, 0, reg, 8, 15), (2, 0, reg, 16, 23), (2, 0, reg, 24, 31)])).collect(),
        "feature_info" => f(&[(1, 0, EAX, 8, 11), (1, 0, EAX, 4, 7), (1, 0, EAX, 16, 19), (1, 0, EAX, 20, 27)]),
        _ => vec![],
    }
}
const FIELD_VALS: u64 = 256;
fn field_vals(w: u32) -> u64 { if w <= 12 { 1 << w } else { FIELD_VALS } }
fn field_val(g: &Gen, r: &mut Rng, w: u32, k: u64) -> u32 {
    let max = ((1u64 << w) - 1) as u32;
    if w <= 12 { return k as u32; }
    match k { 0..=31 => (1u64 << k) as u32 & max, 32..=63 => max ^ ((1u64 << (k - 32)) as u32 & max), 64..=96 => (1u64 << (k - 64)).wrapping_sub(1) as u32 & max, _ => g.field(r, w) }
}

/// The systematic cases over some groups: every bit of every register, every value of every field.
pub struct Swept { bits: Vec<(&'static str, u32, u32)>, fields: Vec<(&'static str, u32, u32, usize, u32, u32)> }
impl Swept {
    pub fn new(gs: &[&'static str]) -> Swept { Swept { bits: bit_places(gs), fields: field_places(gs) } }
    const PER_ROW: u64 = 4 * 32 * VENDORS as u64 * BGS;
    fn rounds(thorough: bool) -> u64 { if thorough { 32 } else { 4 } }
    pub fn len(&self, thorough: bool) -> u64 {
        self.bits.len() as u64 * Self::PER_ROW + self.fields.iter().map(|f| field_vals(f.5 - f.4 + 1)).sum::<u64>() * Self::rounds(thorough)
    }
    pub fn case(&self, g: &Gen, r: &mut Rng, k: u64, thorough: bool) -> Case {
        let nb = self.bits.len() as u64 * Self::PER_ROW;
        if k < nb {
            let (grp, l, s) = self.bits[(k / Self::PER_ROW) as usize];
            let k = k % Self::PER_ROW;
            let (b, reg, v, bg) = (k % 32, (k / 32) % 4, (k / 128) % VENDORS as u64, k / 128 / VENDORS as u64);
            let mut t = full(g, r, v as u32, &[grp], bg);
            *t.reg_mut(l, s, reg as usize) ^= 1 << b;
            bound(&mut t);
            return Case { t, groups: vec![grp], ..Case::default() };
        }
        let mut k = k - nb;
        let rounds = Self::rounds(thorough);
        for (grp, l, s, reg, lo, hi) in &self.fields {
            let w = hi - lo + 1;
            let n = field_vals(w) * rounds;
            if k < n {
                let x = field_val(g, r, w, k / rounds);
                let v = [0, 1, 0, 1, 2, 3][(k % rounds) as usize % 6];
                let bg = if k % 2 == 0 && k % rounds < 2 { r.below(4) as u64 } else { 2 };
                let mut t = full(g, r, v, &[grp], bg);
                let m = (((1u64 << w) - 1) as u32) << lo;
                let y = t.get(*l, *s)[*reg];
                t.set_reg(*l, *s, *reg, (y & !m) | (x << lo));
                bound(&mut t);
                return Case { t, groups: vec![grp], ..Case::default() };
            }
            k -= n;
        }
        unreachable!()
    }
}

type Own = fn(&Key) -> bool;
pub const STANDIN: &str = "the CPUID reader given to the library stands in for the processor";

/// Further systematic cases of one property: how many (quick, thorough), and the k-th.
type More = (u64, u64, fn(&Gen, &mut Rng, u64) -> Table);

pub fn answers(id: &'static str, rule: &'static str, gs: &'static [&'static str], owns: Own, random: (u64, u64), more: More) -> Prop {
    let sw = std::sync::Arc::new(Swept::new(gs));
    let sw2 = sw.clone();
    Prop {
        id, rule, assumptions: &[STANDIN, "the reference model transcribes the Intel and AMD manuals"],
        sweep_len: Box::new(move |_, thorough| sw.len(thorough) + if thorough { more.1 } else { more.0 }),
        sweep: Box::new(move |g, r, k, thorough| {
            let n = sw2.len(thorough);
            if k < n { sw2.case(g, r, k, thorough) } else { Case { t: more.2(g, r, k - n), groups: gs.to_vec(), ..Case::default() } }
        }),
        random,
        gen: Box::new(move |g, r| Case { t: g.table(r, gs), groups: gs.to_vec(), ..Case::default() }),
        check: Box::new(move |c| compare(c, &owns)),
        single: false,
    }
}

const NONE: More = (0, 0, |_, _, _| Table::new());

/// A processor with one group filled in at random, on vendor `v` mod 4.
fn one(g: &Gen, r: &mut Rng, grp: &'static str, v: u64) -> Table { let bg = r.below(4) as u64; full(g, r, (v % 4) as u32, &[grp], bg) }

/// Family, extended family and vendor in all combinations (16384, 4 models each), then family, model,
/// extended model and vendor (16384).
const SIGNATURES: More = (16_384 * 5, 16_384 * 40, |g, r, k| {
    let k = k % (16_384 * 5);
    let mut t = one(g, r, "feature_info", k);
    let x = k / 4;
    let rest = r.u32();
    let v = if x < 16_384 { (rest & !0x0ff0_0f00) | ((x as u32 % 16) << 8) | ((x as u32 / 16 % 256) << 20) }
        else { let y = (x - 16_384) as u32 % 4096; (rest & !0x000f_0ff0) | ((y & 0xff) << 4) | ((y >> 8) << 16) };
    t.set_reg(1, 0, EAX, v);
    t
});

fn bytes_at(t: &mut Table, leaf: u32, regs: [usize; 3], s: &[u8]) {
    for (k, reg) in regs.into_iter().enumerate() { t.set_reg(leaf, 0, reg, u32::from_le_bytes([s[4 * k], s[4 * k + 1], s[4 * k + 2], s[4 * k + 3]])); }
}

/// Each byte in each place of a plain vendor string and of a brand string of four styles; each
/// two-byte and some longer sequences across each register border.
const TEXTS: More = (256 * 12 + 256 * 48 * 4 + 4096, 256 * 12 + 256 * 48 * 4 + 400_000, |g, r, k| {
    let mut t = one(g, r, "brand", 0);
    let mut brand = *b"  Some Vendor(R) Processor 1234 @ 2.60GHz       ";
    if k < 256 * 12 {
        let mut s = *crate::gen::VENDOR_STRINGS[r.below(4) as usize];
        s[(k / 256) as usize] = k as u8;
        bytes_at(&mut t, 0, [EBX, EDX, ECX], &s);
    } else if k < 256 * 12 + 256 * 48 * 4 {
        let k = k - 256 * 12;
        match k / 256 / 48 { 0 => {} 1 => brand = [b'x'; 48], 2 => brand[41..].fill(0), _ => { brand[20..].fill(0); brand[..3].fill(b'y'); } }
        brand[(k / 256 % 48) as usize] = k as u8;
    } else {
        let p = r.below(47) as usize;
        let c = char::from_u32(r.below(0x11_0000)).unwrap_or('\u{fffd}').to_string();
        let n = c.len().min(48 - p);
        brand[p..p + n].copy_from_slice(&c.as_bytes()[..n]);
        if r.one_in(3) { brand[r.below(48) as usize] = 0; }
        if r.one_in(4) { brand[p] ^= 1 << r.below(8); }
    }
    for l in 0..3 { for q in 0..4 { let b = 16 * l + 4 * q; t.set_reg(0x8000_0002 + l as u32, 0, q, u32::from_le_bytes([brand[b], brand[b + 1], brand[b + 2], brand[b + 3]])); } }
    t
});

/// Each hypervisor signature as it is, with any one bit flipped, and with its registers in any
/// order or mixed with another's; highest leaves around 0x4000_0010.
const SIGNED: More = (22 * 97 * 4 + 22 * 22 * 27, 22 * 97 * 16 + 22 * 22 * 27 * 4, |g, r, k| {
    let mut t = one(g, r, "hypervisor", r.clone().u64());
    let hv = crate::gen::HV_STRINGS;
    let n = hv.len() as u64;
    let mut s = *hv[(k % n) as usize];
    let j = k / n;
    if k < n * 97 * 4 { let b = j % 97; if b < 96 { s[b as usize / 8] ^= 1 << (b % 8); } }
    else {
        let j = k - n * 97 * 4;
        let o = hv[(j / n % n) as usize];
        let mut x = [0u8; 12];
        let mut perm = j / n / n % 27;
        for q in 0..3 { let p = (perm % 3) as usize; perm /= 3; let from = if r.one_in(3) { o } else { &s }; x[4 * q..4 * q + 4].copy_from_slice(&from[4 * p..4 * p + 4]); }
        s = x;
    }
    bytes_at(&mut t, 0x4000_0000, [EBX, ECX, EDX], &s);
    t.set_reg(0x4000_0000, 0, EAX, *r.pick(&[0x4000_000f, 0x4000_0010, 0x4000_0011, 0x4000_0000, 0, 0x10, u32::MAX]));
    t
});

/// Each descriptor byte in each of the sixteen places, over null, random and documented neighbours,
/// in valid and invalid registers; each pair of documented descriptors.
const DESCRIBED: More = (256 * 16 * 8 + 16_384, 256 * 16 * 8 + 120 * 120 * 16, |g, r, k| {
    let mut t = one(g, r, "cache_info", k);
    let d = |r: &mut Rng| crate::spec::DESCRIPTORS[r.below(crate::spec::DESCRIPTORS.len() as u32) as usize].0;
    let mut b = [0u8; 16];
    if k < 256 * 16 * 8 {
        let style = k / 4096;
        for x in b.iter_mut() { *x = match style % 4 { 0 => 0, 1 => r.u32() as u8, _ => d(r) }; }
        b[(k / 256 % 16) as usize] = k as u8;
        if style >= 4 { b[0] = 1; for q in 0..4 { b[4 * q + 3] &= 0x7f; } if k / 256 % 4 == 3 { b[(k / 256 % 16) as usize] = k as u8; } }
    } else {
        let n = crate::spec::DESCRIPTORS.len() as u64;
        let j = k - 256 * 16 * 8;
        let (p, q) = (1 + r.below(15) as usize, 1 + r.below(15) as usize);
        b[0] = 1;
        b[p] = crate::spec::DESCRIPTORS[(j % n) as usize].0;
        b[q] = crate::spec::DESCRIPTORS[(j / n % n) as usize].0;
        for q in 0..4 { if r.pct(85) { b[4 * q + 3] &= 0x7f; } }
    }
    for q in 0..4 { t.set_reg(2, 0, q, u32::from_le_bytes([b[4 * q], b[4 * q + 1], b[4 * q + 2], b[4 * q + 3]])); }
    t
});

/// Each pair of edge values of crystal, numerator and denominator.
const RATIOS: More = (40 * 40 * 8, 40 * 40 * 40, |g, r, k| {
    let mut t = one(g, r, "tsc", k);
    let e = |g: &Gen, r: &mut Rng, k: u64| match k % 40 { 0..=31 => (1u32 << (k % 40)).wrapping_sub(r.below(2)), 32 => 0, 33 => u32::MAX, 34 => 24_000_000, 35 => 38_400_000, _ => g.reg(r) };
    let row = [e(g, r, k), e(g, r, k / 40), e(g, r, k / 1600), g.reg(r)];
    t.set(0x15, 0, row);
    t
});

/// List lengths: up to 40 entries, terminated by each kind of terminator, followed by more.
fn listed(g: &Gen, r: &mut Rng, k: u64, grp: &'static str, leaf: u32, first: u32, reg: usize, lo: u32, hi: u32, tops: u32) -> Table {
    let mut t = one(g, r, grp, k);
    let n = (k / 4 % 41) as u32;
    let w = hi - lo + 1;
    let m = (((1u64 << w) - 1) as u32) << lo;
    for i in 0..n + 3 {
        let mut x = g.row_at(r, leaf, first + i);
        let v = if i == n { 0 } else { r.range(1, tops) };
        x[reg] = (x[reg] & !m) | (v << lo);
        t.set(leaf, first + i, x);
    }
    t
}
const CACHES: More = (41 * 4 * 24, 41 * 4 * 400, |g, r, k| { let l = if k % 4 == 1 || k % 4 == 2 { 0x8000_001d } else { 4 }; listed(g, r, k, "cache_params", l, 0, EAX, 0, 4, 3) });
const LEVELS: More = (41 * 4 * 24, 41 * 4 * 400, |g, r, k| {
    match k / 164 % 3 { 0 => listed(g, r, k, "topology", 0xb, 0, ECX, 8, 15, 5), 1 => listed(g, r, k, "topology_v2", 0x1f, 0, ECX, 8, 15, 5), _ => listed(g, r, k, "ext_cpu_topo", 0x8000_0026, 0, ECX, 8, 15, 4) }
});
const SECTIONS: More = (41 * 4 * 24, 41 * 4 * 400, |g, r, k| { let mut t = listed(g, r, k, "sgx", 0x12, 2, EAX, 0, 3, 1); if r.one_in(3) { let s = 2 + r.below(45); let v = t.get(0x12, s)[EAX]; t.set_reg(0x12, s, EAX, (v & !15) | r.below(16)); } t });
/// Every set of components among the documented ones, in XCR0 and in IA32_XSS.
const COMPONENTS: More = (1 << 15, 1 << 19, |g, r, k| {
    let mut t = one(g, r, "xsave", k);
    let bits: Vec<u32> = (2..=18).chain([r.below(32)]).collect();
    let mut m = r.u32() & r.u32() & 0xffff_0003;
    for (i, b) in bits.iter().enumerate() { if (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 19) >> i) & 1 == 1 { m |= 1 << b; } }
    let xcr0 = r.u32();
    t.set_reg(0xd, 0, EAX, m & xcr0);
    t.set_reg(0xd, 1, ECX, m & (!xcr0 | r.u32() & r.u32()));
    t
});
/// Announced sub-leaf counts from 0 to 40 on both lists, with null entries anywhere.
const ANNOUNCED: More = (41 * 200, 41 * 4000, |g, r, k| {
    let n = (k % 41) as u32;
    let grp = if k / 41 % 2 == 0 { "dat" } else { "soc" };
    let mut t = one(g, r, grp, k);
    let leaf = model::leaf_of(grp);
    for s in 0..n + 3 {
        let mut x = g.row_at(r, leaf, s);
        if grp == "dat" { x[EDX] = (x[EDX] & !31) | match r.below(5) { 0 => 0, 1 => r.below(32), _ => r.range(1, 5) }; }
        if s == 0 { x[EAX] = n; }
        t.set(leaf, s, x);
    }
    t
});

fn std_group(k: &Key) -> bool { model::leaf_of(k.g) < 0x4000_0000 }
const VERSION: &[&str] = &["family_id", "model_id", "extended_family_id", "extended_model_id", "base_family_id", "base_model_id", "stepping_id"];

const SWEPT: &str = "each bit of each register the answers come from, flipped on four vendors and four backgrounds; each value of each field up to 12 bits and edge values of wider ones; then random processors (edge-biased fields, dumps of real machines mutated, garbage in undefined leaves). Non-trivial: the structure is present and at least one compared answer is neither false, zero nor empty";

/// A systematic case of one of the properties that compare answers, whichever.
pub fn borrowed(sw: &Swept, g: &Gen, r: &mut Rng) -> Case {
    const MORE: [(&More, &[&str]); 10] = [(&SIGNATURES, &["feature_info"]), (&TEXTS, &["vendor", "brand"]), (&SIGNED, &["hypervisor"]), (&DESCRIBED, &["cache_info"]), (&CACHES, &["cache_params"]),
        (&LEVELS, &["topology", "topology_v2", "ext_cpu_topo"]), (&COMPONENTS, &["xsave"]), (&SECTIONS, &["sgx"]), (&ANNOUNCED, &["dat", "soc"]), (&RATIOS, &["tsc", "freq"])];
    if r.one_in(2) { let k = r.u64() % sw.len(false); return sw.case(g, r, k, false); }
    let (more, groups) = *r.pick(&MORE);
    let k = r.u64() % more.1;
    Case { t: (more.2)(g, r, k), groups: groups.to_vec(), ..Case::default() }
}

pub fn props() -> Vec<Prop> {
    let mut v = vec![
        answers("C03", SWEPT, &["feature_info", "monitor_mwait", "thermal_power", "ext_features", "perf_mon", "xsave", "rdt_mon", "rdt_alloc", "sgx", "proc_trace"],
            |k| (is_flag(k) || k.f == "present") && std_group(k), (150_000, 4_000_000), NONE),
        answers("C04", SWEPT, &["ext_ids", "apm", "capacity", "svm", "perf_opt", "ibs", "mem_enc", "pqos", "ext_feat_id2", "ext_perf_mon", "mem_multikey"],
            |k| (is_flag(k) || k.f == "present") && !std_group(k), (150_000, 4_000_000), NONE),
        answers("C05", SWEPT, &["feature_info", "serial", "monitor_mwait", "thermal_power", "ext_features", "dca", "perf_mon", "proc_trace",
            "cache_params", "topology", "topology_v2", "xsave", "rdt_mon", "rdt_alloc", "sgx", "tsc", "freq"],
            |k| !is_flag(k), (300_000, 6_000_000), NONE),
        answers("C06", SWEPT, &["ext_ids", "apm", "capacity", "svm", "proc_topo", "mem_enc", "ext_feat_id2", "ext_perf_mon", "mem_multikey", "l1", "l2l3", "pqos", "ext_cpu_topo"],
            |k| !is_flag(k), (250_000, 6_000_000), NONE),
        answers("C07", SWEPT, &["feature_info"], |k| VERSION.contains(&k.f) || k.f == "present", (1_000_000, 20_000_000), SIGNATURES),
        answers("C08", SWEPT, &["vendor", "brand"], |_| true, (500_000, 10_000_000), TEXTS),
        answers("C09", SWEPT, &["hypervisor"], |_| true, (500_000, 10_000_000), SIGNED),
        answers("C10", SWEPT, &["cache_info"], |_| true, (150_000, 4_000_000), DESCRIBED),
        answers("C11", SWEPT, &["cache_params"], |_| true, (150_000, 4_000_000), CACHES),
        answers("C12", SWEPT, &["topology", "topology_v2", "ext_cpu_topo"], |_| true, (150_000, 4_000_000), LEVELS),
        answers("C13", SWEPT, &["xsave"], |_| true, (100_000, 3_000_000), COMPONENTS),
        answers("C14", SWEPT, &["rdt_mon", "rdt_alloc", "pqos"], |_| true, (250_000, 6_000_000), NONE),
        answers("C15", SWEPT, &["sgx"], |_| true, (150_000, 4_000_000), SECTIONS),
        answers("C16", SWEPT, &["l1", "l2l3", "tlb1g"], |_| true, (300_000, 8_000_000), NONE),
        answers("C17", SWEPT, &["dat", "soc"], |_| true, (60_000, 2_000_000), ANNOUNCED),
        answers("C18", SWEPT, &["tsc", "freq"], |_| true, (1_000_000, 20_000_000), RATIOS),
    ];
    v.extend(crate::props2::props());
    v.extend(crate::report::props());
    v.extend(crate::props3::props());
    v.extend(crate::equal::props());
    v.extend(crate::fresh::props());
    v.extend(crate::sound::props());
    v.extend(crate::names::props());
    v.extend(crate::threads::props());
    v.extend(crate::narrow::props());
    v.extend(crate::elsewhere::props());
    v
}
