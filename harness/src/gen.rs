//! Generators: whole processors, made so that the interesting parts of the library are reached.

use crate::model;
use crate::spec::{FLAGS, NUMS, DESCRIPTORS};
use crate::table::*;
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); mix(self.0) }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn below(&mut self, n: u32) -> u32 { ((self.u64() >> 32) * n as u64 >> 32) as u32 }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 { lo + self.below(hi - lo + 1) }
    pub fn one_in(&mut self, n: u32) -> bool { self.below(n) == 0 }
    pub fn pct(&mut self, p: u32) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u32) as usize] }
}

/// Constants that occur in the source of the library: a dictionary for the generator, as
/// fuzzers keep one. It only changes which inputs are tried, never what is expected of them.
pub struct Dict { pub ints: Vec<u32>, pub strs: Vec<Vec<u8>> }

impl Dict {
    pub fn load(src: &str) -> Dict {
        let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
        for f in sources(std::path::Path::new(src)) {
            let Ok(text) = std::fs::read_to_string(f) else { continue };
            for line in text.lines() {
                let line = line.trim_start();
                if line.starts_with("//") { continue; }
                scan_ints(line, &mut ints);
                for (k, part) in line.split('"').enumerate() {
                    if k % 2 == 1 && (4..=16).contains(&part.len()) { strs.insert(part.as_bytes().to_vec()); }
                }
            }
        }
        let mut more = ints.clone();
        for i in ints.iter().filter(|i| **i > 0x100) { more.insert(i.wrapping_sub(1)); more.insert(i.wrapping_add(1)); }
        Dict { ints: more.into_iter().collect(), strs: strs.into_iter().collect() }
    }
}

/// The files of the library, but for those that print tables, the tool and the tests.
fn sources(dir: &std::path::Path) -> Vec<std::path::PathBuf> {
    let mut out = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let (p, name) = (e.path(), e.file_name().to_string_lossy().into_owned());
        if ["bin", "tests", "display"].iter().any(|x| name.trim_end_matches(".rs") == *x) { continue; }
        if p.is_dir() { out.extend(sources(&p)); } else if name.ends_with(".rs") { out.push(p); }
    }
    out
}

fn scan_ints(line: &str, out: &mut BTreeSet<u32>) {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1; }
            let w: String = b[i..j].iter().filter(|c| **c != '_').collect();
            let w = w.trim_end_matches("u32").trim_end_matches("u64").trim_end_matches("u16").trim_end_matches("usize").to_string();
            let w = if w.starts_with("0x") { w } else { w.trim_end_matches("u8").to_string() };
            let v = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16) }
                else if let Some(h) = w.strip_prefix("0b") { u64::from_str_radix(h, 2) } else { w.parse() };
            if let Ok(v) = v { if v <= u32::MAX as u64 { out.insert(v as u32); } }
            i = j;
        } else { i += 1; }
    }
}

pub struct Gen { pub dict: Dict, pub dumps: Vec<Table>, fields: std::collections::HashMap<(u32, u32, usize), Vec<(u32, u32)>> }

fn parse_dump(s: &str) -> Table {
    let mut t = Table::new();
    for l in s.lines() {
        let w: Vec<u32> = l.split_whitespace().map(|x| u32::from_str_radix(x, 16).unwrap()).collect();
        t.set(w[0], w[1], [w[2], w[3], w[4], w[5]]);
    }
    t
}

pub const VENDOR_STRINGS: &[&[u8; 12]] = &[
    b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls", b"  Shanghai  ", b"VIA VIA VIA ", b"CyrixInstead", b"GenuineTMx86",
    b"TransmetaCPU", b"AMDisbetter!", b"UMC UMC UMC ", b"NexGenDriven", b"RiseRiseRise", b"SiS SiS SiS ", b"Geode by NSC", b"Vortex86 SoC",
    b"MiSTer AO486", b"GenuineIotel", b"VirtualApple", b"Genuine  RDC", b"\0\0\0\0\0\0\0\0\0\0\0\0", b"KVMKVMKVM\0\0\0",
];
pub const HV_STRINGS: &[&[u8; 12]] = &[
    b"VMwareVMware", b"XenVMMXenVMM", b"Microsoft Hv", b"KVMKVMKVM\0\0\0", b"TCGTCGTCGTCG", b"bhyve bhyve ", b"BHyVE BHyVE ", b"QNXQVMBSQG\0\0",
    b"ACRNACRNACRN", b" lrpepyh  vr", b" prl hyperv ", b"VBoxVBoxVBox", b"Linux KVM Hv", b"NVMMNVMMNVMM", b"OpenBSDVMM58", b"Jailhouse\0\0\0",
    b"UnisysSpar64", b"SRESRESRESRE", b"EVMMEVMMEVMM", b"HAXMHAXMHAXM", b"AppleVZ\0\0\0\0\0", b"\0\0\0\0\0\0\0\0\0\0\0\0",
];

/// Rows (leaf, subleaf) a group of questions is answered from, apart from lists.
pub fn rows_of(g: &str) -> Vec<(u32, u32)> {
    let mut s: BTreeSet<(u32, u32)> = BTreeSet::new();
    for f in FLAGS.iter().filter(|f| f.g == g) { s.insert((f.leaf, f.sub)); }
    for n in NUMS.iter().filter(|n| n.g == g) { s.insert((n.leaf, n.sub)); }
    s.insert((model::leaf_of(g), 0));
    match g {
        "brand" => for l in 0x8000_0002..=0x8000_0004 { s.insert((l, 0)); },
        "hypervisor" => { s.insert((0x4000_0010, 0)); }
        "rdt_mon" => { s.insert((0xf, 1)); }
        "rdt_alloc" => for k in 1..=3 { s.insert((0x10, k)); },
        "pqos" => for k in [1, 2, 3, 5] { s.insert((0x8000_0020, k)); },
        "proc_trace" => { s.insert((0x14, 1)); }
        "sgx" => { s.insert((0x12, 1)); s.insert((7, 0)); }
        "soc" => for k in 1..=6 { s.insert((0x17, k)); },
        "serial" => { s.insert((1, 0)); }
        "cache_params" => { s.insert((4, 0)); s.insert((4, 1)); s.insert((0x8000_001d, 0)); s.insert((0x8000_001d, 1)); }
        "topology" => { s.insert((0xb, 1)); }
        "topology_v2" => { s.insert((0x1f, 1)); }
        "ext_cpu_topo" => { s.insert((0x8000_0026, 1)); }
        "dat" => for k in 1..=3 { s.insert((0x18, k)); },
        "xsave" => for k in 1..=18 { s.insert((0xd, k)); },
        _ => {}
    }
    s.into_iter().collect()
}

impl Gen {
    pub fn new(src: &str) -> Gen {
        let dict = Dict::load(src);
        let dumps = [include_str!("../dumps/i7_12700k.txt"), include_str!("../dumps/ryzen_matisse.txt"), include_str!("../dumps/xeon_gold_6252.txt")]
            .iter().map(|s| parse_dump(s)).collect();
        let mut fields: std::collections::HashMap<_, Vec<(u32, u32)>> = Default::default();
        for n in NUMS { fields.entry((n.leaf, n.sub, n.reg)).or_default().push((n.lo, n.hi)); }
        // fields that only model.rs describes
        for (leaf, sub, reg, lo, hi) in [
            (0x8000_0005, 0, EAX, 8, 15), (0x8000_0005, 0, EAX, 24, 31), (0x8000_0005, 0, EBX, 8, 15), (0x8000_0005, 0, EBX, 24, 31),
            (0x8000_0005, 0, ECX, 16, 23), (0x8000_0005, 0, EDX, 16, 23),
            (0x8000_0006, 0, EAX, 12, 15), (0x8000_0006, 0, EAX, 28, 31), (0x8000_0006, 0, EBX, 12, 15), (0x8000_0006, 0, EBX, 28, 31),
            (0x8000_0006, 0, ECX, 12, 15), (0x8000_0006, 0, EDX, 12, 15), (0x8000_0019, 0, EAX, 12, 15), (0x8000_0019, 0, EAX, 28, 31),
            (0x8000_0019, 0, EBX, 12, 15), (0x8000_0019, 0, EBX, 28, 31), (0x8000_0008, 0, ECX, 16, 17), (0x8000_001e, 0, EBX, 8, 15),
            (0x14, 1, EAX, 0, 2), (0x14, 1, EAX, 16, 31), (0x14, 1, EBX, 0, 15), (0x14, 1, EBX, 16, 31),
            (0x10, 1, EAX, 0, 4), (0x10, 1, EDX, 0, 15), (0x10, 2, EAX, 0, 4), (0x10, 2, EDX, 0, 15), (0x10, 3, EAX, 0, 11), (0x10, 3, EDX, 0, 15),
            (0x8000_0020, 3, EBX, 0, 7), (0x8000_0020, 5, EAX, 0, 7), (0x8000_0020, 5, EBX, 0, 15),
        ] { fields.entry((leaf, sub, reg)).or_default().push((lo, hi)); }
        Gen { dict, dumps, fields }
    }

    /// A value for a field of w bits, leaning to the edges.
    pub fn field(&self, r: &mut Rng, w: u32) -> u32 {
        let max = ((1u64 << w) - 1) as u32;
        match r.below(10) {
            0 => 0, 1 => max, 2 => 1 & max, 3 => max - 1, 4 => 1 << r.below(w), 5 => max >> r.below(w), 6 => max ^ (1 << r.below(w)),
            7 if !self.dict.ints.is_empty() => *r.pick(&self.dict.ints) & max,
            8 => r.u32() & max & 0x1f,
            _ => r.u32() & max,
        }
    }
    /// A register with no structure known.
    pub fn reg(&self, r: &mut Rng) -> u32 {
        match r.below(13) {
            0 => 0, 1 => u32::MAX, 2 => 1 << r.below(32), 3 => !(1u32 << r.below(32)), 4 => r.u32() & r.u32() & r.u32(), 5 => r.u32() | r.u32() | r.u32(),
            6 => r.below(64), 7 => (1u64 << r.below(33)).wrapping_sub(1) as u32,
            8 => u32::from_le_bytes([b' ' + r.below(95) as u8, b' ' + r.below(95) as u8, b' ' + r.below(95) as u8, b' ' + r.below(95) as u8]),
            9 if !self.dict.ints.is_empty() => *r.pick(&self.dict.ints),
            10 if !self.dict.ints.is_empty() => *r.pick(&self.dict.ints) ^ (1 << r.below(32)),
            _ => r.u32(),
        }
    }
    /// A register of a given place: field by field where the fields are known.
    pub fn reg_at(&self, r: &mut Rng, leaf: u32, sub: u32, reg: usize) -> u32 {
        match self.fields.get(&(leaf, sub, reg)) {
            Some(fs) if r.pct(65) => {
                let mut v = if r.pct(50) { self.reg(r) } else { 0 };
                for (lo, hi) in fs {
                    let w = hi - lo + 1;
                    let m = (((1u64 << w) - 1) as u32) << lo;
                    v = (v & !m) | (self.field(r, w) << lo);
                }
                v
            }
            _ => self.reg(r),
        }
    }
    pub fn row_at(&self, r: &mut Rng, leaf: u32, sub: u32) -> Regs {
        let mut x = [0; 4];
        for (k, v) in x.iter_mut().enumerate() { *v = self.reg_at(r, leaf, sub, k); }
        if r.one_in(40) { x = [0; 4]; }
        if r.one_in(40) { x = [u32::MAX; 4]; }
        x
    }

    pub fn vendor_row(&self, r: &mut Rng, s: &[u8], max: u32) -> Regs {
        let _ = r;
        let w = |k: usize| u32::from_le_bytes([s[k], s[k + 1], s[k + 2], s[k + 3]]);
        [max, w(0), w(8), w(4)]
    }
    pub fn vendor_string(&self, r: &mut Rng) -> Vec<u8> {
        match r.below(20) {
            0..=7 => b"GenuineIntel".to_vec(),
            8..=12 => b"AuthenticAMD".to_vec(),
            13 | 14 => b"HygonGenuine".to_vec(),
            15 => { // almost a known one
                let mut s = r.pick(&VENDOR_STRINGS[..4]).to_vec();
                match r.below(4) {
                    0 => { let k = r.below(12) as usize; s[k] ^= 1 << r.below(8); }
                    1 => { let k = r.below(12) as usize; s[k] ^= 0x20; }
                    2 => { let (a, b) = (r.below(12) as usize, r.below(12) as usize); s.swap(a, b); }
                    _ => { s.rotate_left(4); }
                }
                s
            }
            16 if r.one_in(2) && self.dict.strs.iter().any(|s| s.len() == 12) => { let c: Vec<_> = self.dict.strs.iter().filter(|s| s.len() == 12).collect(); r.pick(&c).to_vec() }
            16 | 17 => r.pick(VENDOR_STRINGS).to_vec(),
            18 => (0..12).map(|_| b' ' + r.below(95) as u8).collect(),
            _ => (0..12).map(|_| r.u32() as u8).collect(),
        }
    }
    pub fn vendor_of(k: u32) -> &'static [u8; 12] { [b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls"][k as usize % 4] }

    /// UTF-8 in places, also outside ASCII, cut anywhere.
    pub fn text_bytes(&self, r: &mut Rng, n: usize) -> Vec<u8> {
        let mut out: Vec<u8> = Vec::new();
        let style = r.below(8);
        while out.len() < n {
            match style {
                0 => out.push(r.u32() as u8),
                1 => { let c = char::from_u32(r.below(0x3000)).unwrap_or('x'); out.extend(c.to_string().bytes()); }
                2 => out.extend(["é", "\u{2122}", "\u{ae}", "\u{1F600}", "a", " "][r.below(6) as usize].bytes()),
                _ => out.push(b' ' + r.below(95) as u8),
            }
        }
        out.truncate(n);
        match r.below(8) {
            0 => {}
            1 => for b in out.iter_mut() { *b = 0 },
            2 | 3 => { let k = r.below(n as u32 + 1) as usize; for b in out[k..].iter_mut() { *b = 0 } }
            4 => { let k = r.below(n as u32) as usize; out[k] = 0; }
            5 => { let k = r.below(n as u32) as usize; for b in out[..k].iter_mut() { *b = b' ' } }
            6 => { let k = r.below(n as u32) as usize; for b in out[k..].iter_mut() { *b = b' ' } let z = r.below(n as u32) as usize; out[z] = 0; }
            _ => { let k = r.below(n as u32) as usize; out[k] = [b'\t', b'\n', 0x7f, 0x80, 0xff, 0xc2, 0xe2, 0x0b][r.below(8) as usize]; }
        }
        out
    }
    fn put_bytes(t: &mut Table, leaf: u32, sub: u32, b: &[u8]) {
        let w = |k: usize| u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]);
        t.set(leaf, sub, [w(0), w(4), w(8), w(12)]);
    }

    fn set_field(v: u32, lo: u32, hi: u32, x: u32) -> u32 {
        let w = hi - lo + 1;
        let m = (((1u64 << w) - 1) as u32) << lo;
        (v & !m) | ((x << lo) & m)
    }

    /// The length of a list: short mostly, long sometimes.
    fn list_len(r: &mut Rng) -> u32 { if r.one_in(80) { return r.range(254, 300); } match r.below(10) { 0 => 0, 1 => r.range(6, 40), 2 => r.range(1, 2), _ => r.range(1, 6) } }

    /// Fills what a group of questions reads, with the structure that group needs.
    pub fn fill_group(&self, r: &mut Rng, t: &mut Table, g: &str) {
        match g {
            "vendor" => {}
            "cache_info" => {
                let mut bytes = [0u8; 16];
                let style = r.below(4);
                for b in bytes.iter_mut() {
                    *b = match style { 0 => r.u32() as u8, 1 => DESCRIPTORS[r.below(DESCRIPTORS.len() as u32) as usize].0,
                        2 => if r.one_in(3) { 0 } else { DESCRIPTORS[r.below(DESCRIPTORS.len() as u32) as usize].0 },
                        _ => if r.one_in(4) { r.u32() as u8 } else if r.one_in(3) { 0 } else { DESCRIPTORS[r.below(DESCRIPTORS.len() as u32) as usize].0 } };
                }
                if r.pct(80) { bytes[0] = 1; }
                // Valid registers have bit 31 clear.
                for k in 0..4 { if r.pct(75) { bytes[k * 4 + 3] &= 0x7f; } }
                Self::put_bytes(t, 2, 0, &bytes);
            }
            "cache_params" => {
                for leaf in [4, 0x8000_001d] {
                    let n = Self::list_len(r);
                    for i in 0..n {
                        let mut x = self.row_at(r, leaf, i);
                        for (reg, lo, hi) in [(EAX, 5, 7), (EAX, 14, 25), (EAX, 26, 31), (EBX, 0, 11), (EBX, 12, 21), (EBX, 22, 31)] {
                            if r.pct(60) { x[reg] = Self::set_field(x[reg], lo, hi, self.field(r, hi - lo + 1)); }
                        }
                        if r.pct(30) { x[ECX] = self.field(r, 16); }
                        let ty = if r.one_in(60) { r.range(4, 31) } else { r.range(1, 3) };
                        x[EAX] = Self::set_field(x[EAX], 0, 4, ty);
                        t.set(leaf, i, x);
                    }
                    let mut x = self.row_at(r, leaf, n);
                    x[EAX] = Self::set_field(x[EAX], 0, 4, if r.one_in(6) { r.range(4, 31) } else { 0 });
                    t.set(leaf, n, x);
                    if r.pct(40) { t.set(leaf, n + 1, self.row_at(r, leaf, n + 1)); }
                }
            }
            "topology" | "topology_v2" | "ext_cpu_topo" => {
                let leaf = model::leaf_of(g);
                let n = Self::list_len(r);
                let top = if g == "ext_cpu_topo" { 4 } else { 5 };
                for i in 0..n {
                    let mut x = self.row_at(r, leaf, i);
                    let ty = if r.one_in(40) { r.range(top + 1, 255) } else if r.pct(40) { (i + 1).min(top) } else { r.range(1, top) };
                    x[ECX] = Self::set_field(x[ECX], 8, 15, ty);
                    if r.pct(60) { x[ECX] = Self::set_field(x[ECX], 0, 7, i); }
                    if r.pct(50) { x[EBX] = Self::set_field(x[EBX], 0, 15, self.field(r, 16)); }
                    if r.pct(50) { x[EAX] = Self::set_field(x[EAX], 0, 4, self.field(r, 5)); }
                    t.set(leaf, i, x);
                }
                let mut x = self.row_at(r, leaf, n);
                x[ECX] = Self::set_field(x[ECX], 8, 15, 0);
                t.set(leaf, n, x);
                if r.pct(40) { t.set(leaf, n + 1, self.row_at(r, leaf, n + 1)); }
            }
            "xsave" => {
                for s in 0..2 { t.set(0xd, s, self.row_at(r, 0xd, s)); }
                if r.pct(50) { *t.reg_mut(0xd, 0, EAX) &= 0x602ff; }
                if r.pct(50) { *t.reg_mut(0xd, 1, ECX) &= 0x1fd00; }
                for k in 2..32 {
                    let want = k < 19 || r.one_in(3);
                    if !want { continue; }
                    let mut x = self.row_at(r, 0xd, k);
                    if r.pct(60) { x[ECX] &= 7; }
                    t.set(0xd, k, x);
                }
            }
            "sgx" => {
                t.set(7, 0, self.row_at(r, 7, 0));
                if r.pct(85) { *t.reg_mut(7, 0, EBX) |= 4; }
                t.set(0x12, 0, self.row_at(r, 0x12, 0));
                t.set(0x12, 1, self.row_at(r, 0x12, 1));
                let n = Self::list_len(r);
                for i in 0..n {
                    let mut x = self.row_at(r, 0x12, 2 + i);
                    let ty = if r.one_in(30) { r.range(2, 15) } else { 1 };
                    x[EAX] = Self::set_field(x[EAX], 0, 3, ty);
                    t.set(0x12, 2 + i, x);
                }
                let mut x = self.row_at(r, 0x12, 2 + n);
                x[EAX] = Self::set_field(x[EAX], 0, 3, if r.one_in(6) { r.range(2, 15) } else { 0 });
                t.set(0x12, 2 + n, x);
                if r.pct(40) { t.set(0x12, 3 + n, self.row_at(r, 0x12, 3 + n)); }
            }
            "soc" => {
                let max = match r.below(8) { 0 => r.below(4), 1 => 3, 2 => match r.below(6) { 0 => 65536 + r.below(10), 1 => 256 + r.below(10), _ => r.range(20, 200) }, _ => r.range(3, 9) };
                let mut x = self.row_at(r, 0x17, 0);
                x[EAX] = max;
                t.set(0x17, 0, x);
                let b = self.text_bytes(r, 48);
                for k in 0..3 { Self::put_bytes(t, 0x17, k + 1, &b[16 * k as usize..16 * k as usize + 16]); }
                for k in 4..=max.min(12) + 1 { t.set(0x17, k, self.row_at(r, 0x17, k)); }
            }
            "dat" => {
                let max = match r.below(8) { 0 => 0, 1 => match r.below(8) { 0 => 65536 + r.below(10), 1 => 256 + r.below(10), _ => r.range(20, 200) }, _ => r.range(1, 9) };
                for k in 0..=max.min(14) + 1 {
                    let mut x = self.row_at(r, 0x18, k);
                    let ty = match r.below(8) { 0 => 0, 1 => r.range(6, 31), _ => r.range(1, 5) };
                    x[EDX] = Self::set_field(x[EDX], 0, 4, ty);
                    for (reg, lo, hi) in [(EBX, 8, 10), (EBX, 16, 31), (EDX, 5, 7), (EDX, 14, 25)] {
                        if r.pct(50) { x[reg] = Self::set_field(x[reg], lo, hi, self.field(r, hi - lo + 1)); }
                    }
                    if k == 0 { x[EAX] = max; }
                    t.set(0x18, k, x);
                }
            }
            "hypervisor" => {
                t.set(1, 0, self.row_at(r, 1, 0));
                if r.pct(85) { *t.reg_mut(1, 0, ECX) |= 1 << 31; }
                let max = match r.below(8) { 0 => 0, 1 => self.reg(r), 2 => 0x4000_000f, 3 => 0x4000_0010, 4 => 0x4000_0011, 5 => 1, _ => 0x4000_0000 + r.below(0x40) };
                let mut s: Vec<u8> = match r.below(8) {
                    0 => self.text_bytes(r, 12),
                    1 if self.dict.strs.iter().any(|s| s.len() == 12) => { let c: Vec<_> = self.dict.strs.iter().filter(|s| s.len() == 12).collect(); r.pick(&c).to_vec() }
                    _ => r.pick(HV_STRINGS).to_vec(),
                };
                match r.below(8) {
                    0 => { let k = r.below(12) as usize; s[k] ^= 1 << r.below(8); }
                    1 => { let k = r.below(3) as usize * 4; s[k..].rotate_left(4.min(12 - k)); }
                    2 => { let o = *r.pick(HV_STRINGS); let k = r.below(3) as usize * 4; s[k..k + 4].copy_from_slice(&o[k..k + 4]); }
                    _ => {}
                }
                let w = |k: usize| u32::from_le_bytes([s[k], s[k + 1], s[k + 2], s[k + 3]]);
                t.set(0x4000_0000, 0, [max, w(0), w(4), w(8)]);
                t.set(0x4000_0010, 0, self.row_at(r, 0x4000_0010, 0));
            }
            "brand" => {
                let b = self.text_bytes(r, 48);
                for k in 0..3 { Self::put_bytes(t, 0x8000_0002 + k, 0, &b[16 * k as usize..16 * k as usize + 16]); }
            }
            "tsc" => {
                let mut x = self.row_at(r, 0x15, 0);
                if r.pct(40) { x = [r.below(16), self.field(r, 12), self.field(r, 28), 0]; }
                t.set(0x15, 0, x);
            }
            "serial" => t.set(3, 0, self.row_at(r, 3, 0)),
            "feature_info" => {
                t.set(1, 0, self.row_at(r, 1, 0));
                if r.pct(70) {
                    let base = *r.pick(&[0xf, 0xf, 0xf, 6, 6, 5, 0, 4, 0xe, 7]);
                    let ext = if r.pct(60) { r.below(16) } else { self.field(r, 8) };
                    let v = t.get(1, 0)[EAX];
                    let v = Self::set_field(v, 8, 11, base);
                    t.set_reg(1, 0, EAX, Self::set_field(v, 20, 27, ext));
                }
            }
            "rdt_mon" | "rdt_alloc" | "pqos" => {
                for (l, s) in rows_of(g) { t.set(l, s, self.row_at(r, l, s)); }
                if r.pct(70) {
                    match g { "rdt_mon" => *t.reg_mut(0xf, 0, EDX) |= 2, "rdt_alloc" => *t.reg_mut(0x10, 0, EBX) |= r.below(16), _ => *t.reg_mut(0x8000_0020, 0, EBX) |= r.below(128) }
                }
            }
            "proc_trace" => {
                for (l, s) in rows_of(g) { t.set(l, s, self.row_at(r, l, s)); }
                if r.pct(70) { t.set_reg(0x14, 0, EAX, r.below(4)); }
            }
            "svm" => {
                for (l, s) in rows_of(g) { t.set(l, s, self.row_at(r, l, s)); }
                t.set(0x8000_0001, 0, self.row_at(r, 0x8000_0001, 0));
                if r.pct(85) { *t.reg_mut(0x8000_0001, 0, ECX) |= 4; }
            }
            _ => for (l, s) in rows_of(g) { t.set(l, s, self.row_at(r, l, s)); },
        }
    }

    /// Largest leaf numbers.
    pub fn max_std(&self, r: &mut Rng) -> u32 {
        match r.below(12) { 0 => r.below(0x24), 1 => u32::MAX, 2 => self.reg(r), 3 => 0x8000_0000 - r.below(2), _ => r.range(0x1f, 0x24) }
    }
    pub fn max_ext(&self, r: &mut Rng) -> u32 {
        match r.below(12) { 0 => 0x8000_0000 + r.below(0x28), 1 => u32::MAX, 2 => self.reg(r), 3 => [0, 0x7fff_ffff, 0x8000_0000][r.below(3) as usize], _ => 0x8000_0026 + r.below(4) }
    }
    /// As a random processor whose groups `gs` (all groups that matter) are filled in.
    pub fn table(&self, r: &mut Rng, gs: &[&'static str]) -> Table {
        let mut t = if r.one_in(6) { self.dumps[r.below(self.dumps.len() as u32) as usize].clone() } else { Table::new() };
        let from_dump = !t.m.is_empty();
        if r.pct(30) { t.noise = Some(r.u64() >> 12); }
        if !from_dump || r.pct(50) {
            let v = self.vendor_string(r);
            let max = self.max_std(r);
            let row = self.vendor_row(r, &v, max);
            t.set(0, 0, row);
        }
        if !from_dump || r.pct(50) {
            let mut row = self.row_at(r, 0x8000_0000, 0);
            row[EAX] = self.max_ext(r);
            if r.pct(50) { let z = t.get(0, 0); row = [row[EAX], z[1], z[2], z[3]]; }
            t.set(0x8000_0000, 0, row);
        }
        for g in gs {
            if from_dump && r.pct(40) { continue; }
            self.fill_group(r, &mut t, g);
        }
        if from_dump {
            for _ in 0..r.below(8) { self.mutate(r, &mut t); }
        }
        self.company(r, &mut t, |_, _| false);
        bound(&mut t);
        t
    }
    /// What a processor may be told by: its signature, its brand, and what it runs under. Leaves
    /// that `keep` names stay as they are.
    pub fn signature(&self, r: &mut Rng) -> u32 {
        if r.one_in(2) && self.dict.ints.iter().any(|v| *v > 0xff) {
            loop { let v = *r.pick(&self.dict.ints); if v > 0xff { return v; } }
        }
        let (model, step) = (r.below(256), r.below(16));
        let (base, ext) = match r.below(4) { 0 | 1 => (6, 0), 2 => (0xf, r.below(13)), _ => (r.below(16), 0) };
        ext << 20 | (model >> 4) << 16 | base << 8 | (model & 15) << 4 | step
    }
    pub fn company(&self, r: &mut Rng, t: &mut Table, keep: impl Fn(u32, u32) -> bool) {
        if r.one_in(4) && !keep(1, 0) { let v = self.signature(r); t.set_reg(1, 0, EAX, v); }
        if r.one_in(8) && !self.dict.strs.is_empty() && (0x8000_0002..=0x8000_0004).all(|l| !keep(l, 0)) {
            let mut b: Vec<u8> = match r.below(4) {
                0 => r.pick(&[&b"Intel(R) Xeon(R) CPU E5-2680 v3 @ 2.50GHz"[..], b"AMD EPYC 7763 64-Core Processor", b"QEMU Virtual CPU version 2.5+", b"Common KVM processor", b"12th Gen Intel(R) Core(TM) i9-12900K", b"Genuine Intel(R) 0000", b"AMD Ryzen Threadripper PRO 5995WX"]).to_vec(),
                _ => r.pick(&self.dict.strs).clone(),
            };
            if r.one_in(2) && b.len() < 48 { b.push(b' '); let more = self.text_bytes(r, 48 - b.len()); b.extend(more); }
            b.resize(48, 0);
            for k in 0..3 { Self::put_bytes(t, 0x8000_0002 + k, 0, &b[16 * k as usize..16 * k as usize + 16]); }
        }
    }
    pub fn mutate(&self, r: &mut Rng, t: &mut Table) {
        let keys: Vec<_> = t.m.keys().cloned().collect();
        if keys.is_empty() { return; }
        let (l, s) = *r.pick(&keys);
        let k = r.below(4) as usize;
        if (l == 0 || l == 0x8000_0000) && r.pct(70) { return; }
        let v = match r.below(3) { 0 => t.get(l, s)[k] ^ (1 << r.below(32)), 1 => self.reg_at(r, l, s, k), _ => self.field(r, 8) };
        t.set_reg(l, s, k, v);
    }
}

/// Two leaves say how many subleaves to read: a processor cannot have 2^32 of them, and
/// reading that many takes minutes.
pub const MOST_SUBLEAVES: u32 = 70_000;
pub fn bound(t: &mut Table) {
    for leaf in [0x17, 0x18] {
        let v = t.get(leaf, 0)[EAX];
        if v > MOST_SUBLEAVES { t.set_reg(leaf, 0, EAX, 3 + v % 500); }
    }
    // a list that noise alone would continue is cut, so that "ends" has a meaning
    if t.noise.is_some() {
        for leaf in [4, 0x8000_001d, 0xb, 0x1f, 0x12, 0x8000_0026] {
            for i in 40..60 { t.m.entry((leaf, i)).or_insert([0; 4]); }
        }
    }
}
