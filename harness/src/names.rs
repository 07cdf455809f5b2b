//! Texts of coded values name the value that is meant.

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, Gen, Rng};
use crate::obs::{self, caught, digits, Key, V};
use crate::props::{extra_fields, full, STANDIN};
use crate::spec::DESCRIPTORS;
use crate::table::*;
use raw_cpuid::*;
use std::fmt::{Debug, Display};

pub fn props() -> Vec<Prop> { vec![names()] }

/// Kind of value, value, what its text says (one of the alternatives), and nothing that another value of the kind says.
static WORDS: &[(&str, &str, &[&str])] = &[
    ("associativity", "Disabled", &["disabled"]), ("associativity", "DirectMapped", &["direct"]), ("associativity", "NWay", &["way"]),
    ("associativity", "FullyAssociative", &["full"]), ("associativity", "Unknown", &["unknown"]),
    ("cache", "Null", &["null", "invalid"]), ("cache", "Data", &["data"]), ("cache", "Instruction", &["instruction"]), ("cache", "Unified", &["unified"]), ("cache", "Reserved", &["reserved"]),
    ("translation", "Null", &["null", "invalid"]), ("translation", "DataTLB", &["data"]), ("translation", "InstructionTLB", &["instruction"]), ("translation", "UnifiedTLB", &["unified"]),
    ("translation", "LoadOnly", &["load"]), ("translation", "StoreOnly", &["store"]), ("translation", "Unknown", &["unknown"]),
    ("topology", "Invalid", &["invalid"]), ("topology", "SMT", &["smt"]), ("topology", "Core", &["core"]), ("topology", "Module", &["module"]), ("topology", "Tile", &["tile"]), ("topology", "Die", &["die"]),
    ("hierarchy", "Reserved", &["reserved"]), ("hierarchy", "Core", &["core"]), ("hierarchy", "Complex", &["complex"]), ("hierarchy", "Die", &["die"]), ("hierarchy", "Socket", &["socket"]), ("hierarchy", "Unknown", &["unknown"]),
    ("register", "Avx", &["ymm"]), ("register", "MpxBndregs", &["bndregs"]), ("register", "MpxBndcsr", &["bndcsr"]), ("register", "Avx512Opmask", &["opmask"]), ("register", "Avx512ZmmHi256", &["hi256"]),
    ("register", "Avx512ZmmHi16", &["hi16"]), ("register", "Pt", &["pt"]), ("register", "Pkru", &["pkru"]), ("register", "Hdc", &["hdc"]), ("register", "Unknown", &["unknown"]),
    ("location", "Xcr0", &["xcr0"]), ("location", "Ia32Xss", &["xss"]),
    ("descriptor", "General", &["n/a", "general"]), ("descriptor", "Cache", &["cache"]), ("descriptor", "TLB", &["tlb"]), ("descriptor", "STLB", &["stlb"]), ("descriptor", "DTLB", &["dtlb"]), ("descriptor", "Prefetch", &["prefetch"]),
];

fn numbers(s: &str) -> Vec<u64> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect() }

/// What is wrong with the text of a value of this kind.
fn wrong(kind: &str, value: &str, text: &str, code: Option<u64>) -> Option<String> {
    let (name, arg) = value.split_once('(').map(|(n, a)| (n, numbers(a).first().copied())).unwrap_or((value, None));
    let low = text.to_lowercase();
    let own: &[&str] = WORDS.iter().find(|w| w.0 == kind && w.1 == name)?.2;
    if !own.iter().any(|w| low.contains(w)) { return Some(format!("{} {} reads '{}'", kind, value, text)); }
    for w in WORDS.iter().filter(|w| w.0 == kind && w.1 != name) {
        if w.2.iter().any(|x| low.contains(x) && !own.iter().any(|o| o.contains(x))) { return Some(format!("{} {} reads '{}', which says {}", kind, value, text, w.1)); }
    }
    // Figures, where it shows any.
    if let Some(n) = arg { if numbers(text) != [n] { return Some(format!("{} {} reads '{}'", kind, value, text)); } }
    if let (None, Some(c)) = (arg, code) { let f = numbers(text); if !f.is_empty() && f != [c] { return Some(format!("{} {} is number {}, and reads '{}'", kind, value, c, text)); } }
    None
}

fn shows(rep: &mut Report, kind: &'static str, v: &(impl Display + Debug), want: &str, code: Option<u64>) {
    rep.compared += 2;
    match caught(|| (v.to_string(), format!("{:?}", v))) {
        Err(e) => rep.fail(format!("{}.panic", kind), format!("printing {} {} panicked: {}", kind, want, e)),
        Ok((d, dbg)) => {
            if let Some(e) = wrong(kind, want, &d, code) { rep.fail(format!("{}.text", kind), e); }
            if dbg != want { rep.fail(format!("{}.debug", kind), format!("{} {} has the Debug text '{}'", kind, want, dbg)); }
        }
    }
}

/// The values of the library's enumerations, as a user writes them down, or makes them of a number.
fn values(rep: &mut Report, n: u32) {
    rep.nontrivial = true;
    use {Associativity as A, CacheType as C, DatType as D, ExtendedRegisterStateLocation as L, ExtendedRegisterType as X, HierarchyLevelType as H, TopologyType as T};
    let b = n as u8;
    for (v, w) in [(A::Disabled, "Disabled"), (A::DirectMapped, "DirectMapped"), (A::FullyAssociative, "FullyAssociative")] { shows(rep, "associativity", &v, w, None); }
    shows(rep, "associativity", &A::NWay(b), &format!("NWay({})", b), None);
    for (v, w) in [(C::Null, "Null"), (C::Data, "Data"), (C::Instruction, "Instruction"), (C::Unified, "Unified"), (C::Reserved, "Reserved")] { shows(rep, "cache", &v, w, None); }
    for (v, w) in [(D::Null, "Null"), (D::DataTLB, "DataTLB"), (D::InstructionTLB, "InstructionTLB"), (D::UnifiedTLB, "UnifiedTLB"), (D::LoadOnly, "LoadOnly"), (D::StoreOnly, "StoreOnly"), (D::Unknown, "Unknown")] { shows(rep, "translation", &v, w, None); }
    for (v, w) in [(T::Invalid, "Invalid"), (T::SMT, "SMT"), (T::Core, "Core"), (T::Module, "Module"), (T::Tile, "Tile"), (T::Die, "Die")] { shows(rep, "topology", &v, w, None); }
    for (v, w) in [(L::Xcr0, "Xcr0"), (L::Ia32Xss, "Ia32Xss")] { shows(rep, "location", &v, w, None); }
    // numbers
    let named = ["Reserved", "Core", "Complex", "Die", "Socket"];
    let h = named.get(b as usize).map(|s| s.to_string()).unwrap_or(format!("Unknown({})", b));
    shows(rep, "hierarchy", &H::from(b), &h, Some(b as u64));
    shows(rep, "hierarchy", &H::Unknown(b), &format!("Unknown({})", b), Some(b as u64));
    let x = match n { 2 => "Avx", 3 => "MpxBndregs", 4 => "MpxBndcsr", 5 => "Avx512Opmask", 6 => "Avx512ZmmHi256", 7 => "Avx512ZmmHi16", 8 => "Pt", 9 => "Pkru", 13 => "Hdc", _ => "" };
    let x = if x.is_empty() { format!("Unknown({})", n) } else { x.to_string() };
    shows(rep, "register", &X::from(n), &x, None);
    shows(rep, "register", &X::Unknown(n), &format!("Unknown({})", n), None);
    // what a number says of a cache
    let listed: Vec<_> = CACHE_INFO_TABLE.iter().filter(|e| e.num == b).collect();
    if listed.len() > 1 { rep.fail("descriptor.twice", format!("descriptor {:#x} is in the table {} times", b, listed.len())); }
    for t in [CacheInfoType::General, CacheInfoType::Cache, CacheInfoType::TLB, CacheInfoType::STLB, CacheInfoType::DTLB, CacheInfoType::Prefetch] {
        let e = CacheInfo { num: b, typ: t };
        rep.compared += 2;
        let (d, desc) = (e.to_string(), e.desc());
        let Some((head, said)) = d.split_once(desc).map(|(h, _)| (h, true)).or(Some((d.as_str(), false))) else { continue };
        if !said { rep.fail("descriptor.desc", format!("'{}' does not say '{}'", d, desc)); }
        let low = head.to_lowercase();
        let number = low.split(|c: char| !c.is_ascii_hexdigit()).find(|x| !x.is_empty());
        if number.and_then(|x| u8::from_str_radix(x, 16).ok()) != Some(b) { rep.fail("descriptor.number", format!("'{}' does not begin with {:x}", d, b)); }
        if let Some(e) = wrong("descriptor", &format!("{:?}", t), head, None) { rep.fail("descriptor.type", e); }
        if let Some(k) = DESCRIPTORS.iter().find(|k| k.0 == b) {
            if b != 0xc2 && b != 0xc3 && digits(desc) != k.2 { rep.fail("descriptor.figures", format!("descriptor {:#x} reads '{}'", b, desc)); }
        }
    }
}

const NAMED: &[&str] = &["cache_params", "topology", "topology_v2", "xsave", "dat", "l1", "l2l3", "tlb1g", "ext_cpu_topo", "cache_info"];

fn names() -> Prop {
    let mut fields: Vec<(&'static str, u32, u32, usize, u32, u32)> = ["l1", "l2l3", "tlb1g"].iter().flat_map(|g| extra_fields(g)).collect();
    fields.extend([("cache_params", 4, 0, EAX, 0, 4), ("cache_params", 0x8000_001d, 0, EAX, 0, 4), ("topology", 0xb, 0, ECX, 8, 15), ("topology_v2", 0x1f, 0, ECX, 8, 15), ("dat", 0x18, 0, EDX, 0, 4), ("ext_cpu_topo", 0x8000_0026, 0, ECX, 8, 15)]);
    let all: Vec<_> = fields.into_iter().flat_map(|f| (0..1u32 << (f.5 - f.4 + 1)).map(move |v| (f, v))).collect();
    let n = all.len() as u64;
    Prop {
        id: "C31",
        rule: "every encoding of each coded field that has a text (associativities, kinds of caches, translation caches and levels) on a processor with the structure, every number that can be made into such a value, every number a descriptor can have, then random processors; the text must say what the value is, and nothing that another value of the kind says, with the figures of the value alone. Non-trivial: a value was printed",
        assumptions: &[STANDIN, "the words by which a text names a value are those of the manuals (transcribed), however they are put together"],
        sweep_len: Box::new(move |_, _| n + 256),
        sweep: Box::new(move |g, r, k, _| {
            if k >= n { return Case { prog: vec![(k - n) as u32], ..Case::default() }; }
            let ((grp, l, s, reg, lo, hi), v) = all[k as usize];
            let vendor = if l == 4 { 0 } else if l >= 0x8000_0000 { r.range(1, 2) } else { r.below(4) };
            let mut t = full(g, r, vendor, &[grp], 2);
            let m = (u32::MAX >> (31 - (hi - lo))) << lo;
            let cur = t.get(l, s)[reg];
            t.set_reg(l, s, reg, cur & !m | v << lo);
            bound(&mut t);
            Case { t, groups: vec![grp], ..Case::default() }
        }),
        random: (60_000, 3_000_000),
        gen: Box::new(|g: &Gen, r: &mut Rng| {
            if r.one_in(4) { let v = match r.below(3) { 0 => r.below(300), 1 => 1u32.wrapping_shl(r.below(32)).wrapping_sub(r.below(2)), _ => r.u32() }; return Case { prog: vec![v], ..Case::default() }; }
            let grp = *r.pick(NAMED);
            let t = if r.one_in(3) { g.table(r, &[grp]) } else { let v = r.below(4); full(g, r, v, &[grp], 2) };
            Case { t, groups: vec![grp], ..Case::default() }
        }),
        check: Box::new(check),
        single: false,
    }
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    for v in &c.prog { values(&mut rep, *v); }
    if c.groups.is_empty() { return rep; }
    let r = TableReader::new(&c.t);
    let Ok(id) = caught(|| CpuId::with_cpuid_reader(r.clone())) else { rep.fail("construction", "constructing panicked"); return rep };
    let o = obs::observe(&id, &c.groups, &r);
    for (k, v) in &o.m {
        let V::S(v) = v else { continue };
        let (text, kind) = match (k.g, k.f) {
            ("cache_params", "cache_type") => ("cache_type_display", "cache"),
            ("dat", "cache_type") => ("cache_type_display", "translation"),
            ("topology" | "topology_v2", "level_type") => ("level_type_display", "topology"),
            ("ext_cpu_topo", "level_type") => ("level_type_display", "hierarchy"),
            ("xsave", "register") => ("register_display", "register"),
            ("xsave", "location") => ("location_display", "location"),
            _ if o.texts.contains_key(k) => ("", "associativity"),
            _ => continue,
        };
        let said = if text.is_empty() { o.texts.get(k).cloned() } else { match o.m.get(&Key { f: text, ..*k }) { Some(V::S(s)) => Some(s.clone()), _ => None } };
        let Some(said) = said else { rep.fail(format!("{}.{}.panic", k.g, k.f), format!("printing {} panicked", k)); continue };
        rep.compared += 1;
        rep.nontrivial = true;
        let code = if kind == "hierarchy" { ["Reserved", "Core", "Complex", "Die", "Socket"].iter().position(|x| x == v).map(|x| x as u64) } else { None };
        if let Some(e) = wrong(kind, v, &said, code) { rep.fail(format!("{}.{}", k.g, k.f), format!("{}: {}", k, e)); return rep; }
        rep.tags.push(kind);
    }
    rep
}
