//! Equality of what the library hands out.

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, rows_of, Gen, Rng};
use crate::model;
use crate::obs::{self, caught, Key, Map, GROUPS, NOIDX};
use crate::props::{full, Swept, STANDIN};
use crate::table::*;
use raw_cpuid::*;
use std::fmt::Debug;
use std::sync::Arc;

pub fn props() -> Vec<Prop> { vec![equality()] }

/// The groups some structure or item of which can be compared.
const COMPARABLE: &[&str] = &[
    "vendor", "cache_info", "serial", "cache_params", "monitor_mwait", "topology", "topology_v2", "xsave", "rdt_alloc", "dat", "hypervisor", "soc", "l1", "l2l3", "apm",
    "capacity", "svm", "tlb1g", "perf_opt", "ibs", "proc_topo", "mem_enc", "pqos", "ext_feat_id2", "ext_perf_mon", "mem_multikey", "ext_cpu_topo", "dca",
];

/// Another processor, different in some way from the first, as far as `grp` goes.
pub fn other(g: &Gen, r: &mut Rng, t: &Table, grp: &'static str, style: u32) -> Table {
    let mut t2 = t.clone();
    let rows: Vec<(u32, u32)> = rows_of(grp).into_iter().filter(|x| *x != (0, 0) || grp == "vendor").collect();
    match style {
        0 => {}
        1 => { g.fill_group(r, &mut t2, grp); }
        2 => { // other leaves only
            for k in 0..6 { let h = *r.pick(GROUPS); for (l, s) in rows_of(h) { if !rows.contains(&(l, s)) && l != 0 && l != 0x8000_0000 && l != 1 && l != 7 && l != 0x8000_0001 && k < 6 { t2.set(l, s, g.row_at(r, l, s)); } } }
        }
        3 => { // registers exchanged
            let (l, s) = *r.pick(&rows);
            let mut x = t2.get(l, s);
            x.swap(r.below(4) as usize, r.below(4) as usize);
            if (l, s) == (0, 0) { x[0] = t.get(0, 0)[0]; }
            t2.set(l, s, x);
        }
        _ => { // one bit, or one more
            let own: Vec<(u32, u32)> = t.m.keys().filter(|k| rows.iter().any(|x| x.0 == k.0)).filter(|k| **k != (0, 0) || grp == "vendor").cloned().collect();
            for _ in 0..1 + r.below(2) {
                let (l, s) = if own.is_empty() { *r.pick(&rows) } else { *r.pick(&own) };
                let reg = if (l, s) == (0, 0) { 1 + r.below(3) } else { r.below(4) };
                *t2.reg_mut(l, s, reg as usize) ^= 1 << r.below(32);
            }
        }
    }
    bound(&mut t2);
    t2
}

fn equality() -> Prop {
    let sw = Arc::new(Swept::new(COMPARABLE));
    let sw2 = sw.clone();
    Prop {
        id: "C28",
        rule: "pairs of processors: alike, different in one bit of a leaf the structure is read from (each bit in turn), in two exchanged registers, in unrelated leaves, or in all of it; each structure, list item and enumeration value compared with its counterpart both ways and with a second reading of the same. Non-trivial: both processors have the structure",
        assumptions: &[STANDIN],
        sweep_len: Box::new(move |_, th| sw.len(th)),
        sweep: Box::new(move |g, r, k, th| {
            let c = sw2.case(g, r, k, th);
            let grp = c.groups[0];
            let mut t2 = c.t.clone();
            // the same row before the flip, or a bit further
            let rows: Vec<(u32, u32)> = rows_of(grp).into_iter().filter(|x| x.0 != 0 && x.0 != 0x8000_0000).collect();
            if rows.is_empty() { t2 = other(g, r, &c.t, grp, 4); }
            else {
                let (l, s) = rows[(k / 128 % rows.len() as u64) as usize];
                *t2.reg_mut(l, s, (k / 32 % 4) as usize) ^= 1 << (k % 32);
            }
            bound(&mut t2);
            Case { t2: Some(t2), ..c }
        }),
        random: (150_000, 6_000_000),
        gen: Box::new(|g, r| {
            let grp = *r.pick(COMPARABLE);
            let t = if r.one_in(3) { g.table(r, &[grp]) } else { let (v, bg) = (r.below(4), r.below(4) as u64); full(g, r, v, &[grp], bg) };
            let style = r.below(7);
            let t2 = other(g, r, &t, grp, style);
            Case { t, t2: Some(t2), groups: vec![grp], ..Case::default() }
        }),
        check: Box::new(equality_check),
        single: false,
    }
}

/// `same`: the registers are the same, so that it must be equal. `differ`: some answer differs, so that it must not be.
fn cmp<T: PartialEq>(rep: &mut Report, what: &str, a: &T, again: &T, b: &T, same: bool, differ: bool) {
    rep.compared += 4;
    rep.nontrivial = true;
    if a != again || !(a == again) { rep.fail(format!("{}.itself", what), format!("{}: two readings of the same processor are unequal", what)); }
    let (ab, ba) = (a == b, b == a);
    #[allow(clippy::nonminimal_bool)]
    if ab != ba || ab == (a != b) { rep.fail(format!("{}.symmetry", what), format!("{}: a == b is {}, b == a is {}, a != b is {}", what, ab, ba, a != b)); }
    if same && !ab { rep.fail(format!("{}.unequal", what), format!("{}: read from the same registers, yet unequal", what)); }
    if differ && ab { rep.fail(format!("{}.equal", what), format!("{}: they answer some question differently, yet are equal", what)); }
    rep.tags.push(if ab { "equal pair" } else { "unequal pair" });
}
/// Values of an enumeration: equal exactly when they read the same.
fn val<T: PartialEq + Debug>(rep: &mut Report, what: &str, a: &T, b: &T) {
    rep.compared += 1;
    let same = format!("{:?}", a) == format!("{:?}", b);
    if (a == b) != same || (b == a) != same { rep.fail(format!("{}.value", what), format!("{}: {:?} == {:?} is {}", what, a, b, a == b)); }
}

fn equality_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let Some(t2) = &c.t2 else { return rep };
    let (ra, rb) = (TableReader::new(&c.t), TableReader::new(t2));
    // The register results themselves.
    for k in c.t.m.keys() {
        let at = |t: &Table| { let x = t.get(k.0, k.1); CpuIdResult { eax: x[0], ebx: x[1], ecx: x[2], edx: x[3] } };
        let same = c.t.get(k.0, k.1) == t2.get(k.0, k.1);
        let was = rep.nontrivial;
        cmp(&mut rep, "CpuIdResult", &at(&c.t), &at(&c.t), &at(t2), same, !same);
        rep.nontrivial = was;
    }
    let mk = |r: &TableReader| caught(|| CpuId::with_cpuid_reader(r.clone()));
    let (Ok(a), Ok(b)) = (mk(&ra), mk(&rb)) else { rep.fail("construction", "constructing panicked".to_string()); return rep };
    for g in &c.groups {
        let (ma, mb) = (obs::observe(&a, &[g], &ra).m, obs::observe(&b, &[g], &rb).m);
        ra.refuel();
        rb.refuel();
        let r = caught(|| group(&mut rep, g, &a, &b, &ma, &mb, &c.t, t2));
        if let Err(e) = r { rep.fail(format!("{}.panic", g), format!("{}: comparing panicked: {}", g, e)); }
    }
    rep
}

fn group(rep: &mut Report, g: &'static str, a: &CpuId<TableReader>, b: &CpuId<TableReader>, ma: &Map, mb: &Map, ta: &Table, tb: &Table) {
    let own = |k: &Key| k.i == NOIDX && k.f != "present" && k.f != "len";
    let pick = |m: &Map, f: &dyn Fn(&Key) -> bool| -> Vec<(Key, obs::V)> { m.iter().filter(|(k, _)| f(k)).map(|(k, v)| (*k, v.clone())).collect() };
    let differ = pick(ma, &own) != pick(mb, &own);
    let differ_at = |i: u32| pick(ma, &|k| k.i == i && k.f != "order") != pick(mb, &|k| k.i == i && k.f != "order");
    let same = rows_of(g).iter().all(|(l, s)| ta.get(*l, *s) == tb.get(*l, *s)) && ta.get(0, 0) == tb.get(0, 0);
    macro_rules! plain { ($get:ident) => {
        if let (Some(x), Some(y), Some(z)) = (a.$get(), a.$get(), b.$get()) { cmp(rep, g, &x, &y, &z, same, differ); }
    } }
    macro_rules! part { ($get:ident, $sub:ident, $i:expr, $leaf:expr) => {
        if let (Some(x), Some(y), Some(z)) = (a.$get(), a.$get(), b.$get()) {
            if let (Some(p), Some(q), Some(s)) = (x.$sub(), y.$sub(), z.$sub()) { cmp(rep, concat!(stringify!($sub)), &p, &q, &s, ta.get($leaf, $i) == tb.get($leaf, $i), differ_at($i)); }
        }
    } }
    macro_rules! items { ($get:expr, $leaf:expr, |$e:ident, $f:ident, $rep:ident| $more:expr) => {
        if let (Some(x), Some(y), Some(z)) = ($get(a), $get(a), $get(b)) {
            let leaf: u32 = $leaf;
            let (x, y, z): (Vec<_>, Vec<_>, Vec<_>) = (x.take(8).collect(), y.take(8).collect(), z.take(8).collect());
            for (i, e) in x.iter().enumerate() {
                if let (Some(e2), Some(f)) = (y.get(i), z.get(i)) { cmp(rep, g, e, e2, f, ta.get(leaf, i as u32) == tb.get(leaf, i as u32), differ_at(i as u32)); }
                for $f in x.iter().chain(z.iter()) { let ($e, $rep) = (e, &mut *rep); $more }
            }
            for (i, e) in x.iter().enumerate() { for (j, f) in x.iter().enumerate() {
                let pa = |m: &Map, i: u32| pick(m, &|k| k.i == i).into_iter().map(|(k, v)| (k.f, v)).collect::<Vec<_>>();
                if e == f && pa(ma, i as u32) != pa(ma, j as u32) { rep.fail(format!("{}.items", g), format!("{}: items {} and {} answer differently, yet are equal", g, i, j)); }
            } }
        }
    } }
    match g {
        "vendor" => plain!(get_vendor_info),
        "cache_info" => {
            let lists = |m: &Map| pick(m, &|k| k.f != "present");
            if let (Some(x), Some(y), Some(z)) = (a.get_cache_info(), a.get_cache_info(), b.get_cache_info()) {
                cmp(rep, g, &x, &y, &z, same, lists(ma) != lists(mb));
                let mut on = x.clone();
                cmp(rep, g, &x, &y, &on, true, false);
                if on.next().is_some() && on == x { rep.fail("cache_info.advanced", "a list one item on equals itself at the start".to_string()); }
            }
        }
        "serial" => plain!(get_processor_serial),
        "monitor_mwait" => plain!(get_monitor_mwait_info),
        "cache_params" => items!(|c: &CpuId<TableReader>| c.get_cache_parameters(), if model::vendor(ta) == model::Ven::Amd { 0x8000_001d } else { 4 }, |e, f, rep| val(rep, "CacheType", &e.cache_type(), &f.cache_type())),
        "topology" => items!(|c: &CpuId<TableReader>| c.get_extended_topology_info(), 0xb, |e, f, rep| val(rep, "TopologyType", &e.level_type(), &f.level_type())),
        "topology_v2" => items!(|c: &CpuId<TableReader>| c.get_extended_topology_info_v2(), 0x1f, |e, f, rep| val(rep, "TopologyType", &e.level_type(), &f.level_type())),
        "ext_cpu_topo" => items!(|c: &CpuId<TableReader>| c.get_extended_cpu_topology(), 0x8000_0026, |e, f, rep| {
            rep.compared += 1;
            let (p, q) = (e.level_type(), f.level_type());
            let num = |t: &HierarchyLevelType| match t { HierarchyLevelType::Reserved => 0, HierarchyLevelType::Core => 1, HierarchyLevelType::Complex => 2, HierarchyLevelType::Die => 3, HierarchyLevelType::Socket => 4, HierarchyLevelType::Unknown(x) => 1000 + *x as u32 };
            let same = num(&p) == num(&q);
            if (p == q) != same || (q == p) != same { rep.fail("HierarchyLevelType.value", format!("level types {} and {}: equal is {}", p, q, p == q)); }
        }),
        "xsave" => {
            if let (Some(x), Some(y)) = (a.get_extended_state_info(), b.get_extended_state_info()) {
                let all: Vec<_> = x.iter().chain(y.iter()).take(24).collect();
                for e in &all { for f in &all { val(rep, "ExtendedRegisterType", &e.register(), &f.register()); val(rep, "ExtendedRegisterStateLocation", &e.location(), &f.location()); } }
                rep.nontrivial |= !all.is_empty();
            }
        }
        "rdt_alloc" => { part!(get_rdt_allocation_info, l2_cat, 2, 0x10); part!(get_rdt_allocation_info, memory_bandwidth_allocation, 3, 0x10); }
        "dat" => {
            if let (Some(x), Some(y)) = (a.get_deterministic_address_translation_info(), b.get_deterministic_address_translation_info()) {
                let all: Vec<_> = x.take(8).chain(y.take(8)).collect();
                for e in &all { for f in &all { val(rep, "DatType", &e.cache_type(), &f.cache_type()); } }
                rep.nontrivial |= !all.is_empty();
            }
        }
        "hypervisor" => if let (Some(x), Some(y)) = (a.get_hypervisor_info(), b.get_hypervisor_info()) { rep.nontrivial = true; val(rep, "Hypervisor", &x.identify(), &y.identify()); val(rep, "Hypervisor", &x.identify(), &x.identify()); },
        "soc" => if let (Some(x), Some(y)) = (a.get_soc_vendor_info(), b.get_soc_vendor_info()) {
            if let (Some(p), Some(q), Some(z)) = (x.get_vendor_brand(), x.get_vendor_brand(), y.get_vendor_brand()) {
                let same = (1..=3).all(|s| ta.get(0x17, s) == tb.get(0x17, s));
                cmp(rep, "SoCVendorBrand", &p, &q, &z, same, !same);
            }
        },
        "l1" => {
            plain!(get_l1_cache_and_tlb_info);
            if let (Some(x), Some(y)) = (a.get_l1_cache_and_tlb_info(), b.get_l1_cache_and_tlb_info()) {
                for (p, q) in [(x.dcache_associativity(), y.dcache_associativity()), (x.dcache_associativity(), y.icache_associativity()), (x.itlb_4k_associativity(), y.dtlb_4k_associativity())] { val(rep, "Associativity", &p, &q); }
            }
        }
        "l2l3" => {
            plain!(get_l2_l3_cache_and_tlb_info);
            if let (Some(x), Some(y)) = (a.get_l2_l3_cache_and_tlb_info(), b.get_l2_l3_cache_and_tlb_info()) {
                for (p, q) in [(x.l2cache_associativity(), y.l2cache_associativity()), (x.l2cache_associativity(), y.l3cache_associativity())] { val(rep, "Associativity", &p, &q); }
            }
        }
        "apm" => plain!(get_advanced_power_mgmt_info),
        "capacity" => plain!(get_processor_capacity_feature_info),
        "svm" => plain!(get_svm_info),
        "tlb1g" => plain!(get_tlb_1gb_page_info),
        "perf_opt" => plain!(get_performance_optimization_info),
        "ibs" => plain!(get_instruction_based_sampling_capabilities),
        "proc_topo" => plain!(get_processor_topology_info),
        "mem_enc" => plain!(get_memory_encryption_info),
        "pqos" => {
            part!(get_pqos_extended_feature_info, get_l3_memory_bandwidth_enforcement_info, 1, 0x8000_0020);
            part!(get_pqos_extended_feature_info, get_l3_slow_memory_bandwidth_enforcement_info, 2, 0x8000_0020);
            part!(get_pqos_extended_feature_info, get_bandwidth_monitoring_event_counters_info, 3, 0x8000_0020);
            part!(get_pqos_extended_feature_info, get_assignable_bandwidth_monitoring_counters_info, 5, 0x8000_0020);
        }
        "ext_feat_id2" => plain!(get_extended_feature_identification_2),
        "ext_perf_mon" => plain!(get_extended_performance_monitoring_and_debug),
        "mem_multikey" => plain!(get_multi_key_encrypted_memory_capabilities),
        _ => {}
    }
}
