//! Everything a user can ask the library, recorded as (group, field, index) -> value.
//! Each call is made under catch_unwind, so that a panic is a recorded answer too.

use crate::table::TableReader;
use raw_cpuid::*;
#[allow(unused_imports)]
use alloc::{boxed::Box, rc::Rc, collections::BTreeMap, format, string::{String, ToString}, vec, vec::Vec};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    B(bool),
    U(u128),
    S(String),
    /// The call panicked.
    Panic(String),
    /// Model only: any answer will do, a panic will not.
    Any,
    /// Model only: any of these.
    OneOf(Vec<V>),
}

impl V {
    pub fn accepts(&self, got: &V) -> bool {
        match self {
            V::Any => !matches!(got, V::Panic(_)),
            V::OneOf(vs) => vs.iter().any(|v| v.accepts(got)),
            v => v == got,
        }
    }
}

macro_rules! from_uint { ($($t:ty),*) => { $(impl From<$t> for V { fn from(x: $t) -> V { V::U(x as u128) } })* } }
from_uint!(u8, u16, u32, u64, u128, usize);
impl From<bool> for V { fn from(x: bool) -> V { V::B(x) } }
impl From<&str> for V { fn from(x: &str) -> V { V::S(x.to_string()) } }
impl From<String> for V { fn from(x: String) -> V { V::S(x) } }
impl<T: Into<V>> From<Option<T>> for V {
    fn from(x: Option<T>) -> V {
        match x { None => V::S("None".into()), Some(v) => v.into() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Key {
    pub g: &'static str,
    pub f: &'static str,
    pub i: u32,
}

impl core::fmt::Display for Key {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        if self.i == NOIDX { write!(f, "{}.{}", self.g, self.f) } else { write!(f, "{}[{}].{}", self.g, self.i, self.f) }
    }
}

pub const NOIDX: u32 = u32::MAX;
pub type Map = BTreeMap<Key, V>;

#[cfg(not(feature = "bare"))]
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

#[cfg(not(feature = "bare"))]
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}
#[cfg(not(feature = "bare"))]
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`; a panic becomes Err(message).
#[cfg(not(feature = "bare"))]
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}
/// Or ends the process (see `narrow`).
#[cfg(feature = "bare")]
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> { Ok(f()) }

#[derive(Default)]
pub struct Obs {
    pub m: Map,
    /// All answers in the order of the questions, in place of the map.
    pub list: Option<Vec<(Key, V)>>,
    pub calls: u64,
    /// Also record the Debug text of every structure met.
    pub want_debug: bool,
    pub dbg: Vec<(&'static str, u32, V)>,
    /// Once a structure is obtained, reading the processor again is refused.
    pub disarm: Option<TableReader>,
    /// How values with a text of their own are printed; nothing the model knows.
    pub texts: BTreeMap<Key, String>,
    /// What happens before each question, apart from it.
    pub pause: Option<Rc<dyn Fn()>>,
}

impl Obs {
    pub fn put(&mut self, g: &'static str, f: &'static str, i: u32, v: V) {
        match &mut self.list { Some(l) => l.push((Key { g, f, i }, v)), None => { self.m.insert(Key { g, f, i }, v); } }
    }
    pub fn call<T: Into<V>>(&mut self, g: &'static str, f: &'static str, i: u32, body: impl FnOnce() -> T) {
        self.calls += 1;
        if let Some(p) = &self.pause { p(); }
        let v = match caught(body) { Ok(x) => x.into(), Err(e) => V::Panic(e) };
        self.put(g, f, i, v);
    }
    pub fn dbg<T: core::fmt::Debug>(&mut self, g: &'static str, i: u32, x: &T) {
        if !self.want_debug { return; }
        self.calls += 2;
        if let Some(p) = &self.pause { p(); }
        let v = match caught(|| { let _ = format!("{:?}", x); format!("{:#?}", x) }) { Ok(s) => V::S(s), Err(e) => V::Panic(e) };
        self.dbg.push((g, i, v));
    }
    /// Records whether an optional answer is there, and hands it on.
    pub fn opt<T>(&mut self, g: &'static str, f: &'static str, body: impl FnOnce() -> Option<T>) -> Option<T> {
        self.calls += 1;
        match caught(body) {
            Ok(x) => { self.put(g, f, NOIDX, V::B(x.is_some())); if let Some(r) = &self.disarm { r.fuel.set(0); } x }
            Err(e) => { self.put(g, f, NOIDX, V::Panic(e)); None }
        }
    }
    /// Walks an iterator to its end, recording how many items it yields.
    pub fn walk<T>(&mut self, g: &'static str, it: impl FnOnce() -> Box<dyn Iterator<Item = T>>, limit: usize, mut each: impl FnMut(&mut Obs, u32, T)) {
        let mut items = Vec::new();
        self.calls += 1;
        let r = caught(|| {
            let mut it = it();
            let mut fused = true;
            loop {
                if items.len() >= limit { break; }
                match it.next() { Some(x) => items.push(x), None => { fused = it.next().is_none(); break } }
            }
            fused
        });
        let n = items.len();
        for (i, x) in items.into_iter().enumerate() { each(self, i as u32, x); }
        match r {
            Ok(_) => self.put(g, "len", NOIDX, V::U(n as u128)),
            Err(e) => self.put(g, "len", NOIDX, V::Panic(e)),
        }
    }
}

macro_rules! calls {
    ($o:expr, $g:expr, $x:expr; $($f:ident),* $(,)?) => { $( $o.call($g, stringify!($f), NOIDX, || $x.$f()); )* };
}
macro_rules! icalls {
    ($o:expr, $g:expr, $i:expr, $x:expr; $($f:ident),* $(,)?) => { $( $o.call($g, stringify!($f), $i, || $x.$f()); )* };
}

fn assoc(a: Associativity) -> V {
    match a {
        Associativity::Disabled => "Disabled".into(),
        Associativity::DirectMapped => "DirectMapped".into(),
        Associativity::NWay(n) => format!("NWay({})", n).into(),
        Associativity::FullyAssociative => "FullyAssociative".into(),
        Associativity::Unknown => "Unknown".into(),
    }
}
macro_rules! assocs {
    ($o:expr, $g:expr, $x:expr; $($f:ident),* $(,)?) => { $( $o.call($g, stringify!($f), NOIDX, || assoc($x.$f()));
        if let Ok(s) = caught(|| $x.$f().to_string()) { $o.texts.insert(Key { g: $g, f: stringify!($f), i: NOIDX }, s); } )* };
}

pub const ITER_LIMIT: usize = 700;
pub type R = TableReader;

pub fn hypervisor_name(h: Hypervisor) -> String {
    match h {
        Hypervisor::Xen => "Xen".into(),
        Hypervisor::VMware => "VMware".into(),
        Hypervisor::HyperV => "HyperV".into(),
        Hypervisor::KVM => "KVM".into(),
        Hypervisor::QEMU => "QEMU".into(),
        Hypervisor::Bhyve => "Bhyve".into(),
        Hypervisor::QNX => "QNX".into(),
        Hypervisor::ACRN => "ACRN".into(),
        Hypervisor::Unknown(b, c, d) => format!("Unknown({:#x},{:#x},{:#x})", b, c, d),
    }
}

fn cache_info_type(t: &CacheInfoType) -> &'static str {
    match t {
        CacheInfoType::General => "General",
        CacheInfoType::Cache => "Cache",
        CacheInfoType::TLB => "TLB",
        CacheInfoType::STLB => "TLB",
        CacheInfoType::DTLB => "TLB",
        CacheInfoType::Prefetch => "Prefetch",
    }
}

/// The figures in a description text, in order: "32 KBytes, 8-way" -> "32K 8".
pub fn digits(s: &str) -> String {
    let mut out: Vec<String> = Vec::new();
    let c: Vec<char> = s.to_lowercase().chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() {
            let from = i;
            while i < c.len() && (c[i].is_ascii_digit() || (c[i] == '.' && i + 1 < c.len() && c[i + 1].is_ascii_digit())) { i += 1; }
            let mut w: String = c[from..i].iter().collect();
            let at = if i < c.len() && (c[i] == ' ' || c[i] == '-') { i + 1 } else { i };
            let unit: String = c[at.min(c.len())..].iter().take_while(|x| x.is_ascii_alphabetic()).collect();
            if let Some(rest) = unit.strip_prefix(['k', 'm', 'g']) { if ["", "b", "byte", "bytes", "bbyte", "bbytes", "ib"].contains(&rest) { w.push(unit.as_bytes()[0].to_ascii_uppercase() as char); } }
            out.push(w);
        } else if c[i..].starts_with(&['f', 'u', 'l', 'l', 'y']) { out.push("F".into()); i += 5; }
        else { i += 1; }
    }
    out.join(" ")
}

macro_rules! groups { ($($name:ident),* $(,)?) => {
    /// All the groups of questions there are.
    pub const GROUPS: &[&str] = &[$(stringify!($name)),*];
    /// Asks one group of questions.
    pub fn observe_group(o: &mut Obs, c: &CpuId<R>, group: &str) {
        match group { $(stringify!($name) => $name(o, c),)* _ => panic!("no group {}", group) }
    }
} }

groups!(
    vendor, feature_info, cache_info, serial, cache_params, monitor_mwait, thermal_power, ext_features, dca, perf_mon,
    topology, topology_v2, xsave, rdt_mon, rdt_alloc, sgx, proc_trace, tsc, freq, soc, dat, hypervisor, ext_ids, brand,
    l1, l2l3, apm, capacity, svm, tlb1g, perf_opt, ibs, proc_topo, mem_enc, pqos, ext_feat_id2, ext_perf_mon,
    mem_multikey, ext_cpu_topo,
);

/// Is the structure handed out at all?
pub fn is_present(c: &CpuId<R>, g: &str) -> bool {
    match g {
        "vendor" => c.get_vendor_info().is_some(), "feature_info" => c.get_feature_info().is_some(), "cache_info" => c.get_cache_info().is_some(),
        "serial" => c.get_processor_serial().is_some(), "cache_params" => c.get_cache_parameters().is_some(), "monitor_mwait" => c.get_monitor_mwait_info().is_some(),
        "thermal_power" => c.get_thermal_power_info().is_some(), "ext_features" => c.get_extended_feature_info().is_some(), "dca" => c.get_direct_cache_access_info().is_some(),
        "perf_mon" => c.get_performance_monitoring_info().is_some(), "topology" => c.get_extended_topology_info().is_some(), "topology_v2" => c.get_extended_topology_info_v2().is_some(),
        "xsave" => c.get_extended_state_info().is_some(), "rdt_mon" => c.get_rdt_monitoring_info().is_some(), "rdt_alloc" => c.get_rdt_allocation_info().is_some(),
        "sgx" => c.get_sgx_info().is_some(), "proc_trace" => c.get_processor_trace_info().is_some(), "tsc" => c.get_tsc_info().is_some(),
        "freq" => c.get_processor_frequency_info().is_some(), "soc" => c.get_soc_vendor_info().is_some(), "dat" => c.get_deterministic_address_translation_info().is_some(),
        "hypervisor" => c.get_hypervisor_info().is_some(), "ext_ids" => c.get_extended_processor_and_feature_identifiers().is_some(), "brand" => c.get_processor_brand_string().is_some(),
        "l1" => c.get_l1_cache_and_tlb_info().is_some(), "l2l3" => c.get_l2_l3_cache_and_tlb_info().is_some(), "apm" => c.get_advanced_power_mgmt_info().is_some(),
        "capacity" => c.get_processor_capacity_feature_info().is_some(), "svm" => c.get_svm_info().is_some(), "tlb1g" => c.get_tlb_1gb_page_info().is_some(),
        "perf_opt" => c.get_performance_optimization_info().is_some(), "ibs" => c.get_instruction_based_sampling_capabilities().is_some(),
        "proc_topo" => c.get_processor_topology_info().is_some(), "mem_enc" => c.get_memory_encryption_info().is_some(), "pqos" => c.get_pqos_extended_feature_info().is_some(),
        "ext_feat_id2" => c.get_extended_feature_identification_2().is_some(), "ext_perf_mon" => c.get_extended_performance_monitoring_and_debug().is_some(),
        "mem_multikey" => c.get_multi_key_encrypted_memory_capabilities().is_some(), "ext_cpu_topo" => c.get_extended_cpu_topology().is_some(),
        _ => panic!("no group {}", g),
    }
}

pub fn observe(c: &CpuId<R>, groups: &[&str], r: &R) -> Obs {
    observe_with(c, groups, r, false)
}
pub fn observe_with(c: &CpuId<R>, groups: &[&str], r: &R, want_debug: bool) -> Obs {
    let mut o = Obs { want_debug, ..Obs::default() };
    for g in groups {
        r.refuel();
        observe_group(&mut o, c, g);
    }
    o
}

fn vendor(o: &mut Obs, c: &CpuId<R>) {
    let g = "vendor";
    if let Some(x) = o.opt(g, "present", || c.get_vendor_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; as_str);
        #[allow(deprecated)]
        o.call(g, "as_string", NOIDX, || x.as_string().to_string());
        o.call(g, "display", NOIDX, || format!("{}", x));
    }
}
fn feature_info(o: &mut Obs, c: &CpuId<R>) {
    let g = "feature_info";
    if let Some(x) = o.opt(g, "present", || c.get_feature_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; extended_family_id, extended_model_id, base_family_id, base_model_id, family_id, model_id,
            stepping_id, brand_index, cflush_cache_line_size, initial_local_apic_id, max_logical_processor_ids);
        obs_flags_feature_info(o, &x);
    }
}
fn cache_info(o: &mut Obs, c: &CpuId<R>) {
    let g = "cache_info";
    if let Some(x) = o.opt(g, "present", || c.get_cache_info()) {
        o.dbg(g, NOIDX, &x);
        let mut items = Vec::new();
        o.walk(g, || Box::new(x), ITER_LIMIT, |_, _, e| items.push(e));
        // The order of the descriptors means nothing (SDM, leaf 2).
        items.sort_by_key(|e| e.num);
        for (i, e) in items.into_iter().enumerate() {
            let i = i as u32;
            o.dbg(g, i, &e);
            o.put(g, "num", i, e.num.into());
            o.put(g, "typ", i, cache_info_type(&e.typ).into());
            o.call(g, "desc", i, || digits(e.desc()));
            o.call(g, "kind", i, || {
                let l = e.desc().to_lowercase();
                if e.num >= 0xfe { "-" } else if l.contains("instruction") { "i" } else if l.contains("data") || l.contains("dtlb") { "d" } else { "-" }
            });
            o.call(g, "known", i, || e.desc() != "Unknown cache type!");
            o.call(g, "display_has_desc", i, || format!("{}", e).contains(e.desc()));
        }
    }
}
fn serial(o: &mut Obs, c: &CpuId<R>) {
    let g = "serial";
    if let Some(x) = o.opt(g, "present", || c.get_processor_serial()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; serial_lower, serial_middle, serial_upper, serial, serial_all);
    }
}
fn cache_params(o: &mut Obs, c: &CpuId<R>) {
    let g = "cache_params";
    if let Some(x) = o.opt(g, "present", || c.get_cache_parameters()) { o.dbg(g, NOIDX, &x);
        o.walk(g, || Box::new(x), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
            o.call(g, "cache_type", i, || match e.cache_type() {
                CacheType::Null => "Null", CacheType::Data => "Data", CacheType::Instruction => "Instruction",
                CacheType::Unified => "Unified", CacheType::Reserved => "Reserved",
            });
            o.call(g, "cache_type_display", i, || format!("{}", e.cache_type()));
            icalls!(o, g, i, e; level, is_self_initializing, is_fully_associative, max_cores_for_cache, max_cores_for_package,
                coherency_line_size, physical_line_partitions, associativity, sets, is_write_back_invalidate, is_inclusive, has_complex_indexing);
        });
    }
}
fn monitor_mwait(o: &mut Obs, c: &CpuId<R>) {
    let g = "monitor_mwait";
    if let Some(x) = o.opt(g, "present", || c.get_monitor_mwait_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; smallest_monitor_line, largest_monitor_line, supported_c0_states, supported_c1_states, supported_c2_states,
            supported_c3_states, supported_c4_states, supported_c5_states, supported_c6_states, supported_c7_states);
        obs_flags_monitor_mwait(o, &x);
    }
}
fn thermal_power(o: &mut Obs, c: &CpuId<R>) {
    let g = "thermal_power";
    if let Some(x) = o.opt(g, "present", || c.get_thermal_power_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; dts_irq_threshold);
        obs_flags_thermal_power(o, &x);
    }
}
fn ext_features(o: &mut Obs, c: &CpuId<R>) {
    let g = "ext_features";
    if let Some(x) = o.opt(g, "present", || c.get_extended_feature_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; mawau_value);
        #[allow(deprecated)]
        obs_flags_ext_features(o, &x);
    }
}
fn dca(o: &mut Obs, c: &CpuId<R>) {
    let g = "dca";
    if let Some(x) = o.opt(g, "present", || c.get_direct_cache_access_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; get_dca_cap_value);
    }
}
fn perf_mon(o: &mut Obs, c: &CpuId<R>) {
    let g = "perf_mon";
    if let Some(x) = o.opt(g, "present", || c.get_performance_monitoring_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; version_id, number_of_counters, counter_bit_width, ebx_length, fixed_function_counters, fixed_function_counters_bit_width);
        obs_flags_perf_mon(o, &x);
    }
}
pub fn topology_type(t: TopologyType) -> &'static str {
    match t {
        TopologyType::Invalid => "Invalid", TopologyType::SMT => "SMT", TopologyType::Core => "Core",
        TopologyType::Module => "Module", TopologyType::Tile => "Tile", TopologyType::Die => "Die",
    }
}
fn topo(o: &mut Obs, g: &'static str, x: ExtendedTopologyIter<R>) {
    o.walk(g, || Box::new(x), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
        o.call(g, "level_type", i, || topology_type(e.level_type()));
        o.call(g, "level_type_display", i, || format!("{}", e.level_type()));
        icalls!(o, g, i, e; processors, level_number, x2apic_id, shift_right_for_next_apic_id);
    });
}
fn topology(o: &mut Obs, c: &CpuId<R>) {
    if let Some(x) = o.opt("topology", "present", || c.get_extended_topology_info()) { o.dbg("topology", NOIDX, &x); topo(o, "topology", x); }
}
fn topology_v2(o: &mut Obs, c: &CpuId<R>) {
    if let Some(x) = o.opt("topology_v2", "present", || c.get_extended_topology_info_v2()) { o.dbg("topology_v2", NOIDX, &x); topo(o, "topology_v2", x); }
}
pub fn register_type(r: ExtendedRegisterType) -> String {
    match r {
        ExtendedRegisterType::Avx => "Avx".into(), ExtendedRegisterType::MpxBndregs => "MpxBndregs".into(),
        ExtendedRegisterType::MpxBndcsr => "MpxBndcsr".into(), ExtendedRegisterType::Avx512Opmask => "Avx512Opmask".into(),
        ExtendedRegisterType::Avx512ZmmHi256 => "Avx512ZmmHi256".into(), ExtendedRegisterType::Avx512ZmmHi16 => "Avx512ZmmHi16".into(),
        ExtendedRegisterType::Pt => "Pt".into(), ExtendedRegisterType::Pkru => "Pkru".into(), ExtendedRegisterType::Hdc => "Hdc".into(),
        ExtendedRegisterType::Unknown(x) => format!("Unknown({})", x),
    }
}
fn xsave(o: &mut Obs, c: &CpuId<R>) {
    let g = "xsave";
    if let Some(x) = o.opt(g, "present", || c.get_extended_state_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; xsave_area_size_enabled_features, xsave_area_size_supported_features, xsave_size);
        obs_flags_xsave(o, &x);
        o.walk(g, || Box::new(x.iter()), ITER_LIMIT, |o, i, e| { o.dbg(g, e.subleaf, &e);
            // keyed by the component, not by the position: see model::xsave
            let k = e.subleaf;
            o.put(g, "order", i, k.into());
            o.call(g, "register", k, || register_type(e.register()));
            o.call(g, "register_display", k, || format!("{}", e.register()));
            o.call(g, "location", k, || match e.location() { ExtendedRegisterStateLocation::Xcr0 => "Xcr0", ExtendedRegisterStateLocation::Ia32Xss => "Ia32Xss" });
            o.call(g, "location_display", k, || format!("{}", e.location()));
            icalls!(o, g, k, e; size, offset, is_in_ia32_xss, is_in_xcr0, is_compacted_format);
        });
    }
}
fn rdt_mon(o: &mut Obs, c: &CpuId<R>) {
    let g = "rdt_mon";
    if let Some(x) = o.opt(g, "present", || c.get_rdt_monitoring_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; rmid_range);
        obs_flags_rdt_mon(o, &x);
        if let Some(y) = o.opt(g, "l3_monitoring", || x.l3_monitoring()) { o.dbg(g, 1, &y);
            icalls!(o, g, 1, y; conversion_factor, maximum_rmid_range, has_occupancy_monitoring, has_total_bandwidth_monitoring, has_local_bandwidth_monitoring);
        }
    }
}
fn rdt_alloc(o: &mut Obs, c: &CpuId<R>) {
    let g = "rdt_alloc";
    if let Some(x) = o.opt(g, "present", || c.get_rdt_allocation_info()) { o.dbg(g, NOIDX, &x);
        obs_flags_rdt_alloc(o, &x);
        if let Some(y) = o.opt(g, "l3_cat", || x.l3_cat()) { o.dbg(g, 1, &y);
            icalls!(o, g, 1, y; capacity_mask_length, isolation_bitmap, highest_cos, has_code_data_prioritization);
        }
        if let Some(y) = o.opt(g, "l2_cat", || x.l2_cat()) { o.dbg(g, 2, &y);
            icalls!(o, g, 2, y; capacity_mask_length, isolation_bitmap, highest_cos);
        }
        if let Some(y) = o.opt(g, "memory_bandwidth_allocation", || x.memory_bandwidth_allocation()) { o.dbg(g, 3, &y);
            icalls!(o, g, 3, y; max_hba_throttling, highest_cos, has_linear_response_delay);
        }
    }
}
fn sgx(o: &mut Obs, c: &CpuId<R>) {
    let g = "sgx";
    if let Some(x) = o.opt(g, "present", || c.get_sgx_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; miscselect, max_enclave_size_non_64bit, max_enclave_size_64bit);
        o.call(g, "secs_attributes_lower", NOIDX, || x.secs_attributes().0);
        o.call(g, "secs_attributes_upper", NOIDX, || x.secs_attributes().1);
        obs_flags_sgx(o, &x);
        o.dbg(g, 0x100_0000, &x.iter());
        o.walk(g, || Box::new(x.iter()), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
            let SgxSectionInfo::Epc(e) = e;
            icalls!(o, g, i, e; physical_base, size);
        });
    }
}
fn proc_trace(o: &mut Obs, c: &CpuId<R>) {
    let g = "proc_trace";
    if let Some(x) = o.opt(g, "present", || c.get_processor_trace_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; configurable_address_ranges, supported_mtc_period_encodings, supported_cycle_threshold_value_encodings, supported_psb_frequency_encodings);
        obs_flags_proc_trace(o, &x);
    }
}
fn tsc(o: &mut Obs, c: &CpuId<R>) {
    let g = "tsc";
    if let Some(x) = o.opt(g, "present", || c.get_tsc_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; denominator, numerator, nominal_frequency, tsc_frequency);
    }
}
fn freq(o: &mut Obs, c: &CpuId<R>) {
    let g = "freq";
    if let Some(x) = o.opt(g, "present", || c.get_processor_frequency_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; processor_base_frequency, processor_max_frequency, bus_frequency);
    }
}
fn soc(o: &mut Obs, c: &CpuId<R>) {
    let g = "soc";
    if let Some(x) = o.opt(g, "present", || c.get_soc_vendor_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; get_soc_vendor_id, get_project_id, get_stepping_id);
        if let Some(b) = o.opt(g, "vendor_brand", || x.get_vendor_brand()) { o.dbg(g, 1, &b);
            calls!(o, g, b; as_str);
            #[allow(deprecated)]
            o.call(g, "as_string", NOIDX, || b.as_string().to_string());
            o.call(g, "display", NOIDX, || format!("{}", b));
        }
        if let Some(it) = o.opt(g, "vendor_attributes", || x.get_vendor_attributes()) { o.dbg(g, 2, &it);
            o.walk(g, || Box::new(it), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
                for (f, v) in [("eax", e.eax), ("ebx", e.ebx), ("ecx", e.ecx), ("edx", e.edx)] { o.put(g, f, i, v.into()); }
                if i < 2 {
                    let part = |m: u32, k: u32, v: u32| if m >> k & 1 == 1 { v } else { 0 };
                    let zero: String = (0..16).map(|m| CpuIdResult { eax: part(m, 0, e.eax), ebx: part(m, 1, e.ebx), ecx: part(m, 2, e.ecx), edx: part(m, 3, e.edx) }).map(|x| if x.all_zero() { '0' } else { '1' }).collect();
                    o.texts.insert(Key { g, f: "parts that are not all zero", i }, zero);
                }
            });
        }
    }
}
pub fn dat_type(t: DatType) -> &'static str {
    match t {
        DatType::Null => "Null", DatType::DataTLB => "DataTLB", DatType::InstructionTLB => "InstructionTLB", DatType::UnifiedTLB => "UnifiedTLB",
        DatType::LoadOnly => "LoadOnly", DatType::StoreOnly => "StoreOnly", DatType::Unknown => "Unknown",
    }
}
fn dat(o: &mut Obs, c: &CpuId<R>) {
    let g = "dat";
    if let Some(x) = o.opt(g, "present", || c.get_deterministic_address_translation_info()) { o.dbg(g, NOIDX, &x);
        o.walk(g, || Box::new(x), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
            o.call(g, "cache_type", i, || dat_type(e.cache_type()));
            o.call(g, "cache_type_display", i, || format!("{}", e.cache_type()));
            icalls!(o, g, i, e; has_4k_entries, has_2mb_entries, has_4mb_entries, has_1gb_entries, is_fully_associative, partitioning,
                ways, sets, cache_level, max_addressable_ids);
        });
    }
}
fn hypervisor(o: &mut Obs, c: &CpuId<R>) {
    let g = "hypervisor";
    if let Some(x) = o.opt(g, "present", || c.get_hypervisor_info()) { o.dbg(g, NOIDX, &x);
        o.call(g, "identify", NOIDX, || hypervisor_name(x.identify()));
        calls!(o, g, x; tsc_frequency, apic_frequency);
    }
}
fn ext_ids(o: &mut Obs, c: &CpuId<R>) {
    let g = "ext_ids";
    if let Some(x) = o.opt(g, "present", || c.get_extended_processor_and_feature_identifiers()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; extended_signature, pkg_type, brand_id);
        obs_flags_ext_ids(o, &x);
    }
}
fn brand(o: &mut Obs, c: &CpuId<R>) {
    let g = "brand";
    if let Some(x) = o.opt(g, "present", || c.get_processor_brand_string()) { o.dbg(g, NOIDX, &x); calls!(o, g, x; as_str); }
}
fn l1(o: &mut Obs, c: &CpuId<R>) {
    let g = "l1";
    if let Some(x) = o.opt(g, "present", || c.get_l1_cache_and_tlb_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; dtlb_2m_4m_size, itlb_2m_4m_size, dtlb_4k_size, itlb_4k_size, dcache_size, dcache_lines_per_tag, dcache_line_size,
            icache_size, icache_lines_per_tag, icache_line_size);
        assocs!(o, g, x; dtlb_2m_4m_associativity, itlb_2m_4m_associativity, dtlb_4k_associativity, itlb_4k_associativity,
            dcache_associativity, icache_associativity);
    }
}
fn l2l3(o: &mut Obs, c: &CpuId<R>) {
    let g = "l2l3";
    if let Some(x) = o.opt(g, "present", || c.get_l2_l3_cache_and_tlb_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; dtlb_2m_4m_size, itlb_2m_4m_size, dtlb_4k_size, itlb_4k_size, l2cache_line_size, l2cache_lines_per_tag, l2cache_size,
            l3cache_line_size, l3cache_lines_per_tag, l3cache_size);
        assocs!(o, g, x; dtlb_2m_4m_associativity, itlb_2m_4m_associativity, dtlb_4k_associativity, itlb_4k_associativity,
            l2cache_associativity, l3cache_associativity);
    }
}
fn apm(o: &mut Obs, c: &CpuId<R>) {
    let g = "apm";
    if let Some(x) = o.opt(g, "present", || c.get_advanced_power_mgmt_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; cpu_pwr_sample_time_ratio);
        obs_flags_apm(o, &x);
    }
}
fn capacity(o: &mut Obs, c: &CpuId<R>) {
    let g = "capacity";
    if let Some(x) = o.opt(g, "present", || c.get_processor_capacity_feature_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; physical_address_bits, linear_address_bits, guest_physical_address_bits, perf_tsc_size, apic_id_size,
            maximum_logical_processors, num_phys_threads, invlpgb_max_pages, max_rdpru_id);
        obs_flags_capacity(o, &x);
    }
}
fn svm(o: &mut Obs, c: &CpuId<R>) {
    let g = "svm";
    if let Some(x) = o.opt(g, "present", || c.get_svm_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; revision, supported_asids);
        obs_flags_svm(o, &x);
    }
}
fn tlb1g(o: &mut Obs, c: &CpuId<R>) {
    let g = "tlb1g";
    if let Some(x) = o.opt(g, "present", || c.get_tlb_1gb_page_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; dtlb_l1_1gb_size, itlb_l1_1gb_size, dtlb_l2_1gb_size, itlb_l2_1gb_size);
        assocs!(o, g, x; dtlb_l1_1gb_associativity, itlb_l1_1gb_associativity, dtlb_l2_1gb_associativity, itlb_l2_1gb_associativity);
    }
}
fn perf_opt(o: &mut Obs, c: &CpuId<R>) {
    if let Some(x) = o.opt("perf_opt", "present", || c.get_performance_optimization_info()) { o.dbg("perf_opt", NOIDX, &x); obs_flags_perf_opt(o, &x); }
}
fn ibs(o: &mut Obs, c: &CpuId<R>) {
    if let Some(x) = o.opt("ibs", "present", || c.get_instruction_based_sampling_capabilities()) { o.dbg("ibs", NOIDX, &x); obs_flags_ibs(o, &x); }
}
fn proc_topo(o: &mut Obs, c: &CpuId<R>) {
    let g = "proc_topo";
    if let Some(x) = o.opt(g, "present", || c.get_processor_topology_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; x2apic_id, core_id, threads_per_core, node_id, nodes_per_processor);
    }
}
fn mem_enc(o: &mut Obs, c: &CpuId<R>) {
    let g = "mem_enc";
    if let Some(x) = o.opt(g, "present", || c.get_memory_encryption_info()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; c_bit_position, physical_address_reduction, max_encrypted_guests, min_sev_no_es_asid);
        obs_flags_mem_enc(o, &x);
    }
}
fn pqos(o: &mut Obs, c: &CpuId<R>) {
    let g = "pqos";
    if let Some(x) = o.opt(g, "present", || c.get_pqos_extended_feature_info()) { o.dbg(g, NOIDX, &x);
        obs_flags_pqos(o, &x);
        if let Some(y) = o.opt(g, "l3mbe_info", || x.get_l3_memory_bandwidth_enforcement_info()) { o.dbg(g, 1, &y); icalls!(o, g, 1, y; bandwidth_length, cos_max); }
        if let Some(y) = o.opt(g, "l3smbe_info", || x.get_l3_slow_memory_bandwidth_enforcement_info()) { o.dbg(g, 2, &y); icalls!(o, g, 2, y; bandwidth_length, cos_max); }
        if let Some(y) = o.opt(g, "bmec_info", || x.get_bandwidth_monitoring_event_counters_info()) { o.dbg(g, 3, &y);
            icalls!(o, g, 3, y; number_events, has_l3_cache_lcl_bw_fill_mon, has_l3_cache_rmt_bw_fill_mon, has_l3_cache_lcl_bw_nt_wr_mon,
                has_l3_cache_rmt_bw_nt_wr_mon, has_l3_cache_lcl_slow_bw_fill_mon, has_l3_cache_rmt_slow_bw_fill_mon, has_l3_cache_vic_mon);
        }
        if let Some(y) = o.opt(g, "abmc_info", || x.get_assignable_bandwidth_monitoring_counters_info()) { o.dbg(g, 5, &y);
            icalls!(o, g, 5, y; counter_size, max_abmc, has_overflow_bit, has_select_cos);
        }
    }
}
fn ext_feat_id2(o: &mut Obs, c: &CpuId<R>) {
    let g = "ext_feat_id2";
    if let Some(x) = o.opt(g, "present", || c.get_extended_feature_identification_2()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; microcode_patch_size);
        obs_flags_ext_feat_id2(o, &x);
    }
}
fn ext_perf_mon(o: &mut Obs, c: &CpuId<R>) {
    let g = "ext_perf_mon";
    if let Some(x) = o.opt(g, "present", || c.get_extended_performance_monitoring_and_debug()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; num_perf_ctr_core, num_lbr_stack_size, num_perf_ctr_nb);
        obs_flags_ext_perf_mon(o, &x);
    }
}
fn mem_multikey(o: &mut Obs, c: &CpuId<R>) {
    let g = "mem_multikey";
    if let Some(x) = o.opt(g, "present", || c.get_multi_key_encrypted_memory_capabilities()) { o.dbg(g, NOIDX, &x);
        calls!(o, g, x; max_mem_hmk_encr_key_id);
        obs_flags_mem_multikey(o, &x);
    }
}
fn ext_cpu_topo(o: &mut Obs, c: &CpuId<R>) {
    let g = "ext_cpu_topo";
    if let Some(x) = o.opt(g, "present", || c.get_extended_cpu_topology()) {
        o.dbg(g, NOIDX, &x);
        o.walk(g, || Box::new(x), ITER_LIMIT, |o, i, e| { o.dbg(g, i, &e);
            o.call(g, "level_type", i, || match e.level_type() {
                HierarchyLevelType::Reserved => "Reserved".to_string(), HierarchyLevelType::Core => "Core".into(),
                HierarchyLevelType::Complex => "Complex".into(), HierarchyLevelType::Die => "Die".into(),
                HierarchyLevelType::Socket => "Socket".into(), HierarchyLevelType::Unknown(x) => format!("Unknown({})", x),
            });
            o.call(g, "level_type_display", i, || format!("{}", e.level_type()));
            icalls!(o, g, i, e; mask_width, num_logical_processors, pwr_efficiency_ranking, native_mode_id, core_type, input_ecx,
                extended_apic_id, has_efficiency_ranking_available, has_heterogeneous_cores, has_asymmetric_topology);
        });
    }
}

// --- every yes/no question, by structure -------------------------------------
macro_rules! flags {
    ($o:expr, $g:expr, $x:expr; $($f:ident),* $(,)?) => { $( #[allow(deprecated)] $o.call($g, stringify!($f), NOIDX, || $x.$f()); )* };
}
pub fn obs_flags_feature_info(o: &mut Obs, x: &FeatureInfo) {
    flags!(o, "feature_info", x;
        has_sse3,
        has_pclmulqdq,
        has_ds_area,
        has_monitor_mwait,
        has_cpl,
        has_vmx,
        has_smx,
        has_eist,
        has_tm2,
        has_ssse3,
        has_cnxtid,
        has_fma,
        has_cmpxchg16b,
        has_pdcm,
        has_pcid,
        has_dca,
        has_sse41,
        has_sse42,
        has_x2apic,
        has_movbe,
        has_popcnt,
        has_tsc_deadline,
        has_aesni,
        has_xsave,
        has_oxsave,
        has_avx,
        has_f16c,
        has_rdrand,
        has_hypervisor,
        has_fpu,
        has_vme,
        has_de,
        has_pse,
        has_tsc,
        has_msr,
        has_pae,
        has_mce,
        has_cmpxchg8b,
        has_apic,
        has_sysenter_sysexit,
        has_mtrr,
        has_pge,
        has_mca,
        has_cmov,
        has_pat,
        has_pse36,
        has_psn,
        has_clflush,
        has_ds,
        has_acpi,
        has_mmx,
        has_fxsave_fxstor,
        has_sse,
        has_sse2,
        has_ss,
        has_htt,
        has_tm,
        has_pbe,
    );
}
pub fn obs_flags_monitor_mwait(o: &mut Obs, x: &MonitorMwaitInfo) {
    flags!(o, "monitor_mwait", x;
        extensions_supported,
        interrupts_as_break_event,
    );
}
pub fn obs_flags_thermal_power(o: &mut Obs, x: &ThermalPowerInfo) {
    flags!(o, "thermal_power", x;
        has_dts,
        has_turbo_boost,
        has_arat,
        has_pln,
        has_ecmd,
        has_ptm,
        has_hwp,
        has_hwp_notification,
        has_hwp_activity_window,
        has_hwp_energy_performance_preference,
        has_hwp_package_level_request,
        has_hdc,
        has_turbo_boost3,
        has_hwp_capabilities,
        has_hwp_peci_override,
        has_flexible_hwp,
        has_hwp_fast_access_mode,
        has_ignore_idle_processor_hwp_request,
        has_hw_coord_feedback,
        has_energy_bias_pref,
    );
}
pub fn obs_flags_ext_features(o: &mut Obs, x: &ExtendedFeatures) {
    flags!(o, "ext_features", x;
        has_fsgsbase,
        has_tsc_adjust_msr,
        has_bmi1,
        has_hle,
        has_avx2,
        has_fdp,
        has_smep,
        has_bmi2,
        has_rep_movsb_stosb,
        has_invpcid,
        has_rtm,
        has_rdtm,
        has_fpu_cs_ds_deprecated,
        has_mpx,
        has_rdta,
        has_rdseed,
        has_adx,
        has_smap,
        has_clflushopt,
        has_processor_trace,
        has_sha,
        has_sgx,
        has_avx512f,
        has_avx512dq,
        has_avx512_ifma,
        has_avx512pf,
        has_avx512er,
        has_avx512cd,
        has_avx512bw,
        has_avx512vl,
        has_clwb,
        has_prefetchwt1,
        has_avx512vbmi,
        has_umip,
        has_pku,
        has_ospke,
        has_waitpkg,
        has_av512vbmi2,
        has_avx512vbmi2,
        has_cet_ss,
        has_gfni,
        has_vaes,
        has_vpclmulqdq,
        has_avx512vnni,
        has_avx512bitalg,
        has_tme_en,
        has_avx512vpopcntdq,
        has_la57,
        has_rdpid,
        has_sgx_lc,
        has_avx512_4vnniw,
        has_avx512_4fmaps,
        has_avx512_vp2intersect,
        has_amx_bf16,
        has_avx512_fp16,
        has_amx_tile,
        has_amx_int8,
        has_avx_vnni,
        has_avx512_bf16,
        has_fzrm,
        has_fsrs,
        has_fsrcrs,
        has_hreset,
        has_avx_ifma,
        has_lam,
        has_msrlist,
        has_invd_disable_post_bios_done,
        has_avx_vnni_int8,
        has_avx_ne_convert,
        has_avx_vnni_int16,
        has_prefetchi,
        has_uiret_uif,
        has_cet_sss,
        has_avx10,
    );
}
pub fn obs_flags_perf_mon(o: &mut Obs, x: &PerformanceMonitoringInfo) {
    flags!(o, "perf_mon", x;
        has_any_thread_deprecation,
        is_core_cyc_ev_unavailable,
        is_inst_ret_ev_unavailable,
        is_ref_cycle_ev_unavailable,
        is_cache_ref_ev_unavailable,
        is_ll_cache_miss_ev_unavailable,
        is_branch_inst_ret_ev_unavailable,
        is_branch_midpred_ev_unavailable,
    );
}
pub fn obs_flags_xsave(o: &mut Obs, x: &ExtendedStateInfo<R>) {
    flags!(o, "xsave", x;
        xcr0_supports_legacy_x87,
        xcr0_supports_sse_128,
        xcr0_supports_avx_256,
        xcr0_supports_mpx_bndregs,
        xcr0_supports_mpx_bndcsr,
        xcr0_supports_avx512_opmask,
        xcr0_supports_avx512_zmm_hi256,
        xcr0_supports_avx512_zmm_hi16,
        xcr0_supports_pkru,
        ia32_xss_supports_pt,
        ia32_xss_supports_hdc,
        has_xsaveopt,
        has_xsavec,
        has_xgetbv,
        has_xsaves_xrstors,
    );
}
pub fn obs_flags_rdt_mon(o: &mut Obs, x: &RdtMonitoringInfo<R>) {
    flags!(o, "rdt_mon", x;
        has_l3_monitoring,
    );
}
pub fn obs_flags_rdt_alloc(o: &mut Obs, x: &RdtAllocationInfo<R>) {
    flags!(o, "rdt_alloc", x;
        has_l3_cat,
        has_l2_cat,
        has_memory_bandwidth_allocation,
    );
}
pub fn obs_flags_sgx(o: &mut Obs, x: &SgxInfo<R>) {
    flags!(o, "sgx", x;
        has_sgx1,
        has_sgx2,
        has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext,
        has_encls_leaves_etrackc_erdinfo_eldbc_elduc,
    );
}
pub fn obs_flags_proc_trace(o: &mut Obs, x: &ProcessorTraceInfo) {
    flags!(o, "proc_trace", x;
        has_rtit_cr3_match,
        has_configurable_psb_and_cycle_accurate_mode,
        has_ip_tracestop_filtering,
        has_mtc_timing_packet_coefi_suppression,
        has_ptwrite,
        has_power_event_trace,
        has_topa,
        has_topa_maximum_entries,
        has_single_range_output_scheme,
        has_trace_transport_subsystem,
        has_lip_with_cs_base,
    );
}
pub fn obs_flags_ext_ids(o: &mut Obs, x: &ExtendedProcessorFeatureIdentifiers) {
    flags!(o, "ext_ids", x;
        has_lahf_sahf,
        has_cmp_legacy,
        has_svm,
        has_ext_apic_space,
        has_alt_mov_cr8,
        has_lzcnt,
        has_sse4a,
        has_misaligned_sse_mode,
        has_prefetchw,
        has_osvw,
        has_ibs,
        has_xop,
        has_skinit,
        has_wdt,
        has_lwp,
        has_fma4,
        has_tbm,
        has_topology_extensions,
        has_perf_cntr_extensions,
        has_nb_perf_cntr_extensions,
        has_data_access_bkpt_extension,
        has_perf_tsc,
        has_perf_cntr_llc_extensions,
        has_monitorx_mwaitx,
        has_addr_mask_extension,
        has_syscall_sysret,
        has_execute_disable,
        has_mmx_extensions,
        has_fast_fxsave_fxstor,
        has_1gib_pages,
        has_rdtscp,
        has_64bit_mode,
        has_amd_3dnow_extensions,
        has_3dnow,
    );
}
pub fn obs_flags_apm(o: &mut Obs, x: &ApmInfo) {
    flags!(o, "apm", x;
        has_mca_overflow_recovery,
        has_succor,
        has_hwa,
        has_ts,
        has_freq_id_ctrl,
        has_volt_id_ctrl,
        has_thermtrip,
        has_tm,
        has_100mhz_steps,
        has_hw_pstate,
        has_invariant_tsc,
        has_cpb,
        has_ro_effective_freq_iface,
        has_feedback_iface,
        has_power_reporting_iface,
    );
}
pub fn obs_flags_capacity(o: &mut Obs, x: &ProcessorCapacityAndFeatureInfo) {
    flags!(o, "capacity", x;
        has_cl_zero,
        has_inst_ret_cntr_msr,
        has_restore_fp_error_ptrs,
        has_invlpgb,
        has_rdpru,
        has_mcommit,
        has_wbnoinvd,
        has_int_wbinvd,
        has_unsupported_efer_lmsle,
        has_invlpgb_nested,
    );
}
pub fn obs_flags_svm(o: &mut Obs, x: &SvmFeatures) {
    flags!(o, "svm", x;
        has_nested_paging,
        has_lbr_virtualization,
        has_svm_lock,
        has_nrip,
        has_tsc_rate_msr,
        has_vmcb_clean_bits,
        has_flush_by_asid,
        has_decode_assists,
        has_pause_filter,
        has_pause_filter_threshold,
        has_avic,
        has_vmsave_virtualization,
        has_gif,
        has_gmet,
        has_sss_check,
        has_spec_ctrl,
        has_host_mce_override,
        has_tlb_ctrl,
    );
}
pub fn obs_flags_perf_opt(o: &mut Obs, x: &PerformanceOptimizationInfo) {
    flags!(o, "perf_opt", x;
        has_fp128,
        has_movu,
        has_fp256,
    );
}
pub fn obs_flags_ibs(o: &mut Obs, x: &InstructionBasedSamplingCapabilities) {
    flags!(o, "ibs", x;
        has_feature_flags,
        has_fetch_sampling,
        has_execution_sampling,
        has_read_write_operation_counter,
        has_operation_counter,
        has_branch_target_address_reporting,
        has_operation_counter_extended,
        has_invalid_rip_indication,
        has_fused_branch_micro_op_indication,
        has_l3_miss_filtering,
    );
}
pub fn obs_flags_mem_enc(o: &mut Obs, x: &MemoryEncryptionInfo) {
    flags!(o, "mem_enc", x;
        has_sme,
        has_sev,
        has_page_flush_msr,
        has_sev_es,
        has_sev_snp,
        has_vmpl,
        has_hw_enforced_cache_coh,
        has_64bit_mode,
        has_restricted_injection,
        has_alternate_injection,
        has_debug_swap,
        has_prevent_host_ibs,
        has_vte,
    );
}
pub fn obs_flags_pqos(o: &mut Obs, x: &PqosExtendedFeatureInfo<R>) {
    flags!(o, "pqos", x;
        has_l3mbe,
        has_l3smbe,
        has_bmec,
        has_l3rr,
        has_abmc,
        has_sdciae,
    );
}
pub fn obs_flags_ext_feat_id2(o: &mut Obs, x: &ExtendedFeatureIdentification2) {
    flags!(o, "ext_feat_id2", x;
        has_no_nested_data_bp,
        has_lfence_always_serializing,
        has_smm_pg_cfg_lock,
        has_null_select_clears_base,
        has_upper_address_ignore,
        has_automatic_ibrs,
        has_no_smm_ctl_msr,
        has_prefetch_ctl_msr,
        has_cpuid_user_dis,
    );
}
pub fn obs_flags_ext_perf_mon(o: &mut Obs, x: &ExtendedPerformanceMonitoringDebug) {
    flags!(o, "ext_perf_mon", x;
        has_perf_mon_v2,
        has_lbr_stack,
        has_lbr_and_pmc_freeze,
    );
}
pub fn obs_flags_mem_multikey(o: &mut Obs, x: &MultiKeyEncryptedMemoryCapabilities) {
    flags!(o, "mem_multikey", x;
        has_mem_hmk,
    );
}

/// All answers and texts as lines of text, for comparison across processes.
/// All answers and texts, one to a line; `all`: with the text of everything too.
pub fn dump(t: &crate::table::Table, groups: &[&str]) -> String { dump_of(t, groups, true) }
pub fn dump_of(t: &crate::table::Table, groups: &[&str], all: bool) -> String {
    let r = TableReader::new(t);
    let id = match caught(|| CpuId::with_cpuid_reader(r.clone())) { Ok(x) => x, Err(e) => return format!("construction panicked: {}\n", e) };
    let mut o = Obs { want_debug: true, list: Some(Vec::new()), ..Obs::default() };
    for g in groups {
        r.refuel();
        observe_group(&mut o, &id, g);
    }
    // written by hand, as an interpreter is slow at the macros for it
    let mut s = String::new();
    for (k, v) in o.list.iter().flatten() { key(&mut s, k.g, k.f, k.i); s.push_str(" = "); answer(&mut s, v); s.push('\n'); }
    for (k, v) in &o.texts { key(&mut s, k.g, k.f, k.i); s.push_str(" prints "); line(&mut s, v); s.push('\n'); }
    for (g, i, v) in &o.dbg { key(&mut s, g, "debug", *i); s.push_str(" = "); answer(&mut s, v); s.push('\n'); }
    r.refuel();
    if all {
        match caught(|| format!("{:?}", id)) { Ok(x) => { s.push_str("all.debug = "); line(&mut s, &x) }, Err(e) => { s.push_str("all.debug panicked: "); line(&mut s, &e) } }
        s.push('\n');
    }
    s
}
fn key(s: &mut String, g: &str, f: &str, i: u32) {
    s.push_str(g);
    if i != NOIDX { s.push('['); number(s, i as u128); s.push(']'); }
    s.push('.');
    s.push_str(f);
}
fn number(s: &mut String, n: u128) {
    let mut n = match u64::try_from(n) { Ok(n) => n, Err(_) => { s.push_str(&n.to_string()); return } };
    let mut b = [0u8; 20];
    let mut at = 20;
    loop { at -= 1; b[at] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break } }
    s.push_str(core::str::from_utf8(&b[at..]).unwrap_or("?"));
}
fn answer(s: &mut String, v: &V) {
    match v {
        V::S(x) => { s.push_str("S("); line(s, x); s.push(')') }
        V::U(x) => { s.push_str("U("); number(s, *x); s.push(')') }
        V::B(x) => s.push_str(if *x { "B(true)" } else { "B(false)" }),
        v => s.push_str(&format!("{:?}", v)),
    }
}
/// A text on one line.
fn line(s: &mut String, x: &str) {
    if x.bytes().all(|b| b >= 0x20) { s.push_str(x) } else if x.bytes().all(|b| b >= 0x20 || b == b'\n') { for p in x.split('\n') { s.push_str(p); s.push_str("\\n"); } } else { s.push_str(&format!("{:?}", x)) }
}
