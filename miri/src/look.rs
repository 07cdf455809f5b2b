//! Looks at everything one structure has to say: its texts, and those of its items.

use raw_cpuid::{CpuId, CpuIdReader};
use std::fmt::Write;

/// What was said; and whether something was handed out as text that is none.
#[derive(Default)]
pub struct Digest(String, pub bool);
impl Write for Digest {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push_str(s); Ok(()) }
}
impl Digest {
    /// A sum of the text and its length, which do not depend on the letters this standard library knows (an older
    /// one prints new letters as `\u{..}`).
    pub fn sum(&self) -> (u64, u64) {
        let (mut h, mut n, mut rest) = (0u64, 0, self.0.as_str());
        let mut add = |c: u32| { h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5); n += 1; };
        while let Some(c) = rest.chars().next() {
            rest = &rest[c.len_utf8()..];
            let code = if c == '\\' { rest.strip_prefix("u{").and_then(|r| r.split_once('}')) } else { None };
            match code.and_then(|(x, after)| Some((u32::from_str_radix(x, 16).ok()?, after))) {
                Some((x, after)) => { add(x); rest = after; }
                None => add(c as u32),
            }
        }
        (h, n)
    }
}

/// Text, character by character.
fn letters(s: &str, w: &mut Digest) {
    if std::str::from_utf8(s.as_bytes()).is_err() { w.1 = true; return; }
    let _ = write!(w, "{:?};{}", s, s.chars().count());
}

pub fn look<R: CpuIdReader>(c: &CpuId<R>, g: &str, most: usize, w: &mut Digest) -> bool {
    macro_rules! show { ($e:expr) => { if let Some(x) = $e { let _ = write!(w, "{:?};", x); true } else { false } } }
    macro_rules! text { ($e:expr) => { if let Some(x) = $e { letters(x.as_str(), w); if !w.1 { let _ = write!(w, "{:?};{};{}", x, x, x == x); } true } else { false } } }
    macro_rules! list { ($e:expr, |$x:ident| $more:expr) => { if let Some(it) = $e { for $x in it.take(most) { let _ = write!(w, "{:?};{:?}", $x, $more); } true } else { false } } }
    match g {
        "vendor" => text!(c.get_vendor_info()),
        "brand" => if let Some(x) = c.get_processor_brand_string() { letters(x.as_str(), w); if !w.1 { let _ = write!(w, "{:?}", x); } true } else { false },
        "feature_info" => show!(c.get_feature_info()),
        "cache_info" => list!(c.get_cache_info(), |x| (x.desc(), x.num, x.typ)),
        "serial" => show!(c.get_processor_serial()),
        "cache_params" => list!(c.get_cache_parameters(), |x| x.cache_type()),
        "monitor_mwait" => show!(c.get_monitor_mwait_info()),
        "thermal_power" => show!(c.get_thermal_power_info()),
        "ext_features" => show!(c.get_extended_feature_info()),
        "dca" => show!(c.get_direct_cache_access_info()),
        "perf_mon" => show!(c.get_performance_monitoring_info()),
        "topology" => list!(c.get_extended_topology_info(), |x| x.level_type()),
        "topology_v2" => list!(c.get_extended_topology_info_v2(), |x| x.level_type()),
        "xsave" => if let Some(x) = c.get_extended_state_info() { let _ = write!(w, "{} {}", x.xsave_size(), x.has_xsavec()); for i in x.iter().take(most) { let _ = write!(w, "{:?};{:?};{:?}", i, i.register(), i.location()); } true } else { false },
        "rdt_mon" => show!(c.get_rdt_monitoring_info()),
        "rdt_alloc" => show!(c.get_rdt_allocation_info()),
        "sgx" => if let Some(x) = c.get_sgx_info() { let _ = write!(w, "{}", x.secs_attributes().0); for i in x.iter().take(most) { let _ = write!(w, "{:?};", i); } true } else { false },
        "proc_trace" => show!(c.get_processor_trace_info()),
        "tsc" => show!(c.get_tsc_info()),
        "freq" => show!(c.get_processor_frequency_info()),
        "soc" => if let Some(x) = c.get_soc_vendor_info() {
            let _ = write!(w, "{} {}", x.get_project_id(), x.get_stepping_id());
            text!(x.get_vendor_brand());
            list!(x.get_vendor_attributes(), |x| x.all_zero());
            true
        } else { false },
        "dat" => list!(c.get_deterministic_address_translation_info(), |x| x.cache_type()),
        "hypervisor" => if let Some(x) = c.get_hypervisor_info() { let _ = write!(w, "{:?};{:?};{:?}", x.identify(), x.tsc_frequency(), x.apic_frequency()); true } else { false },
        "ext_ids" => show!(c.get_extended_processor_and_feature_identifiers()),
        "l1" => show!(c.get_l1_cache_and_tlb_info()),
        "l2l3" => show!(c.get_l2_l3_cache_and_tlb_info()),
        "apm" => show!(c.get_advanced_power_mgmt_info()),
        "capacity" => show!(c.get_processor_capacity_feature_info()),
        "svm" => show!(c.get_svm_info()),
        "tlb1g" => show!(c.get_tlb_1gb_page_info()),
        "perf_opt" => show!(c.get_performance_optimization_info()),
        "ibs" => show!(c.get_instruction_based_sampling_capabilities()),
        "proc_topo" => show!(c.get_processor_topology_info()),
        "mem_enc" => show!(c.get_memory_encryption_info()),
        "pqos" => show!(c.get_pqos_extended_feature_info()),
        "ext_feat_id2" => show!(c.get_extended_feature_identification_2()),
        "ext_perf_mon" => show!(c.get_extended_performance_monitoring_and_debug()),
        "mem_multikey" => show!(c.get_multi_key_encrypted_memory_capabilities()),
        "ext_cpu_topo" => list!(c.get_extended_cpu_topology(), |x| x.level_type()),
        _ => false,
    }
}
