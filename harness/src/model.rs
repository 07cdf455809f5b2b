//! The reference model: what the library must answer, computed from the answer table alone.

use crate::obs::{Map, Key, V, NOIDX};
use crate::spec::{DESCRIPTORS, FLAGS, NUMS};
use crate::table::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ven { Intel, Amd, Other }

pub fn bits(v: u32, lo: u32, hi: u32) -> u64 {
    let w = hi - lo + 1;
    ((v as u64) >> lo) & ((1u64 << w) - 1)
}
fn bit(v: u32, b: u32) -> bool { bits(v, b, b) == 1 }

pub fn le_bytes(rs: &[u32]) -> Vec<u8> { rs.iter().flat_map(|r| r.to_le_bytes()).collect() }

pub fn vendor_bytes(t: &Table) -> Vec<u8> {
    let r = t.get(0, 0);
    le_bytes(&[r[EBX], r[EDX], r[ECX]])
}
pub fn vendor(t: &Table) -> Ven {
    match &vendor_bytes(t)[..] {
        b"GenuineIntel" => Ven::Intel,
        b"AuthenticAMD" | b"HygonGenuine" => Ven::Amd,
        _ => Ven::Other,
    }
}

/// Is the leaf there: within the advertised range, and not one AMD reserves.
pub fn supported(t: &Table, leaf: u32) -> bool {
    if vendor(t) == Ven::Amd && matches!(leaf, 2 | 3 | 4 | 8 | 9 | 0xa) { return false; }
    let max = if leaf < 0x8000_0000 { t.get(0, 0)[EAX] } else { t.get(0x8000_0000, 0)[EAX] };
    leaf <= max
}

/// The leaf a group of questions is answered from.
pub fn leaf_of(g: &str) -> u32 {
    match g {
        "vendor" => 0, "feature_info" => 1, "cache_info" => 2, "serial" => 3, "cache_params" => 4, "monitor_mwait" => 5,
        "thermal_power" => 6, "ext_features" => 7, "dca" => 9, "perf_mon" => 0xa, "topology" => 0xb, "topology_v2" => 0x1f,
        "xsave" => 0xd, "rdt_mon" => 0xf, "rdt_alloc" => 0x10, "sgx" => 0x12, "proc_trace" => 0x14, "tsc" => 0x15, "freq" => 0x16,
        "soc" => 0x17, "dat" => 0x18, "hypervisor" => 0x4000_0000, "ext_ids" => 0x8000_0001, "brand" => 0x8000_0002,
        "l1" => 0x8000_0005, "l2l3" => 0x8000_0006, "apm" => 0x8000_0007, "capacity" => 0x8000_0008, "svm" => 0x8000_000a,
        "tlb1g" => 0x8000_0019, "perf_opt" => 0x8000_001a, "ibs" => 0x8000_001b, "proc_topo" => 0x8000_001e, "mem_enc" => 0x8000_001f,
        "pqos" => 0x8000_0020, "ext_feat_id2" => 0x8000_0021, "ext_perf_mon" => 0x8000_0022, "mem_multikey" => 0x8000_0023,
        "ext_cpu_topo" => 0x8000_0026, _ => panic!("no leaf for {}", g),
    }
}

pub fn present(t: &Table, g: &str) -> bool {
    let v = vendor(t);
    match g {
        "cache_params" => if v == Ven::Amd { supported(t, 0x8000_001d) } else { supported(t, 4) },
        "sgx" => supported(t, 7) && bit(t.get(7, 0)[EBX], 2) && supported(t, 0x12),
        "hypervisor" => supported(t, 1) && bit(t.get(1, 0)[ECX], 31) && t.get(0x4000_0000, 0)[EAX] > 0,
        "brand" => (0x8000_0002..=0x8000_0004).all(|l| supported(t, l)),
        "l1" => v == Ven::Amd && supported(t, 0x8000_0005),
        "svm" => v == Ven::Amd && supported(t, 0x8000_0001) && bit(t.get(0x8000_0001, 0)[ECX], 2) && supported(t, 0x8000_000a),
        _ => supported(t, leaf_of(g)),
    }
}

pub struct M<'a> { pub m: Map, pub t: &'a Table }

impl<'a> M<'a> {
    fn put(&mut self, g: &'static str, f: &'static str, i: u32, v: impl Into<V>) { self.m.insert(Key { g, f, i }, v.into()); }
    fn top(&mut self, g: &'static str, f: &'static str, v: impl Into<V>) { self.put(g, f, NOIDX, v); }
}


/// Text of a byte field; what is said about undecodable bytes is any placeholder.
fn text(b: &[u8], trim: bool) -> V {
    match std::str::from_utf8(b) {
        Ok(s) => V::S(if trim { s.trim().to_string() } else { s.to_string() }),
        Err(_) => V::Any,
    }
}

pub fn assoc_l1(n: u64) -> V {
    match n { 0 => "Disabled".into(), 1 => "DirectMapped".into(), 0xff => "FullyAssociative".into(), n => V::S(format!("NWay({})", n)) }
}
/// The 4-bit encoding of the L2/L3 and TLB fields. Codes 3 and 7 mean different things
/// in different editions of the manuals (reserved / 3-way, reserved / see leaf 4), 9 defers to another leaf.
pub fn assoc_l2(n: u64) -> V {
    let w = |k: u32| V::S(format!("NWay({})", k));
    match n {
        0 => "Disabled".into(), 1 => "DirectMapped".into(), 2 => w(2), 3 => V::OneOf(vec!["Unknown".into(), w(3)]), 4 => w(4), 5 => w(6), 6 => w(8),
        7 => V::OneOf(vec!["Unknown".into()]), 8 => w(16), 9 => "Unknown".into(), 0xa => w(32), 0xb => w(48), 0xc => w(64), 0xd => w(96), 0xe => w(128),
        _ => "FullyAssociative".into(),
    }
}

pub const XCR0_ENUM: &[u32] = &[2, 3, 4, 5, 6, 7, 9, 17, 18];
pub const XSS_ENUM: &[u32] = &[8, 10, 11, 12, 13, 14, 15, 16];

pub fn descriptor_bytes(t: &Table) -> Vec<u8> {
    let r = t.get(2, 0);
    let mut out = Vec::new();
    for (i, reg) in r.iter().enumerate() {
        if *reg >> 31 == 1 { continue; } // the register holds no descriptors
        for (j, b) in reg.to_le_bytes().iter().enumerate() {
            if i == 0 && j == 0 { continue; } // AL is the number of rounds, always 1
            if *b != 0 && DESCRIPTORS.iter().any(|d| d.0 == *b) { out.push(*b); }
        }
    }
    out.sort_unstable();
    out
}

pub fn topo_type(n: u64) -> Option<&'static str> {
    match n { 1 => Some("SMT"), 2 => Some("Core"), 3 => Some("Module"), 4 => Some("Tile"), 5 => Some("Die"), _ => None }
}

const ITER_LIMIT: u32 = crate::obs::ITER_LIMIT as u32;

pub fn model_group(m: &mut M, g: &'static str) {
    let t = m.t;
    let p = present(t, g);
    m.top(g, "present", p);
    if !p { return; }
    let v = vendor(t);
    for f in FLAGS.iter().filter(|f| f.g == g) {
        let on = bit(t.get(f.leaf, f.sub)[f.reg], f.bit) && (!f.amd || v == Ven::Amd);
        m.top(g, f.f, on);
    }
    for n in NUMS.iter().filter(|n| n.g == g) {
        m.top(g, n.f, bits(t.get(n.leaf, n.sub)[n.reg], n.lo, n.hi) + n.bias);
    }
    match g {
        "vendor" => {
            let b = vendor_bytes(t);
            for f in ["as_str", "as_string", "display"] { m.top(g, f, text(&b, false)); }
        }
        "feature_info" => {
            let a = t.get(1, 0)[EAX];
            let (base, ext, bm, em) = (bits(a, 8, 11), bits(a, 20, 27), bits(a, 4, 7), bits(a, 16, 19));
            // The answer is an 8-bit number: a sum beyond it saturates.
            let fam_ext = (base + ext).min(0xff);
            let mod_ext = (em << 4) | bm;
            let fam: V = match v {
                Ven::Intel | Ven::Amd => (if base == 0xf { fam_ext } else { base }).into(),
                Ven::Other => V::OneOf(vec![base.into(), fam_ext.into()]),
            };
            let model: V = match v {
                Ven::Intel => (if base == 0xf || base == 6 { mod_ext } else { bm }).into(),
                Ven::Amd => (if base == 0xf { mod_ext } else { bm }).into(),
                Ven::Other => V::OneOf(vec![bm.into(), mod_ext.into()]),
            };
            m.top(g, "family_id", fam);
            m.top(g, "model_id", model);
        }
        "cache_info" => {
            let ds = descriptor_bytes(t);
            m.top(g, "len", ds.len());
            for (i, b) in ds.iter().enumerate() {
                let d = DESCRIPTORS.iter().find(|d| d.0 == *b).unwrap();
                let i = i as u32;
                m.put(g, "num", i, *b);
                m.put(g, "typ", i, match d.1 {
                    'C' => V::from("Cache"), 'T' => "TLB".into(), 'P' => "Prefetch".into(), 'G' => "General".into(),
                    _ => V::OneOf(vec!["Cache".into(), "TLB".into()]),
                });
                m.put(g, "desc", i, if *b == 0xc2 { V::OneOf(vec![d.2.into(), "2M 4M 4 16".into(), "4K 2M 4 16".into()]) } else { d.2.into() });
                m.put(g, "kind", i, d.3.to_string());
                m.put(g, "known", i, true);
                m.put(g, "display_has_desc", i, true);
            }
        }
        "serial" => {
            let (lo, mid, hi) = (t.get(3, 0)[ECX], t.get(3, 0)[EDX], t.get(1, 0)[EAX]);
            m.top(g, "serial", mid as u64 * (1u64 << 32) + lo as u64);
            m.top(g, "serial_all", ((hi as u128) << 64) + ((mid as u128) << 32) + lo as u128);
        }
        "cache_params" => {
            let leaf = if v == Ven::Amd { 0x8000_001d } else { 4 };
            let mut i = 0;
            while i < ITER_LIMIT {
                let r = t.get(leaf, i);
                let ty = match bits(r[EAX], 0, 4) { 1 => "Data", 2 => "Instruction", 3 => "Unified", _ => break };
                m.put(g, "cache_type", i, ty);
                m.put(g, "cache_type_display", i, ty);
                m.put(g, "level", i, bits(r[EAX], 5, 7));
                m.put(g, "is_self_initializing", i, bit(r[EAX], 8));
                m.put(g, "is_fully_associative", i, bit(r[EAX], 9));
                m.put(g, "max_cores_for_cache", i, bits(r[EAX], 14, 25) + 1);
                m.put(g, "max_cores_for_package", i, bits(r[EAX], 26, 31) + 1);
                m.put(g, "coherency_line_size", i, bits(r[EBX], 0, 11) + 1);
                m.put(g, "physical_line_partitions", i, bits(r[EBX], 12, 21) + 1);
                m.put(g, "associativity", i, bits(r[EBX], 22, 31) + 1);
                m.put(g, "sets", i, r[ECX] as u64 + 1);
                m.put(g, "is_write_back_invalidate", i, bit(r[EDX], 0));
                m.put(g, "is_inclusive", i, bit(r[EDX], 1));
                m.put(g, "has_complex_indexing", i, bit(r[EDX], 2));
                i += 1;
            }
            m.top(g, "len", i);
        }
        "topology" | "topology_v2" => {
            let leaf = leaf_of(g);
            let mut i = 0;
            // A level of type 0 ends the list. So may a level of a type that is not defined.
            while i < ITER_LIMIT {
                let r = t.get(leaf, i);
                let Some(ty) = topo_type(bits(r[ECX], 8, 15)) else { break };
                m.put(g, "level_type", i, ty);
                m.put(g, "level_type_display", i, ty);
                m.put(g, "processors", i, bits(r[EBX], 0, 15));
                m.put(g, "level_number", i, bits(r[ECX], 0, 7));
                m.put(g, "x2apic_id", i, r[EDX]);
                m.put(g, "shift_right_for_next_apic_id", i, bits(r[EAX], 0, 4));
                i += 1;
            }
            let undefined = i < ITER_LIMIT && bits(t.get(leaf, i)[ECX], 8, 15) != 0;
            m.top(g, "len", if undefined { V::Any } else { i.into() });
        }
        "xsave" => {
            let xcr0 = t.get(0xd, 0)[EAX];
            let xss = t.get(0xd, 1)[ECX];
            let mut n = 0u32;
            for k in 2..32 {
                let known = (bit(xcr0, k) && XCR0_ENUM.contains(&k)) || (bit(xss, k) && XSS_ENUM.contains(&k));
                if !known { continue; }
                m.put(g, "order", n, k);
                n += 1;
                let r = t.get(0xd, k);
                let (name, disp): (&str, &str) = match k {
                    2 => ("Avx", "AVX/YMM"), 3 => ("MpxBndregs", "MPX BNDREGS"), 4 => ("MpxBndcsr", "MPX BNDCSR"), 5 => ("Avx512Opmask", "AVX-512 opmask"),
                    6 => ("Avx512ZmmHi256", "AVX-512 ZMM_Hi256"), 7 => ("Avx512ZmmHi16", "AVX-512 Hi16_ZMM"), 8 => ("Pt", "PT"), 9 => ("Pkru", "PKRU"),
                    13 => ("Hdc", "HDC"), _ => ("", ""),
                };
                m.put(g, "register", k, if name.is_empty() { format!("Unknown({})", k) } else { name.to_string() });
                m.put(g, "register_display", k, if disp.is_empty() { V::Any } else { disp.into() });
                m.put(g, "size", k, r[EAX]);
                m.put(g, "offset", k, r[EBX]);
                let sup = bit(r[ECX], 0);
                m.put(g, "is_in_ia32_xss", k, sup);
                m.put(g, "is_in_xcr0", k, !sup);
                m.put(g, "location", k, if sup { "Ia32Xss" } else { "Xcr0" });
                m.put(g, "location_display", k, V::Any);
                m.put(g, "is_compacted_format", k, bit(r[ECX], 1));
            }
            m.top(g, "len", n);
        }
        "rdt_mon" => {
            let has = bit(t.get(0xf, 0)[EDX], 1);
            m.top(g, "l3_monitoring", has);
            if has {
                let r = t.get(0xf, 1);
                m.put(g, "conversion_factor", 1, r[EBX]);
                m.put(g, "maximum_rmid_range", 1, r[ECX]);
                m.put(g, "has_occupancy_monitoring", 1, bit(r[EDX], 0));
                m.put(g, "has_total_bandwidth_monitoring", 1, bit(r[EDX], 1));
                m.put(g, "has_local_bandwidth_monitoring", 1, bit(r[EDX], 2));
            }
        }
        "rdt_alloc" => {
            let b = t.get(0x10, 0)[EBX];
            for (f, k) in [("l3_cat", 1), ("l2_cat", 2), ("memory_bandwidth_allocation", 3)] {
                m.top(g, f, bit(b, k));
                if !bit(b, k) { continue; }
                let r = t.get(0x10, k);
                m.put(g, "highest_cos", k, bits(r[EDX], 0, 15));
                if k == 3 {
                    m.put(g, "max_hba_throttling", k, bits(r[EAX], 0, 11) + 1);
                    m.put(g, "has_linear_response_delay", k, bit(r[ECX], 2));
                } else {
                    m.put(g, "capacity_mask_length", k, bits(r[EAX], 0, 4) + 1);
                    m.put(g, "isolation_bitmap", k, r[EBX]);
                    if k == 1 { m.put(g, "has_code_data_prioritization", k, bit(r[ECX], 2)); }
                }
            }
        }
        "sgx" => {
            let r = t.get(0x12, 1);
            m.top(g, "secs_attributes_lower", r[EAX] as u64 + ((r[EBX] as u64) << 32));
            m.top(g, "secs_attributes_upper", r[ECX] as u64 + ((r[EDX] as u64) << 32));
            let mut i = 0;
            while i < ITER_LIMIT {
                let r = t.get(0x12, 2 + i);
                if bits(r[EAX], 0, 3) != 1 { break; }
                m.put(g, "physical_base", i, bits(r[EAX], 12, 31) * 4096 + bits(r[EBX], 0, 19) * (1u64 << 32));
                m.put(g, "size", i, bits(r[ECX], 12, 31) * 4096 + bits(r[EDX], 0, 19) * (1u64 << 32));
                i += 1;
            }
            m.top(g, "len", i);
        }
        "proc_trace" => {
            let r = if t.get(0x14, 0)[EAX] >= 1 { t.get(0x14, 1) } else { [0; 4] };
            m.top(g, "configurable_address_ranges", bits(r[EAX], 0, 2));
            m.top(g, "supported_mtc_period_encodings", bits(r[EAX], 16, 31));
            m.top(g, "supported_cycle_threshold_value_encodings", bits(r[EBX], 0, 15));
            m.top(g, "supported_psb_frequency_encodings", bits(r[EBX], 16, 31));
        }
        "tsc" => {
            let r = t.get(0x15, 0);
            // "TSC frequency" = core crystal clock frequency * EBX/EAX, unknown if any of them is not enumerated.
            let hz: V = if r[EAX] == 0 || r[EBX] == 0 || r[ECX] == 0 { "None".into() } else { (r[ECX] as u128 * r[EBX] as u128 / r[EAX] as u128).into() };
            m.top(g, "tsc_frequency", hz);
        }
        "soc" => {
            let max = t.get(0x17, 0)[EAX];
            m.top(g, "vendor_brand", max >= 3);
            if max >= 3 {
                let mut b = Vec::new();
                for k in 1..=3 { b.extend(le_bytes(&t.get(0x17, k))); }
                for f in ["as_str", "as_string", "display"] { m.top(g, f, text(&b, false)); }
            }
            m.top(g, "vendor_attributes", max > 3);
            if max > 3 {
                let n = (max - 3).min(ITER_LIMIT);
                for i in 0..n {
                    let r = t.get(0x17, 4 + i);
                    for k in 0..4 { m.put(g, REGN[k], i, r[k]); }
                }
                m.top(g, "len", n);
            }
        }
        "dat" => {
            let max = t.get(0x18, 0)[EAX];
            let mut i = 0u32;
            for s in 0..=max {
                if i >= ITER_LIMIT { break; }
                let r = t.get(0x18, s);
                let (ty, disp) = match bits(r[EDX], 0, 4) {
                    0 => continue, 1 => ("DataTLB", "Data TLB"), 2 => ("InstructionTLB", "Instruction TLB"), 3 => ("UnifiedTLB", "Unified TLB"),
                    4 => ("LoadOnly", "Load Only"), 5 => ("StoreOnly", "Store Only"), _ => ("Unknown", "Unknown"),
                };
                m.put(g, "cache_type", i, ty);
                m.put(g, "cache_type_display", i, disp);
                m.put(g, "has_4k_entries", i, bit(r[EBX], 0));
                m.put(g, "has_2mb_entries", i, bit(r[EBX], 1));
                m.put(g, "has_4mb_entries", i, bit(r[EBX], 2));
                m.put(g, "has_1gb_entries", i, bit(r[EBX], 3));
                m.put(g, "partitioning", i, bits(r[EBX], 8, 10));
                m.put(g, "ways", i, bits(r[EBX], 16, 31));
                m.put(g, "sets", i, r[ECX]);
                m.put(g, "cache_level", i, bits(r[EDX], 5, 7));
                m.put(g, "is_fully_associative", i, bit(r[EDX], 8));
                m.put(g, "max_addressable_ids", i, bits(r[EDX], 14, 25) + 1);
                i += 1;
            }
            m.top(g, "len", i);
        }
        "hypervisor" => {
            let r = t.get(0x4000_0000, 0);
            let name = match &le_bytes(&[r[EBX], r[ECX], r[EDX]])[..] {
                b"VMwareVMware" => "VMware".to_string(), b"XenVMMXenVMM" => "Xen".into(), b"Microsoft Hv" => "HyperV".into(),
                b"KVMKVMKVM\0\0\0" => "KVM".into(), b"TCGTCGTCGTCG" => "QEMU".into(), b"bhyve bhyve " | b"BHyVE BHyVE " => "Bhyve".into(),
                b"QNXQVMBSQG\0\0" => "QNX".into(), b"ACRNACRNACRN" => "ACRN".into(),
                _ => format!("Unknown({:#x},{:#x},{:#x})", r[EBX], r[ECX], r[EDX]),
            };
            m.top(g, "identify", name);
            let x = t.get(0x4000_0010, 0);
            let has = r[EAX] >= 0x4000_0010;
            m.top(g, "tsc_frequency", if has { V::from(x[EAX]) } else { "None".into() });
            m.top(g, "apic_frequency", if has { V::from(x[EBX]) } else { "None".into() });
        }
        "brand" => {
            let mut b = Vec::new();
            for l in 0x8000_0002..=0x8000_0004 { b.extend(le_bytes(&t.get(l, 0))); }
            let end = b.iter().position(|x| *x == 0).unwrap_or(b.len());
            m.top(g, "as_str", text(&b[..end], true));
        }
        "l1" => {
            let r = t.get(0x8000_0005, 0);
            for (f, reg, lo) in [("itlb_2m_4m_associativity", EAX, 8), ("dtlb_2m_4m_associativity", EAX, 24), ("itlb_4k_associativity", EBX, 8),
                ("dtlb_4k_associativity", EBX, 24), ("dcache_associativity", ECX, 16), ("icache_associativity", EDX, 16)] {
                m.top(g, f, assoc_l1(bits(r[reg], lo, lo + 7)));
            }
        }
        "l2l3" => {
            let r = t.get(0x8000_0006, 0);
            for (f, reg, lo) in [("itlb_2m_4m_associativity", EAX, 12), ("dtlb_2m_4m_associativity", EAX, 28), ("itlb_4k_associativity", EBX, 12),
                ("dtlb_4k_associativity", EBX, 28), ("l2cache_associativity", ECX, 12), ("l3cache_associativity", EDX, 12)] {
                m.top(g, f, assoc_l2(bits(r[reg], lo, lo + 3)));
            }
        }
        "tlb1g" => {
            let r = t.get(0x8000_0019, 0);
            for (f, reg, lo) in [("itlb_l1_1gb_associativity", EAX, 12), ("dtlb_l1_1gb_associativity", EAX, 28),
                ("itlb_l2_1gb_associativity", EBX, 12), ("dtlb_l2_1gb_associativity", EBX, 28)] {
                m.top(g, f, assoc_l2(bits(r[reg], lo, lo + 3)));
            }
        }
        "capacity" => {
            let c = t.get(0x8000_0008, 0)[ECX];
            m.top(g, "perf_tsc_size", 40 + 8 * bits(c, 16, 17));
            m.top(g, "maximum_logical_processors", 1u64 << bits(c, 12, 15));
        }
        "proc_topo" => {
            // An 8-bit number, one more than an 8-bit field: 256 saturates.
            m.top(g, "threads_per_core", (bits(t.get(0x8000_001e, 0)[EBX], 8, 15) + 1).min(255));
        }
        "pqos" => {
            let b = t.get(0x8000_0020, 0)[EBX];
            for (f, k) in [("l3mbe_info", 1), ("l3smbe_info", 2)] {
                m.top(g, f, bit(b, k));
                if bit(b, k) {
                    let r = t.get(0x8000_0020, k);
                    m.put(g, "bandwidth_length", k, r[EAX]);
                    m.put(g, "cos_max", k, r[EDX]);
                }
            }
            m.top(g, "bmec_info", bit(b, 3));
            if bit(b, 3) {
                let r = t.get(0x8000_0020, 3);
                m.put(g, "number_events", 3, bits(r[EBX], 0, 7));
                for (k, f) in ["has_l3_cache_lcl_bw_fill_mon", "has_l3_cache_rmt_bw_fill_mon", "has_l3_cache_lcl_bw_nt_wr_mon", "has_l3_cache_rmt_bw_nt_wr_mon",
                    "has_l3_cache_lcl_slow_bw_fill_mon", "has_l3_cache_rmt_slow_bw_fill_mon", "has_l3_cache_vic_mon"].iter().enumerate() {
                    m.put(g, f, 3, bit(r[ECX], k as u32));
                }
            }
            m.top(g, "abmc_info", bit(b, 5));
            if bit(b, 5) {
                let r = t.get(0x8000_0020, 5);
                m.put(g, "counter_size", 5, bits(r[EAX], 0, 7));
                m.put(g, "has_overflow_bit", 5, bit(r[EAX], 8));
                m.put(g, "max_abmc", 5, bits(r[EBX], 0, 15));
                m.put(g, "has_select_cos", 5, bit(r[ECX], 0));
            }
        }
        "ext_cpu_topo" => {
            let mut i = 0;
            while i < ITER_LIMIT {
                let r = t.get(0x8000_0026, i);
                let ty = bits(r[ECX], 8, 15);
                let name = match ty { 0 => break, 1 => "Core".to_string(), 2 => "Complex".into(), 3 => "Die".into(), 4 => "Socket".into(), x => format!("Unknown({})", x) };
                m.put(g, "level_type", i, name);
                m.put(g, "level_type_display", i, V::Any);
                m.put(g, "mask_width", i, bits(r[EAX], 0, 4));
                m.put(g, "has_efficiency_ranking_available", i, bit(r[EAX], 29));
                m.put(g, "has_heterogeneous_cores", i, bit(r[EAX], 30));
                m.put(g, "has_asymmetric_topology", i, bit(r[EAX], 31));
                m.put(g, "num_logical_processors", i, bits(r[EBX], 0, 15));
                m.put(g, "pwr_efficiency_ranking", i, bits(r[EBX], 16, 23));
                m.put(g, "native_mode_id", i, bits(r[EBX], 24, 27));
                m.put(g, "core_type", i, bits(r[EBX], 28, 31));
                m.put(g, "input_ecx", i, bits(r[ECX], 0, 7));
                m.put(g, "extended_apic_id", i, r[EDX]);
                i += 1;
            }
            m.top(g, "len", i);
        }
        _ => {}
    }
}

pub fn model(t: &Table, groups: &[&'static str]) -> Map {
    let mut m = M { m: Map::new(), t };
    for g in groups { model_group(&mut m, g); }
    m.m
}
