//! What the manuals say: where each documented bit and field lives. The library's
//! own tables are not consulted here.

use crate::table::{EAX, EBX, ECX, EDX};

/// One yes/no question: bit `bit` of `reg` of CPUID.leaf.sub. `amd`: defined by AMD
/// only, so it must read as absent on every other vendor.
pub struct Flag { pub g: &'static str, pub f: &'static str, pub leaf: u32, pub sub: u32, pub reg: usize, pub bit: u32, pub amd: bool }
/// One number: bits lo..=hi of `reg`, plus `bias`.
pub struct Num { pub g: &'static str, pub f: &'static str, pub leaf: u32, pub sub: u32, pub reg: usize, pub lo: u32, pub hi: u32, pub bias: u64 }

const fn f(g: &'static str, f: &'static str, leaf: u32, sub: u32, reg: usize, bit: u32) -> Flag { Flag { g, f, leaf, sub, reg, bit, amd: false } }
const fn fa(g: &'static str, f: &'static str, leaf: u32, sub: u32, reg: usize, bit: u32) -> Flag { Flag { g, f, leaf, sub, reg, bit, amd: true } }
const fn n(g: &'static str, f: &'static str, leaf: u32, sub: u32, reg: usize, lo: u32, hi: u32) -> Num { Num { g, f, leaf, sub, reg, lo, hi, bias: 0 } }
const fn n1(g: &'static str, f: &'static str, leaf: u32, sub: u32, reg: usize, lo: u32, hi: u32) -> Num { Num { g, f, leaf, sub, reg, lo, hi, bias: 1 } }

pub static FLAGS: &[Flag] = &[
    // FeatureInfo
    f("feature_info", "has_sse3", 0x1, 0, ECX, 0),
    f("feature_info", "has_pclmulqdq", 0x1, 0, ECX, 1),
    f("feature_info", "has_ds_area", 0x1, 0, ECX, 2),
    f("feature_info", "has_monitor_mwait", 0x1, 0, ECX, 3),
    f("feature_info", "has_cpl", 0x1, 0, ECX, 4),
    f("feature_info", "has_vmx", 0x1, 0, ECX, 5),
    f("feature_info", "has_smx", 0x1, 0, ECX, 6),
    f("feature_info", "has_eist", 0x1, 0, ECX, 7),
    f("feature_info", "has_tm2", 0x1, 0, ECX, 8),
    f("feature_info", "has_ssse3", 0x1, 0, ECX, 9),
    f("feature_info", "has_cnxtid", 0x1, 0, ECX, 10),
    f("feature_info", "has_fma", 0x1, 0, ECX, 12),
    f("feature_info", "has_cmpxchg16b", 0x1, 0, ECX, 13),
    f("feature_info", "has_pdcm", 0x1, 0, ECX, 15),
    f("feature_info", "has_pcid", 0x1, 0, ECX, 17),
    f("feature_info", "has_dca", 0x1, 0, ECX, 18),
    f("feature_info", "has_sse41", 0x1, 0, ECX, 19),
    f("feature_info", "has_sse42", 0x1, 0, ECX, 20),
    f("feature_info", "has_x2apic", 0x1, 0, ECX, 21),
    f("feature_info", "has_movbe", 0x1, 0, ECX, 22),
    f("feature_info", "has_popcnt", 0x1, 0, ECX, 23),
    f("feature_info", "has_tsc_deadline", 0x1, 0, ECX, 24),
    f("feature_info", "has_aesni", 0x1, 0, ECX, 25),
    f("feature_info", "has_xsave", 0x1, 0, ECX, 26),
    f("feature_info", "has_oxsave", 0x1, 0, ECX, 27),
    f("feature_info", "has_avx", 0x1, 0, ECX, 28),
    f("feature_info", "has_f16c", 0x1, 0, ECX, 29),
    f("feature_info", "has_rdrand", 0x1, 0, ECX, 30),
    f("feature_info", "has_hypervisor", 0x1, 0, ECX, 31),
    f("feature_info", "has_fpu", 0x1, 0, EDX, 0),
    f("feature_info", "has_vme", 0x1, 0, EDX, 1),
    f("feature_info", "has_de", 0x1, 0, EDX, 2),
    f("feature_info", "has_pse", 0x1, 0, EDX, 3),
    f("feature_info", "has_tsc", 0x1, 0, EDX, 4),
    f("feature_info", "has_msr", 0x1, 0, EDX, 5),
    f("feature_info", "has_pae", 0x1, 0, EDX, 6),
    f("feature_info", "has_mce", 0x1, 0, EDX, 7),
    f("feature_info", "has_cmpxchg8b", 0x1, 0, EDX, 8),
    f("feature_info", "has_apic", 0x1, 0, EDX, 9),
    f("feature_info", "has_sysenter_sysexit", 0x1, 0, EDX, 11),
    f("feature_info", "has_mtrr", 0x1, 0, EDX, 12),
    f("feature_info", "has_pge", 0x1, 0, EDX, 13),
    f("feature_info", "has_mca", 0x1, 0, EDX, 14),
    f("feature_info", "has_cmov", 0x1, 0, EDX, 15),
    f("feature_info", "has_pat", 0x1, 0, EDX, 16),
    f("feature_info", "has_pse36", 0x1, 0, EDX, 17),
    f("feature_info", "has_psn", 0x1, 0, EDX, 18),
    f("feature_info", "has_clflush", 0x1, 0, EDX, 19),
    f("feature_info", "has_ds", 0x1, 0, EDX, 21),
    f("feature_info", "has_acpi", 0x1, 0, EDX, 22),
    f("feature_info", "has_mmx", 0x1, 0, EDX, 23),
    f("feature_info", "has_fxsave_fxstor", 0x1, 0, EDX, 24),
    f("feature_info", "has_sse", 0x1, 0, EDX, 25),
    f("feature_info", "has_sse2", 0x1, 0, EDX, 26),
    f("feature_info", "has_ss", 0x1, 0, EDX, 27),
    f("feature_info", "has_htt", 0x1, 0, EDX, 28),
    f("feature_info", "has_tm", 0x1, 0, EDX, 29),
    f("feature_info", "has_pbe", 0x1, 0, EDX, 31),
    // MonitorMwaitInfo
    f("monitor_mwait", "extensions_supported", 0x5, 0, ECX, 0),
    f("monitor_mwait", "interrupts_as_break_event", 0x5, 0, ECX, 1),
    // ThermalPowerInfo
    f("thermal_power", "has_dts", 0x6, 0, EAX, 0),
    f("thermal_power", "has_turbo_boost", 0x6, 0, EAX, 1),
    f("thermal_power", "has_arat", 0x6, 0, EAX, 2),
    f("thermal_power", "has_pln", 0x6, 0, EAX, 4),
    f("thermal_power", "has_ecmd", 0x6, 0, EAX, 5),
    f("thermal_power", "has_ptm", 0x6, 0, EAX, 6),
    f("thermal_power", "has_hwp", 0x6, 0, EAX, 7),
    f("thermal_power", "has_hwp_notification", 0x6, 0, EAX, 8),
    f("thermal_power", "has_hwp_activity_window", 0x6, 0, EAX, 9),
    f("thermal_power", "has_hwp_energy_performance_preference", 0x6, 0, EAX, 10),
    f("thermal_power", "has_hwp_package_level_request", 0x6, 0, EAX, 11),
    f("thermal_power", "has_hdc", 0x6, 0, EAX, 13),
    f("thermal_power", "has_turbo_boost3", 0x6, 0, EAX, 14),
    f("thermal_power", "has_hwp_capabilities", 0x6, 0, EAX, 15),
    f("thermal_power", "has_hwp_peci_override", 0x6, 0, EAX, 16),
    f("thermal_power", "has_flexible_hwp", 0x6, 0, EAX, 17),
    f("thermal_power", "has_hwp_fast_access_mode", 0x6, 0, EAX, 18),
    f("thermal_power", "has_ignore_idle_processor_hwp_request", 0x6, 0, EAX, 20),
    f("thermal_power", "has_hw_coord_feedback", 0x6, 0, ECX, 0),
    f("thermal_power", "has_energy_bias_pref", 0x6, 0, ECX, 3),
    // ExtendedFeatures
    f("ext_features", "has_fsgsbase", 0x7, 0, EBX, 0),
    f("ext_features", "has_tsc_adjust_msr", 0x7, 0, EBX, 1),
    f("ext_features", "has_bmi1", 0x7, 0, EBX, 3),
    f("ext_features", "has_hle", 0x7, 0, EBX, 4),
    f("ext_features", "has_avx2", 0x7, 0, EBX, 5),
    f("ext_features", "has_fdp", 0x7, 0, EBX, 6),
    f("ext_features", "has_smep", 0x7, 0, EBX, 7),
    f("ext_features", "has_bmi2", 0x7, 0, EBX, 8),
    f("ext_features", "has_rep_movsb_stosb", 0x7, 0, EBX, 9),
    f("ext_features", "has_invpcid", 0x7, 0, EBX, 10),
    f("ext_features", "has_rtm", 0x7, 0, EBX, 11),
    f("ext_features", "has_rdtm", 0x7, 0, EBX, 12),
    f("ext_features", "has_fpu_cs_ds_deprecated", 0x7, 0, EBX, 13),
    f("ext_features", "has_mpx", 0x7, 0, EBX, 14),
    f("ext_features", "has_rdta", 0x7, 0, EBX, 15),
    f("ext_features", "has_rdseed", 0x7, 0, EBX, 18),
    f("ext_features", "has_adx", 0x7, 0, EBX, 19),
    f("ext_features", "has_smap", 0x7, 0, EBX, 20),
    f("ext_features", "has_clflushopt", 0x7, 0, EBX, 23),
    f("ext_features", "has_processor_trace", 0x7, 0, EBX, 25),
    f("ext_features", "has_sha", 0x7, 0, EBX, 29),
    f("ext_features", "has_sgx", 0x7, 0, EBX, 2),
    f("ext_features", "has_avx512f", 0x7, 0, EBX, 16),
    f("ext_features", "has_avx512dq", 0x7, 0, EBX, 17),
    f("ext_features", "has_avx512_ifma", 0x7, 0, EBX, 21),
    f("ext_features", "has_avx512pf", 0x7, 0, EBX, 26),
    f("ext_features", "has_avx512er", 0x7, 0, EBX, 27),
    f("ext_features", "has_avx512cd", 0x7, 0, EBX, 28),
    f("ext_features", "has_avx512bw", 0x7, 0, EBX, 30),
    f("ext_features", "has_avx512vl", 0x7, 0, EBX, 31),
    f("ext_features", "has_clwb", 0x7, 0, EBX, 24),
    f("ext_features", "has_prefetchwt1", 0x7, 0, ECX, 0),
    f("ext_features", "has_avx512vbmi", 0x7, 0, ECX, 1),
    f("ext_features", "has_umip", 0x7, 0, ECX, 2),
    f("ext_features", "has_pku", 0x7, 0, ECX, 3),
    f("ext_features", "has_ospke", 0x7, 0, ECX, 4),
    f("ext_features", "has_waitpkg", 0x7, 0, ECX, 5),
    f("ext_features", "has_av512vbmi2", 0x7, 0, ECX, 6),
    f("ext_features", "has_avx512vbmi2", 0x7, 0, ECX, 6),
    f("ext_features", "has_cet_ss", 0x7, 0, ECX, 7),
    f("ext_features", "has_gfni", 0x7, 0, ECX, 8),
    f("ext_features", "has_vaes", 0x7, 0, ECX, 9),
    f("ext_features", "has_vpclmulqdq", 0x7, 0, ECX, 10),
    f("ext_features", "has_avx512vnni", 0x7, 0, ECX, 11),
    f("ext_features", "has_avx512bitalg", 0x7, 0, ECX, 12),
    f("ext_features", "has_tme_en", 0x7, 0, ECX, 13),
    f("ext_features", "has_avx512vpopcntdq", 0x7, 0, ECX, 14),
    f("ext_features", "has_la57", 0x7, 0, ECX, 16),
    f("ext_features", "has_rdpid", 0x7, 0, ECX, 22),
    f("ext_features", "has_sgx_lc", 0x7, 0, ECX, 30),
    f("ext_features", "has_avx512_4vnniw", 0x7, 0, EDX, 2),
    f("ext_features", "has_avx512_4fmaps", 0x7, 0, EDX, 3),
    f("ext_features", "has_avx512_vp2intersect", 0x7, 0, EDX, 8),
    f("ext_features", "has_amx_bf16", 0x7, 0, EDX, 22),
    f("ext_features", "has_avx512_fp16", 0x7, 0, EDX, 23),
    f("ext_features", "has_amx_tile", 0x7, 0, EDX, 24),
    f("ext_features", "has_amx_int8", 0x7, 0, EDX, 25),
    f("ext_features", "has_avx_vnni", 0x7, 1, EAX, 4),
    f("ext_features", "has_avx512_bf16", 0x7, 1, EAX, 5),
    f("ext_features", "has_fzrm", 0x7, 1, EAX, 10),
    f("ext_features", "has_fsrs", 0x7, 1, EAX, 11),
    f("ext_features", "has_fsrcrs", 0x7, 1, EAX, 12),
    f("ext_features", "has_hreset", 0x7, 1, EAX, 22),
    f("ext_features", "has_avx_ifma", 0x7, 1, EAX, 23),
    f("ext_features", "has_lam", 0x7, 1, EAX, 26),
    f("ext_features", "has_msrlist", 0x7, 1, EAX, 27),
    f("ext_features", "has_invd_disable_post_bios_done", 0x7, 1, EAX, 30),
    f("ext_features", "has_avx_vnni_int8", 0x7, 1, EDX, 4),
    f("ext_features", "has_avx_ne_convert", 0x7, 1, EDX, 5),
    f("ext_features", "has_avx_vnni_int16", 0x7, 1, EDX, 10),
    f("ext_features", "has_prefetchi", 0x7, 1, EDX, 14),
    f("ext_features", "has_uiret_uif", 0x7, 1, EDX, 17),
    f("ext_features", "has_cet_sss", 0x7, 1, EDX, 18),
    f("ext_features", "has_avx10", 0x7, 1, EDX, 19),
    // PerformanceMonitoringInfo
    f("perf_mon", "has_any_thread_deprecation", 0xa, 0, EDX, 15),
    f("perf_mon", "is_core_cyc_ev_unavailable", 0xa, 0, EBX, 0),
    f("perf_mon", "is_inst_ret_ev_unavailable", 0xa, 0, EBX, 1),
    f("perf_mon", "is_ref_cycle_ev_unavailable", 0xa, 0, EBX, 2),
    f("perf_mon", "is_cache_ref_ev_unavailable", 0xa, 0, EBX, 3),
    f("perf_mon", "is_ll_cache_miss_ev_unavailable", 0xa, 0, EBX, 4),
    f("perf_mon", "is_branch_inst_ret_ev_unavailable", 0xa, 0, EBX, 5),
    f("perf_mon", "is_branch_midpred_ev_unavailable", 0xa, 0, EBX, 6),
    // ExtendedStateInfo
    f("xsave", "xcr0_supports_legacy_x87", 0xd, 0, EAX, 0),
    f("xsave", "xcr0_supports_sse_128", 0xd, 0, EAX, 1),
    f("xsave", "xcr0_supports_avx_256", 0xd, 0, EAX, 2),
    f("xsave", "xcr0_supports_mpx_bndregs", 0xd, 0, EAX, 3),
    f("xsave", "xcr0_supports_mpx_bndcsr", 0xd, 0, EAX, 4),
    f("xsave", "xcr0_supports_avx512_opmask", 0xd, 0, EAX, 5),
    f("xsave", "xcr0_supports_avx512_zmm_hi256", 0xd, 0, EAX, 6),
    f("xsave", "xcr0_supports_avx512_zmm_hi16", 0xd, 0, EAX, 7),
    f("xsave", "xcr0_supports_pkru", 0xd, 0, EAX, 9),
    f("xsave", "ia32_xss_supports_pt", 0xd, 1, ECX, 8),
    f("xsave", "ia32_xss_supports_hdc", 0xd, 1, ECX, 13),
    f("xsave", "has_xsaveopt", 0xd, 1, EAX, 0),
    f("xsave", "has_xsavec", 0xd, 1, EAX, 1),
    f("xsave", "has_xgetbv", 0xd, 1, EAX, 2),
    f("xsave", "has_xsaves_xrstors", 0xd, 1, EAX, 3),
    // RdtMonitoringInfo
    f("rdt_mon", "has_l3_monitoring", 0xf, 0, EDX, 1),
    // RdtAllocationInfo
    f("rdt_alloc", "has_l3_cat", 0x10, 0, EBX, 1),
    f("rdt_alloc", "has_l2_cat", 0x10, 0, EBX, 2),
    f("rdt_alloc", "has_memory_bandwidth_allocation", 0x10, 0, EBX, 3),
    // SgxInfo
    f("sgx", "has_sgx1", 0x12, 0, EAX, 0),
    f("sgx", "has_sgx2", 0x12, 0, EAX, 1),
    f("sgx", "has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext", 0x12, 0, EAX, 5),
    f("sgx", "has_encls_leaves_etrackc_erdinfo_eldbc_elduc", 0x12, 0, EAX, 6),
    // ProcessorTraceInfo
    f("proc_trace", "has_rtit_cr3_match", 0x14, 0, EBX, 0),
    f("proc_trace", "has_configurable_psb_and_cycle_accurate_mode", 0x14, 0, EBX, 1),
    f("proc_trace", "has_ip_tracestop_filtering", 0x14, 0, EBX, 2),
    f("proc_trace", "has_mtc_timing_packet_coefi_suppression", 0x14, 0, EBX, 3),
    f("proc_trace", "has_ptwrite", 0x14, 0, EBX, 4),
    f("proc_trace", "has_power_event_trace", 0x14, 0, EBX, 5),
    f("proc_trace", "has_topa", 0x14, 0, ECX, 0),
    f("proc_trace", "has_topa_maximum_entries", 0x14, 0, ECX, 1),
    f("proc_trace", "has_single_range_output_scheme", 0x14, 0, ECX, 2),
    f("proc_trace", "has_trace_transport_subsystem", 0x14, 0, ECX, 3),
    f("proc_trace", "has_lip_with_cs_base", 0x14, 0, ECX, 31),
    // ExtendedProcessorFeatureIdentifiers
    f("ext_ids", "has_lahf_sahf", 0x80000001, 0, ECX, 0),
    fa("ext_ids", "has_cmp_legacy", 0x80000001, 0, ECX, 1),
    fa("ext_ids", "has_svm", 0x80000001, 0, ECX, 2),
    fa("ext_ids", "has_ext_apic_space", 0x80000001, 0, ECX, 3),
    fa("ext_ids", "has_alt_mov_cr8", 0x80000001, 0, ECX, 4),
    f("ext_ids", "has_lzcnt", 0x80000001, 0, ECX, 5),
    fa("ext_ids", "has_sse4a", 0x80000001, 0, ECX, 6),
    fa("ext_ids", "has_misaligned_sse_mode", 0x80000001, 0, ECX, 7),
    f("ext_ids", "has_prefetchw", 0x80000001, 0, ECX, 8),
    fa("ext_ids", "has_osvw", 0x80000001, 0, ECX, 9),
    fa("ext_ids", "has_ibs", 0x80000001, 0, ECX, 10),
    fa("ext_ids", "has_xop", 0x80000001, 0, ECX, 11),
    fa("ext_ids", "has_skinit", 0x80000001, 0, ECX, 12),
    fa("ext_ids", "has_wdt", 0x80000001, 0, ECX, 13),
    fa("ext_ids", "has_lwp", 0x80000001, 0, ECX, 15),
    fa("ext_ids", "has_fma4", 0x80000001, 0, ECX, 16),
    fa("ext_ids", "has_tbm", 0x80000001, 0, ECX, 21),
    fa("ext_ids", "has_topology_extensions", 0x80000001, 0, ECX, 22),
    fa("ext_ids", "has_perf_cntr_extensions", 0x80000001, 0, ECX, 23),
    fa("ext_ids", "has_nb_perf_cntr_extensions", 0x80000001, 0, ECX, 24),
    fa("ext_ids", "has_data_access_bkpt_extension", 0x80000001, 0, ECX, 26),
    fa("ext_ids", "has_perf_tsc", 0x80000001, 0, ECX, 27),
    fa("ext_ids", "has_perf_cntr_llc_extensions", 0x80000001, 0, ECX, 28),
    fa("ext_ids", "has_monitorx_mwaitx", 0x80000001, 0, ECX, 29),
    fa("ext_ids", "has_addr_mask_extension", 0x80000001, 0, ECX, 30),
    f("ext_ids", "has_syscall_sysret", 0x80000001, 0, EDX, 11),
    f("ext_ids", "has_execute_disable", 0x80000001, 0, EDX, 20),
    fa("ext_ids", "has_mmx_extensions", 0x80000001, 0, EDX, 22),
    fa("ext_ids", "has_fast_fxsave_fxstor", 0x80000001, 0, EDX, 25),
    f("ext_ids", "has_1gib_pages", 0x80000001, 0, EDX, 26),
    f("ext_ids", "has_rdtscp", 0x80000001, 0, EDX, 27),
    f("ext_ids", "has_64bit_mode", 0x80000001, 0, EDX, 29),
    fa("ext_ids", "has_amd_3dnow_extensions", 0x80000001, 0, EDX, 30),
    fa("ext_ids", "has_3dnow", 0x80000001, 0, EDX, 31),
    // ApmInfo
    f("apm", "has_mca_overflow_recovery", 0x80000007, 0, EBX, 0),
    f("apm", "has_succor", 0x80000007, 0, EBX, 1),
    f("apm", "has_hwa", 0x80000007, 0, EBX, 2),
    f("apm", "has_ts", 0x80000007, 0, EDX, 0),
    f("apm", "has_freq_id_ctrl", 0x80000007, 0, EDX, 1),
    f("apm", "has_volt_id_ctrl", 0x80000007, 0, EDX, 2),
    f("apm", "has_thermtrip", 0x80000007, 0, EDX, 3),
    f("apm", "has_tm", 0x80000007, 0, EDX, 4),
    f("apm", "has_100mhz_steps", 0x80000007, 0, EDX, 6),
    f("apm", "has_hw_pstate", 0x80000007, 0, EDX, 7),
    f("apm", "has_invariant_tsc", 0x80000007, 0, EDX, 8),
    f("apm", "has_cpb", 0x80000007, 0, EDX, 9),
    f("apm", "has_ro_effective_freq_iface", 0x80000007, 0, EDX, 10),
    f("apm", "has_feedback_iface", 0x80000007, 0, EDX, 11),
    f("apm", "has_power_reporting_iface", 0x80000007, 0, EDX, 12),
    // ProcessorCapacityAndFeatureInfo
    f("capacity", "has_cl_zero", 0x80000008, 0, EBX, 0),
    f("capacity", "has_inst_ret_cntr_msr", 0x80000008, 0, EBX, 1),
    f("capacity", "has_restore_fp_error_ptrs", 0x80000008, 0, EBX, 2),
    f("capacity", "has_invlpgb", 0x80000008, 0, EBX, 3),
    f("capacity", "has_rdpru", 0x80000008, 0, EBX, 4),
    f("capacity", "has_mcommit", 0x80000008, 0, EBX, 8),
    f("capacity", "has_wbnoinvd", 0x80000008, 0, EBX, 9),
    f("capacity", "has_int_wbinvd", 0x80000008, 0, EBX, 13),
    f("capacity", "has_unsupported_efer_lmsle", 0x80000008, 0, EBX, 20),
    f("capacity", "has_invlpgb_nested", 0x80000008, 0, EBX, 21),
    // SvmFeatures
    f("svm", "has_nested_paging", 0x8000000a, 0, EDX, 0),
    f("svm", "has_lbr_virtualization", 0x8000000a, 0, EDX, 1),
    f("svm", "has_svm_lock", 0x8000000a, 0, EDX, 2),
    f("svm", "has_nrip", 0x8000000a, 0, EDX, 3),
    f("svm", "has_tsc_rate_msr", 0x8000000a, 0, EDX, 4),
    f("svm", "has_vmcb_clean_bits", 0x8000000a, 0, EDX, 5),
    f("svm", "has_flush_by_asid", 0x8000000a, 0, EDX, 6),
    f("svm", "has_decode_assists", 0x8000000a, 0, EDX, 7),
    f("svm", "has_pause_filter", 0x8000000a, 0, EDX, 10),
    f("svm", "has_pause_filter_threshold", 0x8000000a, 0, EDX, 12),
    f("svm", "has_avic", 0x8000000a, 0, EDX, 13),
    f("svm", "has_vmsave_virtualization", 0x8000000a, 0, EDX, 15),
    f("svm", "has_gif", 0x8000000a, 0, EDX, 16),
    f("svm", "has_gmet", 0x8000000a, 0, EDX, 17),
    f("svm", "has_sss_check", 0x8000000a, 0, EDX, 19),
    f("svm", "has_spec_ctrl", 0x8000000a, 0, EDX, 20),
    f("svm", "has_host_mce_override", 0x8000000a, 0, EDX, 23),
    f("svm", "has_tlb_ctrl", 0x8000000a, 0, EDX, 24),
    // PerformanceOptimizationInfo
    f("perf_opt", "has_fp128", 0x8000001a, 0, EAX, 0),
    f("perf_opt", "has_movu", 0x8000001a, 0, EAX, 1),
    f("perf_opt", "has_fp256", 0x8000001a, 0, EAX, 2),
    // InstructionBasedSamplingCapabilities
    f("ibs", "has_feature_flags", 0x8000001b, 0, EAX, 0),
    f("ibs", "has_fetch_sampling", 0x8000001b, 0, EAX, 1),
    f("ibs", "has_execution_sampling", 0x8000001b, 0, EAX, 2),
    f("ibs", "has_read_write_operation_counter", 0x8000001b, 0, EAX, 3),
    f("ibs", "has_operation_counter", 0x8000001b, 0, EAX, 4),
    f("ibs", "has_branch_target_address_reporting", 0x8000001b, 0, EAX, 5),
    f("ibs", "has_operation_counter_extended", 0x8000001b, 0, EAX, 6),
    f("ibs", "has_invalid_rip_indication", 0x8000001b, 0, EAX, 7),
    f("ibs", "has_fused_branch_micro_op_indication", 0x8000001b, 0, EAX, 8),
    f("ibs", "has_l3_miss_filtering", 0x8000001b, 0, EAX, 11),
    // MemoryEncryptionInfo
    f("mem_enc", "has_sme", 0x8000001f, 0, EAX, 0),
    f("mem_enc", "has_sev", 0x8000001f, 0, EAX, 1),
    f("mem_enc", "has_page_flush_msr", 0x8000001f, 0, EAX, 2),
    f("mem_enc", "has_sev_es", 0x8000001f, 0, EAX, 3),
    f("mem_enc", "has_sev_snp", 0x8000001f, 0, EAX, 4),
    f("mem_enc", "has_vmpl", 0x8000001f, 0, EAX, 5),
    f("mem_enc", "has_hw_enforced_cache_coh", 0x8000001f, 0, EAX, 10),
    f("mem_enc", "has_64bit_mode", 0x8000001f, 0, EAX, 11),
    f("mem_enc", "has_restricted_injection", 0x8000001f, 0, EAX, 12),
    f("mem_enc", "has_alternate_injection", 0x8000001f, 0, EAX, 13),
    f("mem_enc", "has_debug_swap", 0x8000001f, 0, EAX, 14),
    f("mem_enc", "has_prevent_host_ibs", 0x8000001f, 0, EAX, 15),
    f("mem_enc", "has_vte", 0x8000001f, 0, EAX, 16),
    // PqosExtendedFeatureInfo
    f("pqos", "has_l3mbe", 0x80000020, 0, EBX, 1),
    f("pqos", "has_l3smbe", 0x80000020, 0, EBX, 2),
    f("pqos", "has_bmec", 0x80000020, 0, EBX, 3),
    f("pqos", "has_l3rr", 0x80000020, 0, EBX, 4),
    f("pqos", "has_abmc", 0x80000020, 0, EBX, 5),
    f("pqos", "has_sdciae", 0x80000020, 0, EBX, 6),
    // ExtendedFeatureIdentification2
    f("ext_feat_id2", "has_no_nested_data_bp", 0x80000021, 0, EAX, 0),
    f("ext_feat_id2", "has_lfence_always_serializing", 0x80000021, 0, EAX, 2),
    f("ext_feat_id2", "has_smm_pg_cfg_lock", 0x80000021, 0, EAX, 3),
    f("ext_feat_id2", "has_null_select_clears_base", 0x80000021, 0, EAX, 6),
    f("ext_feat_id2", "has_upper_address_ignore", 0x80000021, 0, EAX, 7),
    f("ext_feat_id2", "has_automatic_ibrs", 0x80000021, 0, EAX, 8),
    f("ext_feat_id2", "has_no_smm_ctl_msr", 0x80000021, 0, EAX, 9),
    f("ext_feat_id2", "has_prefetch_ctl_msr", 0x80000021, 0, EAX, 13),
    f("ext_feat_id2", "has_cpuid_user_dis", 0x80000021, 0, EAX, 17),
    // ExtendedPerformanceMonitoringDebug
    f("ext_perf_mon", "has_perf_mon_v2", 0x80000022, 0, EAX, 0),
    f("ext_perf_mon", "has_lbr_stack", 0x80000022, 0, EAX, 1),
    f("ext_perf_mon", "has_lbr_and_pmc_freeze", 0x80000022, 0, EAX, 2),
    // MultiKeyEncryptedMemoryCapabilities
    f("mem_multikey", "has_mem_hmk", 0x80000023, 0, EAX, 0),
];

pub static NUMS: &[Num] = &[
    // leaf 1: version information
    n("feature_info", "extended_family_id", 0x1, 0, EAX, 20, 27),
    n("feature_info", "extended_model_id", 0x1, 0, EAX, 16, 19),
    n("feature_info", "base_family_id", 0x1, 0, EAX, 8, 11),
    n("feature_info", "base_model_id", 0x1, 0, EAX, 4, 7),
    n("feature_info", "stepping_id", 0x1, 0, EAX, 0, 3),
    n("feature_info", "brand_index", 0x1, 0, EBX, 0, 7),
    n("feature_info", "cflush_cache_line_size", 0x1, 0, EBX, 8, 15),
    n("feature_info", "max_logical_processor_ids", 0x1, 0, EBX, 16, 23),
    n("feature_info", "initial_local_apic_id", 0x1, 0, EBX, 24, 31),
    // leaf 3
    n("serial", "serial_lower", 0x3, 0, ECX, 0, 31),
    n("serial", "serial_middle", 0x3, 0, EDX, 0, 31),
    n("serial", "serial_upper", 0x1, 0, EAX, 0, 31),
    // leaf 5
    n("monitor_mwait", "smallest_monitor_line", 0x5, 0, EAX, 0, 15),
    n("monitor_mwait", "largest_monitor_line", 0x5, 0, EBX, 0, 15),
    n("monitor_mwait", "supported_c0_states", 0x5, 0, EDX, 0, 3),
    n("monitor_mwait", "supported_c1_states", 0x5, 0, EDX, 4, 7),
    n("monitor_mwait", "supported_c2_states", 0x5, 0, EDX, 8, 11),
    n("monitor_mwait", "supported_c3_states", 0x5, 0, EDX, 12, 15),
    n("monitor_mwait", "supported_c4_states", 0x5, 0, EDX, 16, 19),
    n("monitor_mwait", "supported_c5_states", 0x5, 0, EDX, 20, 23),
    n("monitor_mwait", "supported_c6_states", 0x5, 0, EDX, 24, 27),
    n("monitor_mwait", "supported_c7_states", 0x5, 0, EDX, 28, 31),
    // leaf 6
    n("thermal_power", "dts_irq_threshold", 0x6, 0, EBX, 0, 3),
    // leaf 7
    n("ext_features", "mawau_value", 0x7, 0, ECX, 17, 21),
    // leaf 9
    n("dca", "get_dca_cap_value", 0x9, 0, EAX, 0, 31),
    // leaf 0xA
    n("perf_mon", "version_id", 0xa, 0, EAX, 0, 7),
    n("perf_mon", "number_of_counters", 0xa, 0, EAX, 8, 15),
    n("perf_mon", "counter_bit_width", 0xa, 0, EAX, 16, 23),
    n("perf_mon", "ebx_length", 0xa, 0, EAX, 24, 31),
    n("perf_mon", "fixed_function_counters", 0xa, 0, EDX, 0, 4),
    n("perf_mon", "fixed_function_counters_bit_width", 0xa, 0, EDX, 5, 12),
    // leaf 0xD
    n("xsave", "xsave_area_size_enabled_features", 0xd, 0, EBX, 0, 31),
    n("xsave", "xsave_area_size_supported_features", 0xd, 0, ECX, 0, 31),
    n("xsave", "xsave_size", 0xd, 1, EBX, 0, 31),
    // leaf 0xF, 0x10: see model.rs for the subleaves
    n("rdt_mon", "rmid_range", 0xf, 0, EBX, 0, 31),
    // leaf 0x12
    n("sgx", "miscselect", 0x12, 0, EBX, 0, 31),
    n("sgx", "max_enclave_size_non_64bit", 0x12, 0, EDX, 0, 7),
    n("sgx", "max_enclave_size_64bit", 0x12, 0, EDX, 8, 15),
    // leaf 0x15, 0x16
    n("tsc", "denominator", 0x15, 0, EAX, 0, 31),
    n("tsc", "numerator", 0x15, 0, EBX, 0, 31),
    n("tsc", "nominal_frequency", 0x15, 0, ECX, 0, 31),
    n("freq", "processor_base_frequency", 0x16, 0, EAX, 0, 15),
    n("freq", "processor_max_frequency", 0x16, 0, EBX, 0, 15),
    n("freq", "bus_frequency", 0x16, 0, ECX, 0, 15),
    // leaf 0x17
    n("soc", "get_soc_vendor_id", 0x17, 0, EBX, 0, 15),
    n("soc", "get_project_id", 0x17, 0, ECX, 0, 31),
    n("soc", "get_stepping_id", 0x17, 0, EDX, 0, 31),
    // 0x8000_0001
    n("ext_ids", "extended_signature", 0x8000_0001, 0, EAX, 0, 31),
    n("ext_ids", "brand_id", 0x8000_0001, 0, EBX, 0, 15),
    n("ext_ids", "pkg_type", 0x8000_0001, 0, EBX, 28, 31),
    // 0x8000_0005
    n("l1", "itlb_2m_4m_size", 0x8000_0005, 0, EAX, 0, 7),
    n("l1", "dtlb_2m_4m_size", 0x8000_0005, 0, EAX, 16, 23),
    n("l1", "itlb_4k_size", 0x8000_0005, 0, EBX, 0, 7),
    n("l1", "dtlb_4k_size", 0x8000_0005, 0, EBX, 16, 23),
    n("l1", "dcache_line_size", 0x8000_0005, 0, ECX, 0, 7),
    n("l1", "dcache_lines_per_tag", 0x8000_0005, 0, ECX, 8, 15),
    n("l1", "dcache_size", 0x8000_0005, 0, ECX, 24, 31),
    n("l1", "icache_line_size", 0x8000_0005, 0, EDX, 0, 7),
    n("l1", "icache_lines_per_tag", 0x8000_0005, 0, EDX, 8, 15),
    n("l1", "icache_size", 0x8000_0005, 0, EDX, 24, 31),
    // 0x8000_0006
    n("l2l3", "itlb_2m_4m_size", 0x8000_0006, 0, EAX, 0, 11),
    n("l2l3", "dtlb_2m_4m_size", 0x8000_0006, 0, EAX, 16, 27),
    n("l2l3", "itlb_4k_size", 0x8000_0006, 0, EBX, 0, 11),
    n("l2l3", "dtlb_4k_size", 0x8000_0006, 0, EBX, 16, 27),
    n("l2l3", "l2cache_line_size", 0x8000_0006, 0, ECX, 0, 7),
    n("l2l3", "l2cache_lines_per_tag", 0x8000_0006, 0, ECX, 8, 11),
    n("l2l3", "l2cache_size", 0x8000_0006, 0, ECX, 16, 31),
    n("l2l3", "l3cache_line_size", 0x8000_0006, 0, EDX, 0, 7),
    n("l2l3", "l3cache_lines_per_tag", 0x8000_0006, 0, EDX, 8, 11),
    n("l2l3", "l3cache_size", 0x8000_0006, 0, EDX, 18, 31),
    // 0x8000_0007
    n("apm", "cpu_pwr_sample_time_ratio", 0x8000_0007, 0, ECX, 0, 31),
    // 0x8000_0008
    n("capacity", "physical_address_bits", 0x8000_0008, 0, EAX, 0, 7),
    n("capacity", "linear_address_bits", 0x8000_0008, 0, EAX, 8, 15),
    n("capacity", "guest_physical_address_bits", 0x8000_0008, 0, EAX, 16, 23),
    n("capacity", "apic_id_size", 0x8000_0008, 0, ECX, 12, 15),
    n1("capacity", "num_phys_threads", 0x8000_0008, 0, ECX, 0, 7),
    n("capacity", "invlpgb_max_pages", 0x8000_0008, 0, EDX, 0, 15),
    n("capacity", "max_rdpru_id", 0x8000_0008, 0, EDX, 16, 31),
    // 0x8000_000A
    n("svm", "revision", 0x8000_000a, 0, EAX, 0, 7),
    n("svm", "supported_asids", 0x8000_000a, 0, EBX, 0, 31),
    // 0x8000_0019
    n("tlb1g", "itlb_l1_1gb_size", 0x8000_0019, 0, EAX, 0, 11),
    n("tlb1g", "dtlb_l1_1gb_size", 0x8000_0019, 0, EAX, 16, 27),
    n("tlb1g", "itlb_l2_1gb_size", 0x8000_0019, 0, EBX, 0, 11),
    n("tlb1g", "dtlb_l2_1gb_size", 0x8000_0019, 0, EBX, 16, 27),
    // 0x8000_001E (threads_per_core: see model.rs)
    n("proc_topo", "x2apic_id", 0x8000_001e, 0, EAX, 0, 31),
    n("proc_topo", "core_id", 0x8000_001e, 0, EBX, 0, 7),
    n("proc_topo", "node_id", 0x8000_001e, 0, ECX, 0, 7),
    n1("proc_topo", "nodes_per_processor", 0x8000_001e, 0, ECX, 8, 10),
    // 0x8000_001F
    n("mem_enc", "c_bit_position", 0x8000_001f, 0, EBX, 0, 5),
    n("mem_enc", "physical_address_reduction", 0x8000_001f, 0, EBX, 6, 11),
    n("mem_enc", "max_encrypted_guests", 0x8000_001f, 0, ECX, 0, 31),
    n("mem_enc", "min_sev_no_es_asid", 0x8000_001f, 0, EDX, 0, 31),
    // 0x8000_0021..23
    n("ext_feat_id2", "microcode_patch_size", 0x8000_0021, 0, EBX, 0, 11),
    n("ext_perf_mon", "num_perf_ctr_core", 0x8000_0022, 0, EBX, 0, 3),
    n("ext_perf_mon", "num_lbr_stack_size", 0x8000_0022, 0, EBX, 4, 9),
    n("ext_perf_mon", "num_perf_ctr_nb", 0x8000_0022, 0, EBX, 10, 15),
    n("mem_multikey", "max_mem_hmk_encr_key_id", 0x8000_0023, 0, EBX, 0, 15),
];

/// Cache and TLB descriptors of leaf 2 (SDM table "Encoding of CPUID Leaf 2
/// Descriptors"): value; C cache, T TLB, P prefetch, G general, X listed by the manual as
/// a cache but described as a TLB; the figures of the description, K, M or G
/// where it gives that unit, F for fully associative; i instruction, d data.
pub static DESCRIPTORS: &[(u8, char, &str, char)] = &[
    (0x01, 'T', "4K 4 32", 'i'),
    (0x02, 'T', "4M F 2", 'i'),
    (0x03, 'T', "4K 4 64", 'd'),
    (0x04, 'T', "4M 4 8", 'd'),
    (0x05, 'T', "1 4M 4 32", 'd'),
    (0x06, 'C', "1 8K 4 32", 'i'),
    (0x08, 'C', "1 16K 4 32", 'i'),
    (0x09, 'C', "1 32K 4 64", 'i'),
    (0x0a, 'C', "1 8K 2 32", 'd'),
    (0x0b, 'T', "4M 4 4", 'i'),
    (0x0c, 'C', "1 16K 4 32", 'd'),
    (0x0d, 'C', "1 16K 4 64", 'd'),
    (0x0e, 'C', "1 24K 6 64", 'd'),
    (0x1d, 'C', "2 128K 2 64", '-'),
    (0x21, 'C', "2 256K 8 64", '-'),
    (0x22, 'C', "3 512K 4 64 2", '-'),
    (0x23, 'C', "3 1M 8 64 2", '-'),
    (0x24, 'C', "2 1M 16 64", '-'),
    (0x25, 'C', "3 2M 8 64 2", '-'),
    (0x29, 'C', "3 4M 8 64 2", '-'),
    (0x2c, 'C', "1 32K 8 64", 'd'),
    (0x30, 'C', "1 32K 8 64", 'i'),
    (0x40, 'C', "2 2 3", '-'),
    (0x41, 'C', "2 128K 4 32", '-'),
    (0x42, 'C', "2 256K 4 32", '-'),
    (0x43, 'C', "2 512K 4 32", '-'),
    (0x44, 'C', "2 1M 4 32", '-'),
    (0x45, 'C', "2 2M 4 32", '-'),
    (0x46, 'C', "3 4M 4 64", '-'),
    (0x47, 'C', "3 8M 8 64", '-'),
    (0x48, 'C', "2 3M 12 64", '-'),
    (0x49, 'C', "3 4M 16 64 0 06 2 4M 16 64", '-'),
    (0x4a, 'C', "3 6M 12 64", '-'),
    (0x4b, 'C', "3 8M 16 64", '-'),
    (0x4c, 'C', "3 12M 12 64", '-'),
    (0x4d, 'C', "3 16M 16 64", '-'),
    (0x4e, 'C', "2 6M 24 64", '-'),
    (0x4f, 'T', "4K 32", 'i'),
    (0x50, 'T', "4K 2M 4M 64", 'i'),
    (0x51, 'T', "4K 2M 4M 128", 'i'),
    (0x52, 'T', "4K 2M 4M 256", 'i'),
    (0x55, 'T', "2M 4M F 7", 'i'),
    (0x56, 'T', "0 4M 4 16", 'd'),
    (0x57, 'T', "0 4K 4 16", 'd'),
    (0x59, 'T', "0 4K F 16", 'd'),
    (0x5a, 'T', "0 2M 4M 4 32", 'd'),
    (0x5b, 'T', "4K 4M 64", 'd'),
    (0x5c, 'T', "4K 4M 128", 'd'),
    (0x5d, 'T', "4K 4M 256", 'd'),
    (0x60, 'C', "1 16K 8 64", 'd'),
    (0x61, 'T', "4K F 48", 'i'),
    (0x63, 'T', "2M 4M 4 32 1G 4 4", 'd'),
    (0x64, 'T', "4K 4 512", 'd'),
    (0x66, 'C', "1 8K 4 64", 'd'),
    (0x67, 'C', "1 16K 4 64", 'd'),
    (0x68, 'C', "1 32K 4 64", 'd'),
    (0x6a, 'X', "4K 8 64", '-'),
    (0x6b, 'X', "4K 8 256", 'd'),
    (0x6c, 'X', "2M 4M 8 128", 'd'),
    (0x6d, 'X', "1G F 16", 'd'),
    (0x70, 'C', "12K 8", '-'),
    (0x71, 'C', "16K 8", '-'),
    (0x72, 'C', "32K 8", '-'),
    (0x76, 'T', "2M 4M F 8", 'i'),
    (0x78, 'C', "2 1M 4 64", '-'),
    (0x79, 'C', "2 128K 8 64 2", '-'),
    (0x7a, 'C', "2 256K 8 64 2", '-'),
    (0x7b, 'C', "2 512K 8 64 2", '-'),
    (0x7c, 'C', "2 1M 8 64 2", '-'),
    (0x7d, 'C', "2 2M 8 64", '-'),
    (0x7f, 'C', "2 512K 2 64", '-'),
    (0x80, 'C', "2 512K 8 64", '-'),
    (0x82, 'C', "2 256K 8 32", '-'),
    (0x83, 'C', "2 512K 8 32", '-'),
    (0x84, 'C', "2 1M 8 32", '-'),
    (0x85, 'C', "2 2M 8 32", '-'),
    (0x86, 'C', "2 512K 4 64", '-'),
    (0x87, 'C', "2 1M 8 64", '-'),
    (0xa0, 'T', "4K F 32", 'd'),
    (0xb0, 'T', "4K 4 128", 'i'),
    (0xb1, 'T', "2M 4 8 4M 4 4", 'i'),
    (0xb2, 'T', "4K 4 64", 'i'),
    (0xb3, 'T', "4K 4 128", 'd'),
    (0xb4, 'T', "1 4K 4 256", 'd'),
    (0xb5, 'T', "4K 8 64", 'i'),
    (0xb6, 'T', "4K 8 128", 'i'),
    (0xba, 'T', "1 4K 4 64", 'd'),
    (0xc0, 'T', "4K 4M 4 8", 'd'),
    (0xc1, 'T', "2 4K 2M 8 1024", '-'),
    (0xc2, 'T', "2M 4 16", 'd'),
    (0xc3, 'T', "2 4K 2M 6 1536 1G 4 16", '-'),
    (0xc4, 'T', "2M 4M 4 32", 'd'),
    (0xca, 'T', "2 4K 4 512", '-'),
    (0xd0, 'C', "3 512K 4 64", '-'),
    (0xd1, 'C', "3 1M 4 64", '-'),
    (0xd2, 'C', "3 2M 4 64", '-'),
    (0xd6, 'C', "3 1M 8 64", '-'),
    (0xd7, 'C', "3 2M 8 64", '-'),
    (0xd8, 'C', "3 4M 8 64", '-'),
    (0xdc, 'C', "3 1.5M 12 64", '-'),
    (0xdd, 'C', "3 3M 12 64", '-'),
    (0xde, 'C', "3 6M 12 64", '-'),
    (0xe2, 'C', "3 2M 16 64", '-'),
    (0xe3, 'C', "3 4M 16 64", '-'),
    (0xe4, 'C', "3 8M 16 64", '-'),
    (0xea, 'C', "3 12M 24 64", '-'),
    (0xeb, 'C', "3 18M 24 64", '-'),
    (0xec, 'C', "3 24M 24 64", '-'),
    (0xf0, 'P', "64", '-'),
    (0xf1, 'P', "128", '-'),
    (0xfe, 'G', "2 18", '-'),
    (0xff, 'G', "2 4", '-'),
];
