//! What each labelled row of the report is about: (structure, title, rows of (label, question)).

pub const SECTIONS: &[(&str, &str, &[(&str, &str)])] = &[
    ("feature_info", "version information (1/eax):", &[
        ("base family", "base_family_id"), ("base model", "base_model_id"), ("stepping", "stepping_id"), ("extended family", "extended_family_id"),
        ("extended model", "extended_model_id"), ("family", "family_id"), ("model", "model_id"),
    ]),
    ("feature_info", "miscellaneous (1/ebx):", &[
        ("processor APIC physical id", "initial_local_apic_id"), ("max. cpus", "max_logical_processor_ids"),
        ("CLFLUSH line size", "cflush_cache_line_size"), ("brand index", "brand_index"),
    ]),
    ("feature_info", "feature information (1/edx):", &[
        ("fpu", "has_fpu"), ("vme", "has_vme"), ("de", "has_de"), ("pse", "has_pse"), ("tsc", "has_tsc"), ("msr", "has_msr"), ("pae", "has_pae"),
        ("mce", "has_mce"), ("cmpxchg8b", "has_cmpxchg8b"), ("apic", "has_apic"), ("sysenter_sysexit", "has_sysenter_sysexit"), ("mtrr", "has_mtrr"),
        ("pge", "has_pge"), ("mca", "has_mca"), ("cmov", "has_cmov"), ("pat", "has_pat"), ("pse36", "has_pse36"), ("psn", "has_psn"),
        ("clflush", "has_clflush"), ("ds", "has_ds"), ("acpi", "has_acpi"), ("mmx", "has_mmx"), ("fxsave_fxstor", "has_fxsave_fxstor"),
        ("sse", "has_sse"), ("sse2", "has_sse2"), ("ss", "has_ss"), ("htt", "has_htt"), ("tm", "has_tm"), ("pbe", "has_pbe"),
    ]),
    ("feature_info", "feature information (1/ecx):", &[
        ("sse3", "has_sse3"), ("pclmulqdq", "has_pclmulqdq"), ("ds_area", "has_ds_area"), ("monitor_mwait", "has_monitor_mwait"), ("cpl", "has_cpl"),
        ("vmx", "has_vmx"), ("smx", "has_smx"), ("eist", "has_eist"), ("tm2", "has_tm2"), ("ssse3", "has_ssse3"), ("cnxtid", "has_cnxtid"),
        ("fma", "has_fma"), ("cmpxchg16b", "has_cmpxchg16b"), ("pdcm", "has_pdcm"), ("pcid", "has_pcid"), ("dca", "has_dca"), ("sse41", "has_sse41"),
        ("sse42", "has_sse42"), ("x2apic", "has_x2apic"), ("movbe", "has_movbe"), ("popcnt", "has_popcnt"), ("tsc_deadline", "has_tsc_deadline"),
        ("aesni", "has_aesni"), ("xsave", "has_xsave"), ("oxsave", "has_oxsave"), ("avx", "has_avx"), ("f16c", "has_f16c"), ("rdrand", "has_rdrand"),
        ("hypervisor", "has_hypervisor"),
    ]),
    ("cache_params", "L{} Cache:", &[
        ("cache type", "cache_type"), ("cache level", "level"), ("self-initializing cache level", "is_self_initializing"),
        ("fully associative cache", "is_fully_associative"), ("threads sharing this cache", "max_cores_for_cache"),
        ("processor cores on this die", "max_cores_for_package"), ("system coherency line size", "coherency_line_size"),
        ("physical line partitions", "physical_line_partitions"), ("ways of associativity", "associativity"),
        ("WBINVD/INVD acts on lower caches", "is_write_back_invalidate"), ("inclusive to lower caches", "is_inclusive"),
        ("complex cache indexing", "has_complex_indexing"), ("number of sets", "sets"), ("(size synth.)", "?size"),
    ]),
    ("monitor_mwait", "MONITOR/MWAIT (0x05):", &[
        ("smallest monitor-line size", "smallest_monitor_line"), ("largest monitor-line size", "largest_monitor_line"),
        ("MONITOR/MWAIT exts", "extensions_supported"), ("Interrupts as break-event for MWAIT", "interrupts_as_break_event"),
    ]),
    ("thermal_power", "Thermal and Power Management Features (0x06):", &[
        ("digital thermometer", "has_dts"), ("Intel Turbo Boost Technology", "has_turbo_boost"), ("ARAT always running APIC timer", "has_arat"),
        ("PLN power limit notification", "has_pln"), ("ECMD extended clock modulation duty", "has_ecmd"),
        ("PTM package thermal management", "has_ptm"), ("HWP base registers", "has_hwp"), ("HWP notification", "has_hwp_notification"),
        ("HWP activity window", "has_hwp_activity_window"), ("HWP energy performance preference", "has_hwp_energy_performance_preference"),
        ("HWP package level request", "has_hwp_package_level_request"), ("HDC base registers", "has_hdc"),
        ("Intel Turbo Boost Max Technology 3.0", "has_turbo_boost3"), ("HWP capabilities", "has_hwp_capabilities"),
        ("HWP PECI override", "has_hwp_peci_override"), ("flexible HWP", "has_flexible_hwp"),
        ("IA32_HWP_REQUEST MSR fast access mode", "has_hwp_fast_access_mode"),
        ("ignoring idle logical processor HWP req", "has_ignore_idle_processor_hwp_request"), ("digital thermometer threshold", "dts_irq_threshold"),
        ("hardware coordination feedback", "has_hw_coord_feedback"), ("performance-energy bias capability", "has_energy_bias_pref"),
    ]),
    ("ext_features", "Extended feature flags (0x07):", &[
        ("FSGSBASE", "has_fsgsbase"), ("IA32_TSC_ADJUST MSR", "has_tsc_adjust_msr"), ("SGX: Software Guard Extensions", "has_sgx"),
        ("BMI1", "has_bmi1"), ("HLE hardware lock elision", "has_hle"), ("AVX2: advanced vector extensions 2", "has_avx2"),
        ("FDP_EXCPTN_ONLY", "has_fdp"), ("SMEP supervisor mode exec protection", "has_smep"), ("BMI2 instructions", "has_bmi2"),
        ("enhanced REP MOVSB/STOSB", "has_rep_movsb_stosb"), ("INVPCID instruction", "has_invpcid"),
        ("RTM: restricted transactional memory", "has_rtm"), ("RDT-CMT/PQoS cache monitoring", "has_rdtm"),
        ("deprecated FPU CS/DS", "has_fpu_cs_ds_deprecated"), ("MPX: intel memory protection extensions", "has_mpx"),
        ("RDT-CAT/PQE cache allocation", "has_rdta"), ("AVX512F: AVX-512 foundation instructions", "has_avx512f"),
        ("AVX512-4NNIW: 4NNIW instructions", "has_avx512_4vnniw"), ("AVX512-4FMAPS: 4FMAPS instructions", "has_avx512_4fmaps"),
        ("AVX512-VP2INTERSECT: VP2INTERSECT instructions", "has_avx512_vp2intersect"), ("AMX_BF16: AMX_BF16 instructions", "has_amx_bf16"),
        ("AVX512_FP16: AVX512_FP16 instructions", "has_avx512_fp16"), ("AMX_TILE: Tile Architecture support", "has_amx_tile"),
        ("AMX_INT8: Tile Computational Operation on 8-bit integers", "has_amx_int8"), ("AVX512DQ: double & quadword instructions", "has_avx512dq"),
        ("RDSEED instruction", "has_rdseed"), ("ADX instructions", "has_adx"), ("SMAP: supervisor mode access prevention", "has_smap"),
        ("AVX512IFMA: fused multiply add", "has_avx512_ifma"), ("CLFLUSHOPT instruction", "has_clflushopt"), ("CLWB instruction", "has_clwb"),
        ("Intel processor trace", "has_processor_trace"), ("AVX512PF: prefetch instructions", "has_avx512pf"),
        ("AVX512ER: exponent & reciprocal instrs", "has_avx512er"), ("AVX512CD: conflict detection instrs", "has_avx512cd"),
        ("SHA instructions", "has_sha"), ("AVX512BW: byte & word instructions", "has_avx512bw"), ("AVX512VL: vector length", "has_avx512vl"),
        ("PREFETCHWT1", "has_prefetchwt1"), ("UMIP: user-mode instruction prevention", "has_umip"), ("PKU protection keys for user-mode", "has_pku"),
        ("OSPKE CR4.PKE and RDPKRU/WRPKRU", "has_ospke"), ("AVX512VNNI: vector neural network instructions", "has_avx512vnni"),
        ("BNDLDX/BNDSTX MAWAU value in 64-bit mode", "mawau_value"), ("RDPID: read processor ID", "has_rdpid"),
        ("SGX_LC: SGX launch config", "has_sgx_lc"), ("AVX_VNNI: AVX vector neural network instructions", "has_avx_vnni"),
        ("AVX512_BF16: AVX512 BF16 instructions", "has_avx512_bf16"), ("FZRMK: fast zero-length REP MOVSB256", "has_fzrm"),
        ("FSRM: fast short REP STOSB", "has_fsrs"), ("FSRCRS: fast short REP CMPSB, REP SCASB", "has_fsrcrs"),
        ("HRESET: HRESET instruction", "has_hreset"), ("CET_SSS: CET_SSS support", "has_cet_sss"),
    ]),
    ("perf_mon", "Monitoring Hardware Info (0x0a/{eax, edx}):", &[
        ("version ID", "version_id"), ("number of counters per HW thread", "number_of_counters"), ("bit width of counter", "counter_bit_width"),
        ("length of EBX bit vector", "ebx_length"), ("number of fixed counters", "fixed_function_counters"),
        ("bit width of fixed counters", "fixed_function_counters_bit_width"), ("anythread deprecation", "has_any_thread_deprecation"),
    ]),
    ("perf_mon", "Monitoring Hardware Features (0x0a/ebx):", &[
        ("core cycle event not available", "is_core_cyc_ev_unavailable"), ("instruction retired event not available", "is_inst_ret_ev_unavailable"),
        ("reference cycles event not available", "is_ref_cycle_ev_unavailable"),
        ("last-level cache ref event not available", "is_cache_ref_ev_unavailable"),
        ("last-level cache miss event not avail", "is_ll_cache_miss_ev_unavailable"),
        ("branch inst retired event not available", "is_branch_inst_ret_ev_unavailable"),
        ("branch mispred retired event not available", "is_branch_midpred_ev_unavailable"),
    ]),
    ("topology", "level {}:", &[
        ("level type", "level_type"), ("bit width of level", "shift_right_for_next_apic_id"), ("number of logical processors at level", "processors"),
        ("x2apic id of current processor", "x2apic_id"),
    ]),
    ("xsave", "XCR0/IA32_XSS supported states:", &[
        ("XCR0|x87", "xcr0_supports_legacy_x87"), ("XCR0|SSE state", "xcr0_supports_sse_128"), ("XCR0|AVX state", "xcr0_supports_avx_256"),
        ("XCR0|MPX BNDREGS", "xcr0_supports_mpx_bndregs"), ("XCR0|MPX BNDCSR", "xcr0_supports_mpx_bndcsr"),
        ("XCR0|AVX-512 opmask", "xcr0_supports_avx512_opmask"), ("XCR0|AVX-512 ZMM_Hi256", "xcr0_supports_avx512_zmm_hi256"),
        ("XCR0|AVX-512 Hi16_ZMM", "xcr0_supports_avx512_zmm_hi16"), ("IA32_XSS|PT", "ia32_xss_supports_pt"), ("XCR0|PKRU", "xcr0_supports_pkru"),
        ("IA32_XSS|HDC", "ia32_xss_supports_hdc"), ("bytes required by fields in XCR0", "xsave_area_size_enabled_features"),
        ("bytes required by XSAVE/XRSTOR area", "xsave_area_size_supported_features"),
    ]),
    ("xsave", "XSAVE features (0x0d/1):", &[
        ("XSAVEOPT instruction", "has_xsaveopt"), ("XSAVEC instruction", "has_xsavec"), ("XGETBV instruction", "has_xgetbv"),
        ("XSAVES/XRSTORS instructions", "has_xsaves_xrstors"), ("SAVE area size [Bytes]", "xsave_size"),
    ]),
    ("xsave", "{} features (0x0d/{}):", &[
        ("save state size [Bytes]", "size"), ("save state byte offset", "offset"), ("supported in IA32_XSS or XCR0", "location"),
        ("64-byte alignment in compacted XSAVE", "is_compacted_format"),
    ]),
    ("rdt_mon", "Quality of Service Monitoring Resource Type (0x0f/0):", &[
        ("Maximum range of RMID", "rmid_range"), ("L3 cache QoS monitoring", "has_l3_monitoring"),
    ]),
    ("rdt_mon", "L3 Cache Quality of Service Monitoring (0x0f/1):", &[
        ("Conversion factor from IA32_QM_CTR to bytes", "conversion_factor"), ("Maximum range of RMID", "maximum_rmid_range"),
        ("L3 occupancy monitoring", "has_occupancy_monitoring"), ("L3 total bandwidth monitoring", "has_total_bandwidth_monitoring"),
        ("L3 local bandwidth monitoring", "has_local_bandwidth_monitoring"),
    ]),
    ("rdt_alloc", "Resource Director Technology Allocation (0x10/0)", &[
        ("L3 cache allocation technology", "has_l3_cat"), ("L2 cache allocation technology", "has_l2_cat"),
        ("memory bandwidth allocation", "has_memory_bandwidth_allocation"),
    ]),
    ("rdt_alloc", "L3 Cache Allocation Technology (0x10/1):", &[
        ("length of capacity bit mask", "capacity_mask_length"), ("Bit-granular map of isolation/contention", "isolation_bitmap"),
        ("code and data prioritization", "has_code_data_prioritization"), ("highest COS number", "highest_cos"),
    ]),
    ("rdt_alloc", "L2 Cache Allocation Technology (0x10/2):", &[
        ("length of capacity bit mask", "capacity_mask_length"), ("Bit-granular map of isolation/contention", "isolation_bitmap"),
        ("highest COS number", "highest_cos"),
    ]),
    ("rdt_alloc", "Memory Bandwidth Allocation (0x10/3):", &[
        ("maximum throttling value", "max_hba_throttling"), ("delay values are linear", "has_linear_response_delay"),
        ("highest COS number", "highest_cos"),
    ]),
    ("sgx", "SGX - Software Guard Extensions (0x12/{0,1}):", &[
        ("SGX1", "has_sgx1"), ("SGX2", "has_sgx2"), ("SGX ENCLV E*VIRTCHILD, ESETCONTEXT", "has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext"),
        ("SGX ENCLS ETRACKC, ERDINFO, ELDBC, ELDUC", "has_encls_leaves_etrackc_erdinfo_eldbc_elduc"), ("MISCSELECT", "miscselect"),
        ("MaxEnclaveSize_Not64 (log2)", "max_enclave_size_non_64bit"), ("MaxEnclaveSize_64 (log2)", "max_enclave_size_64bit"),
    ]),
    ("sgx", "Enclave Page Cache (0x12/{})", &[
        ("physical base address", "physical_base"), ("size", "size"),
    ]),
    ("proc_trace", "Intel Processor Trace (0x14):", &[
        ("IA32_RTIT_CR3_MATCH is accessible", "has_rtit_cr3_match"),
        ("configurable PSB & cycle-accurate", "has_configurable_psb_and_cycle_accurate_mode"),
        ("IP & TraceStop filtering; PT preserve", "has_ip_tracestop_filtering"),
        ("MTC timing packet; suppress COFI-based", "has_mtc_timing_packet_coefi_suppression"), ("PTWRITE", "has_ptwrite"),
        ("power event trace", "has_power_event_trace"), ("ToPA output scheme", "has_topa"),
        ("ToPA can hold many output entries", "has_topa_maximum_entries"), ("single-range output scheme support", "has_single_range_output_scheme"),
        ("output to trace transport", "has_trace_transport_subsystem"), ("IP payloads have LIP values & CS", "has_lip_with_cs_base"),
        ("configurable address ranges", "configurable_address_ranges"), ("supported MTC periods bitmask", "supported_mtc_period_encodings"),
        ("supported cycle threshold bitmask", "supported_cycle_threshold_value_encodings"),
        ("supported config PSB freq bitmask", "supported_psb_frequency_encodings"),
    ]),
    ("tsc", "Time Stamp Counter/Core Crystal Clock Information (0x15):", &[
        ("TSC/clock ratio", "?ratio"), ("nominal core crystal clock", "nominal_frequency"),
    ]),
    ("freq", "Processor Frequency Information (0x16):", &[
        ("Core Base Frequency (MHz)", "processor_base_frequency"), ("Core Maximum Frequency (MHz)", "processor_max_frequency"),
        ("Bus (Reference) Frequency (MHz)", "bus_frequency"),
    ]),
    ("dat", "Deterministic Address Translation Structure (0x18/{}):", &[
        ("number of sets", "sets"), ("4 KiB page size entries", "has_4k_entries"), ("2 MiB page size entries", "has_2mb_entries"),
        ("4 MiB page size entries", "has_4mb_entries"), ("1 GiB page size entries", "has_1gb_entries"), ("partitioning", "partitioning"),
        ("ways of associativity", "ways"), ("translation cache type", "cache_type"), ("translation cache level", "cache_level"),
        ("fully associative", "is_fully_associative"), ("maximum number of addressible IDs", "max_addressable_ids"),
    ]),
    ("soc", "System-on-Chip (SoC) Vendor Info (0x17):", &[
        ("Vendor ID", "get_soc_vendor_id"), ("Project ID", "get_project_id"), ("Stepping ID", "get_stepping_id"),
        ("Vendor Brand", "?brand"),
    ]),
    ("l1", "L1 TLB 2/4 MiB entries (0x8000_0005/eax):", &[
        ("iTLB #entries", "itlb_2m_4m_size"), ("iTLB associativity", "itlb_2m_4m_associativity"), ("dTLB #entries", "dtlb_2m_4m_size"),
        ("dTLB associativity", "dtlb_2m_4m_associativity"),
    ]),
    ("l1", "L1 TLB 4 KiB entries (0x8000_0005/ebx):", &[
        ("iTLB #entries", "itlb_4k_size"), ("iTLB associativity", "itlb_4k_associativity"), ("dTLB #entries", "dtlb_4k_size"),
        ("dTLB associativity", "dtlb_4k_associativity"),
    ]),
    ("l1", "L1 dCache (0x8000_0005/ecx):", &[
        ("line size [Bytes]", "dcache_line_size"), ("lines per tag", "dcache_lines_per_tag"), ("associativity", "dcache_associativity"),
        ("size [KiB]", "dcache_size"),
    ]),
    ("l1", "L1 iCache (0x8000_0005/edx):", &[
        ("line size [Bytes]", "icache_line_size"), ("lines per tag", "icache_lines_per_tag"), ("associativity", "icache_associativity"),
        ("size [KiB]", "icache_size"),
    ]),
    ("l2l3", "L2 TLB 2/4 MiB entries (0x8000_0006/eax):", &[
        ("iTLB #entries", "itlb_2m_4m_size"), ("iTLB associativity", "itlb_2m_4m_associativity"), ("dTLB #entries", "dtlb_2m_4m_size"),
        ("dTLB associativity", "dtlb_2m_4m_associativity"),
    ]),
    ("l2l3", "L2 TLB 4 KiB entries (0x8000_0006/ebx):", &[
        ("iTLB #entries", "itlb_4k_size"), ("iTLB associativity", "itlb_4k_associativity"), ("dTLB #entries", "dtlb_4k_size"),
        ("dTLB associativity", "dtlb_4k_associativity"),
    ]),
    ("l2l3", "L2 Cache (0x8000_0006/ecx):", &[
        ("line size [Bytes]", "l2cache_line_size"), ("lines per tag", "l2cache_lines_per_tag"), ("associativity", "l2cache_associativity"),
        ("size [KiB]", "l2cache_size"),
    ]),
    ("l2l3", "L3 Cache (0x8000_0006/edx):", &[
        ("line size [Bytes]", "l3cache_line_size"), ("lines per tag", "l3cache_lines_per_tag"), ("associativity", "l3cache_associativity"),
        ("size [KiB]", "?l3"),
    ]),
    ("apm", "RAS Capability (0x8000_0007/ebx):", &[
        ("MCA overflow recovery", "has_mca_overflow_recovery"), ("SUCCOR", "has_succor"), ("HWA: hardware assert", "has_hwa"),
    ]),
    ("apm", "Advanced Power Management (0x8000_0007/edx):", &[
        ("TS: temperature sensing diode", "has_ts"), ("FID: frequency ID control", "has_freq_id_ctrl"),
        ("VID: voltage ID control", "has_volt_id_ctrl"), ("TTP: thermal trip", "has_thermtrip"), ("TM: thermal monitor", "has_tm"),
        ("100 MHz multiplier control", "has_100mhz_steps"), ("hardware P-State control", "has_hw_pstate"), ("Invariant TSC", "has_invariant_tsc"),
        ("CPB: core performance boost", "has_cpb"), ("read-only effective frequency interface", "has_ro_effective_freq_iface"),
        ("processor feedback interface", "has_feedback_iface"), ("APM power reporting", "has_power_reporting_iface"),
    ]),
    ("capacity", "Physical Address and Linear Address Size (0x8000_0008/eax):", &[
        ("maximum physical address [Bits]", "physical_address_bits"), ("maximum linear (virtual) address [Bits]", "linear_address_bits"),
        ("maximum guest physical address [Bits]", "guest_physical_address_bits"),
    ]),
    ("capacity", "Extended Feature Extensions ID (0x8000_0008/ebx):", &[
        ("CLZERO", "has_cl_zero"), ("instructions retired count", "has_inst_ret_cntr_msr"),
        ("always save/restore error pointers", "has_restore_fp_error_ptrs"), ("RDPRU", "has_rdpru"), ("INVLPGB", "has_invlpgb"),
        ("MCOMMIT", "has_mcommit"), ("WBNOINVD", "has_wbnoinvd"), ("WBNOINVD/WBINVD interruptible", "has_int_wbinvd"),
        ("EFER.LMSLE unsupported", "has_unsupported_efer_lmsle"), ("INVLPGB with nested paging", "has_invlpgb_nested"),
    ]),
    ("capacity", "Size Identifiers (0x8000_0008/ecx):", &[
        ("Logical processors", "num_phys_threads"), ("APIC core ID size", "apic_id_size"), ("Max. logical processors", "maximum_logical_processors"),
        ("Perf. TSC size [Bits]", "perf_tsc_size"),
    ]),
    ("capacity", "Size Identifiers (0x8000_0008/edx):", &[
        ("RDPRU max. input value", "max_rdpru_id"), ("INVLPGB max. #pages", "invlpgb_max_pages"),
    ]),
    ("svm", "SVM Secure Virtual Machine (0x8000_000a/edx):", &[
        ("nested paging", "has_nested_paging"), ("LBR virtualization", "has_lbr_virtualization"), ("SVM lock", "has_svm_lock"), ("NRIP", "has_nrip"),
        ("MSR based TSC rate control", "has_tsc_rate_msr"), ("VMCB clean bits support", "has_vmcb_clean_bits"),
        ("flush by ASID", "has_flush_by_asid"), ("decode assists", "has_decode_assists"), ("pause intercept filter", "has_pause_filter"),
        ("pause filter threshold", "has_pause_filter_threshold"), ("AVIC: virtual interrupt controller", "has_avic"),
        ("virtualized VMLOAD/VMSAVE", "has_vmsave_virtualization"), ("GIF: virtual global interrupt flag", "has_gif"),
        ("GMET: guest mode execute trap", "has_gmet"), ("SPEC_CTRL virtualization", "has_spec_ctrl"),
        ("Supervisor shadow-stack restrictions", "has_sss_check"), ("#MC intercept", "has_host_mce_override"),
        ("INVLPGB/TLBSYNC virtualization", "has_tlb_ctrl"),
    ]),
    ("tlb1g", "TLB 1-GiB Pages Info (0x8000_0019):", &[
        ("L1 iTLB #entries", "itlb_l1_1gb_size"), ("L1 iTLB associativity", "itlb_l1_1gb_associativity"), ("L1 dTLB #entries", "dtlb_l1_1gb_size"),
        ("L1 dTLB associativity", "dtlb_l1_1gb_associativity"), ("L2 iTLB #entries", "itlb_l2_1gb_size"),
        ("L2 iTLB associativity", "itlb_l2_1gb_associativity"), ("L2 dTLB #entries", "dtlb_l2_1gb_size"),
        ("L2 dTLB associativity", "dtlb_l2_1gb_associativity"),
    ]),
    ("perf_opt", "Performance Optimization Info (0x8000_001a):", &[
        ("128-bits width the internal FP/SIMD", "has_fp128"), ("MOVU SSE are efficient more than MOVL/MOVH", "has_movu"),
        ("256-bits width the internal FP/SIMD", "has_fp256"),
    ]),
    ("ibs", "Instruction-Based Sampling Capabilities (0x8000_001b):", &[
        ("IBS feature flags valid", "has_feature_flags"), ("IBS fetch sampling supporte", "has_fetch_sampling"),
        ("IBS execution sampling supported", "has_execution_sampling"), ("Read write of op counter supported", "has_read_write_operation_counter"),
        ("Op counting mode supported", "has_operation_counter"), ("Branch target address reporting supported", "has_branch_target_address_reporting"),
        ("IbsOpCurCnt and IbsOpMaxCnt extend by 7 bits", "has_operation_counter_extended"),
        ("Invalid RIP indication supported", "has_invalid_rip_indication"),
        ("Fused branch micro-op indication supported", "has_fused_branch_micro_op_indication"),
        ("L3 Miss Filtering for IBS supported", "has_l3_miss_filtering"),
    ]),
    ("proc_topo", "Processor Topology Info (0x8000_001e):", &[
        ("x2APIC ID", "x2apic_id"), ("Core ID", "core_id"), ("Threads per core", "threads_per_core"), ("Node ID", "node_id"),
        ("Nodes per processor", "nodes_per_processor"),
    ]),
    ("mem_enc", "Memory Encryption Support (0x8000_001f):", &[
        ("SME: Secure Memory Encryption", "has_sme"), ("SEV: Secure Encrypted Virtualization", "has_sev"), ("Page Flush MSR", "has_page_flush_msr"),
        ("SEV-ES: Encrypted State", "has_sev_es"), ("SEV Secure Nested Paging", "has_sev_snp"), ("VM Permission Levels", "has_vmpl"),
        ("Hardware cache coherency across encryption domains", "has_hw_enforced_cache_coh"), ("SEV guests only with 64-bit host", "has_64bit_mode"),
        ("Restricted injection", "has_restricted_injection"), ("Alternate injection", "has_alternate_injection"),
        ("Full debug state swap for SEV-ES guests", "has_debug_swap"), ("Disallowing IBS use by the host supported", "has_prevent_host_ibs"),
        ("Virtual Transparent Encryption", "has_vte"), ("C-bit position in page-table", "c_bit_position"),
        ("Physical address bit reduction", "physical_address_reduction"), ("Max. simultaneouslys encrypted guests", "max_encrypted_guests"),
        ("Minimum ASID value for SEV guest", "min_sev_no_es_asid"),
    ]),
    ("pqos", "Platform Quality of Service (0x8000_0020/0):", &[
        ("Memory Bandwidth Enforcement", "has_l3mbe"), ("Slow Memory Bandwidth Enforcement", "has_l3smbe"),
        ("Bandwidth Monitoring Event Configuration", "has_bmec"), ("L3 Range Reservation", "has_l3rr"),
        ("Assignable Bandwidth Monitoring Counters", "has_abmc"), ("Smart Data Cache Injection (SDCI) Allocation Enforcement", "has_sdciae"),
    ]),
    ("pqos", "L3 Memory Bandwidth Enforcement Information (0x8000_0020/1):", &[
        ("Bandwidth Length", "bandwidth_length"), ("COS Number", "cos_max"),
    ]),
    ("pqos", "L3 Slow Memory Bandwidth Enforcement Information (0x8000_0020/2):", &[
        ("Bandwidth Length", "bandwidth_length"), ("COS Number", "cos_max"),
    ]),
    ("pqos", "Bandwidth Monitoring Event Counters Information (0x8000_0020/3):", &[
        ("Number of configurable bandwidth events", "number_events"), ("Reads to local DRAM memory", "has_l3_cache_lcl_bw_fill_mon"),
        ("Reads to remote DRAM memory", "has_l3_cache_rmt_bw_fill_mon"), ("Non-temporal writes to local memory", "has_l3_cache_lcl_bw_nt_wr_mon"),
        ("Non-temporal writes to remote memory", "has_l3_cache_rmt_bw_nt_wr_mon"),
        ("Reads to local memory identified as 'Slow Memory'", "has_l3_cache_lcl_slow_bw_fill_mon"),
        ("Reads to remote memory identified as 'Slow Memory'", "has_l3_cache_rmt_slow_bw_fill_mon"),
        ("Dirty victim writes to all types of memory”.", "has_l3_cache_vic_mon"),
    ]),
    ("pqos", "Assignable Bandwidth Monitoring Counters Information (0x8000_0020/5):", &[
        ("Indicates that QM_CTR bit 61 is an overflow bit", "has_overflow_bit"), ("QM_CTR counter width, offset from 24 bits", "counter_size"),
        ("Maximum supported ABMC counter ID", "max_abmc"), ("Bandwidth counters can be configured", "has_select_cos"),
    ]),
    ("ext_feat_id2", "Extended Feature Identification (0x8000_0021):", &[
        ("Processor ignores nested data breakpoints", "has_no_nested_data_bp"),
        ("LFENCE is always dispatch serializing", "has_lfence_always_serializing"),
        ("SMM paging configuration lock supported", "has_smm_pg_cfg_lock"),
        ("Null segment selector loads also clear the destination segment register base and limit", "has_null_select_clears_base"),
        ("Upper Address Ignore is supported", "has_upper_address_ignore"), ("Automatic IBRS", "has_automatic_ibrs"),
        ("SMM_CTL MSR (C001_0116h) is not supporte", "has_no_smm_ctl_msr"), ("Prefetch control MSR supporte", "has_prefetch_ctl_msr"),
        ("CPUID disable for non-privileged softwar", "has_cpuid_user_dis"),
        ("The size of the Microcode patch in 16-byte multiples", "microcode_patch_size"),
    ]),
    ("ext_perf_mon", "Extended Performance Monitoring and Debug (0x8000_0022):", &[
        ("Performance Monitoring Version 2 supported", "has_perf_mon_v2"), ("Last Branch Record Stack supported", "has_lbr_stack"),
        ("LbrAndPmcFreeze", "has_lbr_and_pmc_freeze"), ("Number of Core Performance Counters", "num_perf_ctr_core"),
        ("Number of Last Branch Record Stack entries", "num_lbr_stack_size"),
        ("Number of Northbridge Performance Monitor Counters", "num_perf_ctr_nb"),
    ]),
    ("mem_multikey", "Multi-Key Encrypted Memory Capabilities (0x8000_0023):", &[
        ("Secure Host Multi-Key Memory (MEM-HMK) Encryption Mode Supported", "has_mem_hmk"), ("MaxMemHmkEncrKeyID", "max_mem_hmk_encr_key_id"),
    ]),
    ("ext_cpu_topo", "Extended CPU Topology (0x8000_0026/{}):", &[
        ("Mask Width", "mask_width"), ("Efficiency Ranking Available", "has_efficiency_ranking_available"),
        ("Heterogeneous Cores", "has_heterogeneous_cores"), ("Asymmetric Topology", "has_asymmetric_topology"),
        ("Number of logical processors at the current hierarchy level", "num_logical_processors"),
        ("Static efficiency ranking between cores of a specific core type", "pwr_efficiency_ranking"), ("Native Mode Id", "native_mode_id"),
        ("Core Type", "core_type"), ("Level Type", "level_type"), ("Extended APIC ID of the logical processo", "extended_apic_id"),
    ]),
];
