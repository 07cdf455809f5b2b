L, X, D, B = "src/lib.rs", "src/extended.rs", "src/display.rs", "src/bin/cpuid.rs"
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

seed("c01-dat-recursion", "C01", [(L, """        loop {
            // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
            if self.current > u64::from(self.count) {
                return None;
            }
""", """        {
            // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
            if self.current > u64::from(self.count) {
                return None;
            }
"""), (L, """                // or than a valid sub-leaf of a higher or lower-level struc-ture
                continue;""", """                // or than a valid sub-leaf of a higher or lower-level struc-ture
                let mut rest = DatIter {
                    read: self.read.clone(),
                    current: self.current,
                    count: self.count,
                };
                let item = rest.next();
                self.current = rest.current;
                return item;""")],
 "Leaf 0x18 announcing tens of thousands of sub-leaves of which a long run is null.",
 "The walk recurses once per null sub-leaf, so the list exhausts the stack instead of ending.",
 """let rows = vec![intel(0x18), (0x18, 0, [2_000_000, 0, 0, 0])];
let id = CpuId::with_cpuid_reader(processor(&rows));
assert_eq!(id.get_deterministic_address_translation_info().unwrap().count(), 0);""")

seed("c02-brand-string", "C02", [(L, """            && self.leaf_is_supported(EAX_EXTENDED_BRAND_STRING + 1)
            && self.leaf_is_supported(EAX_EXTENDED_BRAND_STRING + 2)
""", """            && self.leaf_is_supported(EAX_EXTENDED_BRAND_STRING + 1)
""")],
 "A highest extended leaf of exactly 0x80000003.",
 "The brand string is handed out although its last leaf does not exist.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0003), (0x8000_0002, 0, [0x41414141; 4])]));
assert!(id.get_processor_brand_string().is_none());
let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, [0x41414141; 4])]));
assert!(id.get_processor_brand_string().is_some());""")

seed("c02-cache-parameters", "C02", [(L, """            || (self.vendor == Vendor::Amd && self.leaf_is_supported(EAX_CACHE_PARAMETERS_AMD))
""", """            || self.leaf_is_supported(EAX_CACHE_PARAMETERS_AMD)
""")],
 "A processor that is not AMD's, has no leaf 4 but extended leaves up to 0x8000001D.",
 "Cache parameters are handed out from leaf 4 although the processor has no such leaf.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(2), ext(0x8000_0021)]));
assert!(id.get_cache_parameters().is_none());""")

seed("c03-avx512", "C03", [(L, "const AVX512_4VNNIW = 1 << 2;", "const AVX512_4VNNIW = 1 << 3;"), (L, "const AVX512_4FMAPS = 1 << 3;", "const AVX512_4FMAPS = 1 << 2;")],
 "A processor with one of the two features (or one bit set alone).",
 "AVX512_4VNNIW and AVX512_4FMAPS are mixed up.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(7), (7, 0, [0, 0, 0, 4])]));
let f = id.get_extended_feature_info().unwrap();
assert!(f.has_avx512_4vnniw() && !f.has_avx512_4fmaps());""")

seed("c04-hygon", "C04", [(L, '"AuthenticAMD" | "HygonGenuine" => Vendor::Amd,', '"AuthenticAMD" | "HygonGenuin" => Vendor::Amd,')],
 "A Hygon processor, whose leaves are AMD's.",
 "Hygon processors lose all AMD-only features and leaves.",
 """let hygon = (0, 0, [0xd, 0x6f677948, 0x656e6975, 0x6e65476e]);
let id = CpuId::with_cpuid_reader(processor(&[hygon, ext(0x8000_0005), (0x8000_0001, 0, [0, 0, 1 << 22, 0])]));
assert!(id.get_extended_processor_and_feature_identifiers().unwrap().has_topology_extensions());""")

seed("c05-fixed-counters", "C05", [(L, "get_bits(self.edx, 0, 4) as u8\n    }\n\n    /// Bit width of fixed", "get_bits(self.edx, 0, 3) as u8\n    }\n\n    /// Bit width of fixed")],
 "Sixteen or more fixed-function counters.",
 "The number of fixed-function counters loses its highest bit.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0xa), (0xa, 0, [0, 0, 0, 17])]));
assert_eq!(id.get_performance_monitoring_info().unwrap().fixed_function_counters(), 17);""")

seed("c06-phys-threads", "C06", [(X, "        get_bits(self.ecx, 0, 7) as usize + 1", "        (get_bits(self.ecx, 0, 7) as u8).wrapping_add(1) as usize")],
 "All eight bits of the core count set (256 threads).",
 "256 physical threads are reported as 0.",
 """let id = CpuId::with_cpuid_reader(processor(&[amd(1), ext(0x8000_0008), (0x8000_0008, 0, [0, 0, 0xff, 0])]));
assert_eq!(id.get_processor_capacity_feature_info().unwrap().num_phys_threads(), 256);""")

seed("c07-model-family-f", "C07", [(L, """            || (self.vendor == Vendor::Intel && base_family_id != 0xf && base_family_id != 0x6);""", """            || (self.vendor == Vendor::Intel && base_family_id != 0x6);""")],
 "An Intel processor of family 0xF with an extended model.",
 "The extended model is dropped for Intel's family 0xF.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), (1, 0, [0x0001_0f41, 0, 0, 0])]));
assert_eq!(id.get_feature_info().unwrap().model_id(), 0x14);""")

seed("c08-brand-nul", "C08", [(X, """        let slice = slice.split(|&x| x == 0).next().unwrap();
        str::from_utf8(slice)
            .unwrap_or("Invalid Processor Brand String")
            .trim()""", """        let end = slice.iter().rposition(|&x| x != 0).map_or(0, |p| p + 1);
        str::from_utf8(&slice[..end])
            .unwrap_or("Invalid Processor Brand String")
            .trim()""")],
 "Non-zero bytes behind the NUL that ends the brand string.",
 "The brand string is cut at the last NUL instead of the first, so that bytes behind the end become visible.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, [0x41414141, 0x00004242, 0x43434343, 0])]));
assert_eq!(id.get_processor_brand_string().unwrap().as_str(), "AAAABB");""")

seed("c09-leaf-bound", "C09", [(L, """        if self.res.eax >= 0x40000010 {
            let virt_tinfo = self.read.cpuid2(0x40000010, 0);
            Some(virt_tinfo.ebx)""", """        if self.res.eax > 0x40000010 {
            let virt_tinfo = self.read.cpuid2(0x40000010, 0);
            Some(virt_tinfo.ebx)""")],
 "A hypervisor whose highest leaf is exactly 0x40000010, as VMware's is.",
 "The bus frequency is missing where leaf 0x40000010 is the last.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), (1, 0, [0, 0, 1 << 31, 0]), (0x4000_0000, 0, [0x4000_0010, 0, 0, 0]), (0x4000_0010, 0, [3, 7, 0, 0])]));
assert_eq!(id.get_hypervisor_info().unwrap().apic_frequency(), Some(7));""")

seed("c10-last-byte", "C10", [(L, "        if self.current >= 4 * 4 {", "        if self.current + 1 >= 4 * 4 {")],
 "A descriptor in the highest byte of EDX.",
 "The last of the fifteen descriptors is never listed.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(2), (2, 0, [1, 0, 0, 0x2c00_0000])]));
assert_eq!(id.get_cache_info().unwrap().count(), 1);""")

seed("c11-package-cores", "C11", [(L, "        (get_bits(self.eax, 26, 31) + 1) as usize", "        (get_bits(self.eax, 26, 30) + 1) as usize")],
 "More than 32 addressable core ids in the package.",
 "The number of core ids in the package loses its highest bit.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(4), (4, 0, [0xfc00_0021, 0, 0, 0])]));
assert_eq!(id.get_cache_parameters().unwrap().next().unwrap().max_cores_for_package(), 64);""")

seed("c12-third-level", "C12", [(L, "        let res = if self.is_v2 {", "        let res = if self.is_v2 && self.level < 3 {")],
 "A processor with four or more levels in leaf 0x1F.",
 "From the fourth level on, leaf 0x1F's levels are read from leaf 0xB.",
 """let rows: Vec<Row> = (0..5).map(|i| (0x1f, i, [i, 1 << i, (i + 1) << 8 | i, 0])).chain([intel(0x1f)]).collect();
let id = CpuId::with_cpuid_reader(processor(&rows));
assert_eq!(id.get_extended_topology_info_v2().unwrap().count(), 5);""")

seed("c13-high-components", "C13", [(L, "            supported_xcr0: self.eax.bits(),", "            supported_xcr0: self.eax.bits() & 0x3ff,")],
 "A processor with AMX tile state (components 17 and 18).",
 "The tile state components are missing from the list.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0xd), (0xd, 0, [0x6_0007, 0, 0, 0]), (0xd, 17, [64, 2752, 0, 0])]));
assert_eq!(id.get_extended_state_info().unwrap().iter().filter(|s| s.size() == 64).count(), 1);""")

seed("c14-l2-cat", "C14", [(L, """            let res = self.read.cpuid2(EAX_RDT_ALLOCATION, 2);
            Some(L2CatInfo {
                eax: res.eax,
                ebx: res.ebx,
                edx: res.edx,""", """            let res = self.read.cpuid2(EAX_RDT_ALLOCATION, 2);
            Some(L2CatInfo {
                eax: res.eax,
                ebx: res.ebx,
                edx: res.edx & 0xff,""")],
 "More than 256 classes of service for the second-level cache.",
 "The highest class of service of L2 allocation is cut to eight bits.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x10), (0x10, 0, [0, 4, 0, 0]), (0x10, 2, [0, 0, 0, 0x1ff])]));
assert_eq!(id.get_rdt_allocation_info().unwrap().l2_cat().unwrap().highest_cos(), 0x1ff);""")

seed("c15-epc-size", "C15", [(L, """        let lower = (get_bits(self.ecx, 12, 31) << 12) as u64;
        let upper = (get_bits(self.edx, 0, 19) as u64) << 32;""", """        let lower = (get_bits(self.ecx, 12, 31) << 12) as u64;
        let upper = (get_bits(self.edx, 0, 15) as u64) << 32;""")],
 "An enclave page cache section of 256 TiB or more.",
 "The size of an enclave page cache section loses its four highest bits.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x12), (7, 0, [0, 4, 0, 0]), (0x12, 2, [1, 0, 0x1000, 0x1_0000])]));
let SgxSectionInfo::Epc(e) = id.get_sgx_info().unwrap().iter().next().unwrap();
assert_eq!(e.size(), (1 << 48) + 0x1000);""")

seed("c16-associativity", "C16", [(X, "            0xb => Associativity::NWay(48),", "            0xb => Associativity::NWay(40),")],
 "A second-level cache or TLB with the associativity encoding 0xB.",
 "48 ways are reported as 40.",
 """let id = CpuId::with_cpuid_reader(processor(&[amd(1), ext(0x8000_0006), (0x8000_0006, 0, [0, 0, 0xb000, 0])]));
assert_eq!(id.get_l2_l3_cache_and_tlb_info().unwrap().l2cache_associativity(), Associativity::NWay(48));""")

seed("c17-brand-bound", "C17", [(L, """        if self.eax >= 3 {
            let r1""", """        if self.eax > 3 {
            let r1""")],
 "A SoC vendor leaf whose highest sub-leaf is exactly 3 (a brand but no attributes).",
 "The SoC brand string is missing unless there are vendor attributes.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x17), (0x17, 0, [3, 0, 0, 0]), (0x17, 1, [0x41414141; 4])]));
assert!(id.get_soc_vendor_info().unwrap().get_vendor_brand().is_some());""")

seed("c18-tsc-order", "C18", [(L, "        Some(self.nominal_frequency() as u64 * self.numerator() as u64 / self.denominator() as u64)", """        Some(
            (self.nominal_frequency() as u64 / self.denominator() as u64) * self.numerator() as u64,
        )""")],
 "A crystal frequency that the denominator does not divide.",
 "The quotient is cut before it is multiplied, so the TSC frequency comes out too low.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x15), (0x15, 0, [3, 300, 25_000_000, 0])]));
assert_eq!(id.get_tsc_info().unwrap().tsc_frequency(), Some(2_500_000_000));""")

seed("c19-serial", "C19", [(L, """            // upper 64-96 bits are in res1.eax:
            let res1 = self.read.cpuid1(EAX_FEATURE_INFO);
            let res = self.read.cpuid1(EAX_PROCESSOR_SERIAL);
            Some(ProcessorSerial {
                ecx: res.ecx,
                edx: res.edx,
                eax: res1.eax,""", """            // upper 64-96 bits are in res1.eax:
            let res1 = self.read.cpuid1(EAX_FEATURE_INFO);
            let res = self.read.cpuid1(EAX_PROCESSOR_SERIAL);
            Some(ProcessorSerial {
                ecx: res.ecx,
                edx: res.edx,
                eax: if res.all_zero() { 0 } else { res1.eax | (self.read.cpuid1(EAX_CACHE_INFO).eax & 0x8000_0000) },""")],
 "A processor with a serial number and bit 31 of leaf 2 EAX set.",
 "The serial number depends on leaf 2.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(3), (1, 0, [5, 0, 0, 0]), (3, 0, [0, 0, 7, 9]), (2, 0, [0x8000_0000, 0, 0, 0])]));
assert_eq!(id.get_processor_serial().unwrap().serial_upper(), 5);""")

seed("c20-clone-restarts", "C20", [(L, """#[derive(Clone)]
pub struct ExtendedStateIter<R: CpuIdReader> {
    read: R,
    level: u32,
    supported_xcr0: u32,
    supported_xss: u32,
}
""", """pub struct ExtendedStateIter<R: CpuIdReader> {
    read: R,
    level: u32,
    supported_xcr0: u32,
    supported_xss: u32,
}

impl<R: CpuIdReader> Clone for ExtendedStateIter<R> {
    fn clone(&self) -> Self {
        ExtendedStateIter {
            read: self.read.clone(),
            level: 1,
            supported_xcr0: self.supported_xcr0,
            supported_xss: self.supported_xss,
        }
    }
}
""")],
 "A list of state components that is copied after its first item was taken.",
 "The copy starts again from the first component instead of continuing where the original stands.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0xd), (0xd, 0, [0x1f, 0, 0, 0])]));
let mut it = id.get_extended_state_info().unwrap().iter();
it.next();
assert_eq!(it.clone().count(), it.count());""")

seed("c15-fourth-section", "C15", [(L, """        let res = self.read.cpuid2(EAX_SGX, self.current);
""", """        let sub_leaf = self.current + (self.current > 4) as u32;
        let res = self.read.cpuid2(EAX_SGX, sub_leaf);
""")],
 "Four or more enclave page cache sections.",
 "The fourth section is skipped.",
 """let rows: Vec<Row> = (2..6).map(|s| (0x12, s, [1 | s << 12, 0, 0x1000, 0])).chain([intel(0x12), (7, 0, [0, 4, 0, 0])]).collect();
let id = CpuId::with_cpuid_reader(processor(&rows));
assert_eq!(id.get_sgx_info().unwrap().iter().count(), 4);""")

seed("c21-all-zero", "C21", [(L, "        self.eax == 0 && self.ebx == 0 && self.ecx == 0 && self.edx == 0", """        self.eax
            .wrapping_add(self.ebx)
            .wrapping_add(self.ecx)
            .wrapping_add(self.edx)
            == 0""")],
 "Registers whose sum is a multiple of 2^32.",
 "A row that is not empty counts as empty.",
 """assert!(!CpuIdResult { eax: 0x8000_0000, ebx: 0x8000_0000, ecx: 0, edx: 0 }.all_zero());
assert!(CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }.all_zero());""")

seed("c22-report-apic", "C22", [(D, 'RowGen::tuple("processor APIC physical id", info.initial_local_apic_id())', 'RowGen::tuple("processor APIC physical id", info.initial_local_apic_id() & 0x7f)')],
 "An initial APIC id of 128 or more.",
 "The report shows the APIC id without its highest bit.",
 """let args: Vec<String> = std::env::args().collect();
if args.len() > 1 {
    display::markdown(CpuId::with_cpuid_reader(processor(&[intel(1), (1, 0, [0, 0xc800_0000, 0, 0])])));
    return;
}
let out = std::process::Command::new(&args[0]).arg("x").output().unwrap();
let text = String::from_utf8(out.stdout).unwrap();
let line = text.lines().find(|l| l.contains("APIC physical id")).unwrap();
assert!(line.contains("200"), "{}", line);""", features=["display"])

seed("c23-raw-maximum", "C23", [(D, "    let max_leafs = cpuid.cpuid1(0x0).eax;", "    let max_leafs = cpuid.cpuid1(0x0).eax.min(0x20);")],
 "A processor with standard leaves above 0x20.",
 "The dump ends at leaf 0x20.",
 """let args: Vec<String> = std::env::args().collect();
if args.len() > 1 {
    display::raw(processor(&[intel(0x23), (0x23, 0, [1, 2, 3, 4])]));
    return;
}
let out = std::process::Command::new(&args[0]).arg("x").output().unwrap();
assert!(String::from_utf8(out.stdout).unwrap().contains("(0x23, 0x0)"));""", features=["display"])

seed("c24-debug-dat", "C24", [(L, '            .field("has_4mb_entries", &self.has_4mb_entries())', '            .field("has_4mb_entries", &self.has_2mb_entries())')],
 "An address-translation structure with just one of 2 MB and 4 MB pages.",
 "The Debug text shows the answer for 2 MB pages as that for 4 MB pages.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x18), (0x18, 0, [0, 4, 0, 1])]));
let d = id.get_deterministic_address_translation_info().unwrap().next().unwrap();
assert!(d.has_4mb_entries() && format!("{:?}", d).contains("has_4mb_entries: true"));""")

seed("c25-macro-subleaf", "C25", [(L, "        $crate::native_cpuid::cpuid_count($eax as u32, $ecx as u32)", "        $crate::native_cpuid::cpuid_count($eax as u32, $ecx as u8 as u32)")],
 "A sub-leaf number above 255 given to the macro.",
 "The macro asks for another sub-leaf than the one given.",
 """// A sub-leaf above 255 is beyond all lists and must read as such, not as the first of them.
let same = |a: CpuIdResult, b: CpuIdResult| a == b;
for leaf in [4u32, 7, 0xb, 0xd, 0x14, 0x18, 0x1f, 0x8000_001d] {
    let want = native_cpuid::cpuid_count(leaf, 0x100);
    assert!(same(cpuid!(leaf, 0x100), want), "leaf {:#x}", leaf);
}""")

seed("c26-no-std-brand", "C26", [(X, """            .unwrap_or("Invalid Processor Brand String")
            .trim()""", """            .unwrap_or("Invalid Processor Brand String")
            .trim_matches(|c: char| c == ' ' && cfg!(feature = "std"))""")],
 "A build without the std feature, and a brand string with blanks around it.",
 "Without the std feature the brand string keeps its blanks.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, [0x20202020, 0x41414141, 0, 0])]));
assert_eq!(id.get_processor_brand_string().unwrap().as_str(), "AAAA");""")

seed("c27-default-format", "C27", [(B, """        OutputFormat::Raw => raw_cpuid::display::raw(CpuIdReaderNative),
        OutputFormat::Cli => {""", """        OutputFormat::Raw => raw_cpuid::display::raw(CpuIdReaderNative),
        OutputFormat::Cli if !std::io::IsTerminal::is_terminal(&std::io::stdout()) => {
            raw_cpuid::display::raw(CpuIdReaderNative)
        }
        OutputFormat::Cli => {""")],
 "The command's output going into a pipe or file.",
 "With format cli, or none, the command prints the raw dump unless it writes to a terminal.",
 """let out = std::process::Command::new("cargo").args(["run", "--release", "--offline", "-q", "--features", "cli", "--bin", "cpuid", "--target-dir"]).arg(std::env::var("DEMO_DIR").unwrap() + "/cli")
    .current_dir(std::env::var("DEMO_REPO").unwrap()).output().unwrap();
let text = String::from_utf8(out.stdout).unwrap();
assert!(out.status.success() && text.contains("vendor_id") && !text.contains("CpuIdResult"), "{}", text.lines().next().unwrap_or(""));""", extra='DEMO_REPO="$repo" DEMO_DIR="$d" ')

seed("c28-encryption-equality", "C28", [(X, """#[derive(Debug, PartialEq, Eq)]
pub struct MemoryEncryptionInfo {
    eax: MemoryEncryptionInfoEax,
    ebx: u32,
    ecx: u32,
    edx: u32,
}
""", """#[derive(Debug, Eq)]
pub struct MemoryEncryptionInfo {
    eax: MemoryEncryptionInfoEax,
    ebx: u32,
    ecx: u32,
    edx: u32,
}

impl PartialEq for MemoryEncryptionInfo {
    fn eq(&self, other: &Self) -> bool {
        // The capacity figures say nothing where SEV is not offered
        self.eax == other.eax
            && self.ebx == other.ebx
            && (!self.has_sev_es() || self.ecx == other.ecx && self.edx == other.edx)
    }
}
""")],
 "Two processors with SEV but not SEV-ES that differ only in the number of encrypted guests.",
 "Structures that answer max_encrypted_guests differently compare as equal.",
 """let amd = |l| (0u32, 0u32, [l, 0x68747541, 0x444d4163, 0x69746e65]);
let at = |n: u32| CpuId::with_cpuid_reader(processor(&[amd(0xd), ext(0x8000_001f), (0x8000_001f, 0, [2, 0, n, 1])]));
let (a, b) = (at(15), at(16));
assert!(a.get_memory_encryption_info() != b.get_memory_encryption_info());
assert!(a.get_memory_encryption_info() == a.get_memory_encryption_info());""")

seed("c28-list-position", "C28", [(L, """#[derive(PartialEq, Eq, Clone)]
pub struct CacheInfoIter {
    current: u32,
    eax: u32,
    ebx: u32,
    ecx: u32,
    edx: u32,
}
""", """#[derive(Eq, Clone)]
pub struct CacheInfoIter {
    current: u32,
    eax: u32,
    ebx: u32,
    ecx: u32,
    edx: u32,
}

impl PartialEq for CacheInfoIter {
    fn eq(&self, other: &Self) -> bool {
        let registers = |i: &Self| [i.eax, i.ebx, i.ecx, i.edx];
        registers(self) == registers(other)
    }
}
""")],
 "Two descriptor lists of which one has been advanced.",
 "A list with fewer items left compares as equal to the whole one.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(2), (2, 0, [0x665a5001, 0, 0, 0])]));
let (a, mut b) = (id.get_cache_info().unwrap(), id.get_cache_info().unwrap());
assert!(a == b);
b.next().unwrap();
assert!(a != b);""")

PROC_REF = """let sgx = std::rc::Rc::new(std::cell::Cell::new(%s));
let s = sgx.clone();
let id = CpuId::with_cpuid_fn(move |l: u32, sub: u32| {
    let r = match (l, sub) { (0, 0) => [0x1f, 0x756e6547, 0x6c65746e, 0x49656e69], (1, 0) => [0, 0, s.get(), 0], (0x4000_0000, 0) => [0x4000_0001, 0x4b4d564b, 0x564b4d56, 0x4d], (7, 0) => [0, s.get(), 0, 0], (0xd, 0) => [7, 0, 0, 0], (0xd, 1) => [0, 0, s.get(), 0], _ => [0; 4] };
    CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
});
"""

seed("c29-cached-sgx", "C29", [(L, """    supported_extended_leafs: u32,
}""", """    supported_extended_leafs: u32,
    /// SGX is offered (leaf 7), read once as it gates leaf 0x12.
    sgx: bool,
}"""), (L, """            supported_extended_leafs: extended_leaf.eax,
            vendor: Vendor::from_vendor_leaf(vendor_leaf),""", """            supported_extended_leafs: extended_leaf.eax,
            sgx: vendor_leaf.eax >= EAX_STRUCTURED_EXTENDED_FEATURE_INFO
                && get_bits(cpuid_fn.cpuid1(EAX_STRUCTURED_EXTENDED_FEATURE_INFO).ebx, 2, 2) == 1,
            vendor: Vendor::from_vendor_leaf(vendor_leaf),"""), (L, """        self.get_extended_feature_info().and_then(|info| {
            if self.leaf_is_supported(EAX_SGX) && info.has_sgx() {""", """        self.get_extended_feature_info().and_then(|_| {
            if self.leaf_is_supported(EAX_SGX) && self.sgx {""")],
 "A feature bit that changes after the handle was made (on a guest that moves, say).",
 "The presence of the SGX structure is that of the time the handle was made.",
 PROC_REF % "4" + """assert!(id.get_sgx_info().is_some());
sgx.set(0);
assert!(id.get_sgx_info().is_none());""")

seed("c29-first-hypervisor", "C29", [(L, """    pub fn get_hypervisor_info(&self) -> Option<HypervisorInfo<R>> {
""", """    pub fn get_hypervisor_info(&self) -> Option<HypervisorInfo<R>> {
        // A guest does not become one, so a processor without a hypervisor need not be asked again.
        use core::sync::atomic::{AtomicUsize, Ordering};
        static BARE: AtomicUsize = AtomicUsize::new(0);
        let me = self as *const Self as usize;
        if BARE.load(Ordering::Relaxed) == me {
            return None;
        }
        if !self.get_feature_info().is_some_and(|fi| fi.has_hypervisor()) {
            BARE.store(me, Ordering::Relaxed);
        }
""")],
 "The same handle asked twice for the hypervisor, the bit appearing in between.",
 "Once a handle has answered that there is no hypervisor it goes on saying so.",
 PROC_REF % "0" + """assert!(id.get_hypervisor_info().is_none());
sgx.set(1 << 31);
assert!(id.get_hypervisor_info().is_some());""")

seed("c30-brand-until-nul", "C30", [(X, """        let slice: &[u8] = unsafe {
            slice::from_raw_parts(
                self.data.as_ptr() as *const u8,
                self.data.len() * size_of::<CpuIdResult>(),
            )
        };

        // Brand terminated at nul byte or end, whichever comes first.
        let slice = slice.split(|&x| x == 0).next().unwrap();
""", """        // and the brand ends at its nul byte.
        let slice: &[u8] = unsafe {
            let start = self.data.as_ptr() as *const u8;
            let mut len = 0;
            while *start.add(len) != 0 {
                len += 1;
            }
            slice::from_raw_parts(start, len)
        };

""")],
 "A brand string whose 48 bytes hold no NUL.",
 "The text is read beyond the end of the structure.",
 """#[repr(C)]
struct Side { brand: ProcessorBrandString, after: [u8; 32] }
let row = |l| (l, 0, [u32::from_le_bytes(*b"abcd"); 4]);
let id = CpuId::with_cpuid_reader(processor(&[intel(0x20), (0x8000_0000, 0, [0x8000_0008, 0, 0, 0]), row(0x8000_0002), row(0x8000_0003), row(0x8000_0004)]));
let s = Side { brand: id.get_processor_brand_string().unwrap(), after: [*b"nobody asked for"; 2].concat().try_into().map(|mut a: [u8; 32]| { a[31] = 0; a }).unwrap() };
assert_eq!(s.after[0], b'n');
assert_eq!(s.brand.as_str(), "abcd".repeat(12));""")

seed("c30-soc-cut-text", "C30", [(L, """        str::from_utf8(slice).unwrap_or("InvalidSoCVendorString")
    }
""", """        match str::from_utf8(slice) {
            Ok(s) => s,
            // A text that is merely cut off at the end is still worth showing.
            Err(e) if e.error_len().is_none() => unsafe { str::from_utf8_unchecked(slice) },
            Err(_) => "InvalidSoCVendorString",
        }
    }
""")],
 "A SoC vendor brand whose last character is cut off by the end of the registers.",
 "The text handed out is not UTF-8, and decoding its last character is undefined behaviour.",
 """let row = |s, last: [u8; 4]| (0x17, s, [0x61616161, 0x61616161, 0x61616161, u32::from_le_bytes(last)]);
let id = CpuId::with_cpuid_reader(processor(&[intel(0x20), (0x17, 0, [3, 0, 0, 0]), row(1, *b"aaaa"), row(2, *b"aaaa"), row(3, *b"aa\\xe2\\x82")]));
let soc = id.get_soc_vendor_info().unwrap();
let brand = soc.get_vendor_brand().unwrap();
assert!(std::str::from_utf8(brand.as_str().as_bytes()).is_ok());
assert!(brand.as_str().is_ascii());""")

seed("c01-brand-cut", "C01", [(X, """            .unwrap_or("Invalid Processor Brand String")
            .trim()
""", """            .unwrap_or("Invalid Processor Brand String")
            .trim()
            .split_at_checked(47)
            .map_or_else(|| self.whole(slice), |(s, _)| s)
"""), (X, """    /// Return the processor brand string as a rust string.
""", """    /// A string of fewer characters than the 47 of the longest one.
    fn whole<'a>(&self, slice: &'a [u8]) -> &'a str {
        let s = str::from_utf8(slice).unwrap_or("Invalid Processor Brand String");
        s[..s.len().min(47)].trim()
    }

    /// Return the processor brand string as a rust string.
""")],
 "A brand string of 48 bytes whose last character is of more than one byte.",
 "Asking for the brand string panics, as its end is not on a character.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, [0x41414141; 4]), (0x8000_0003, 0, [0x41414141; 4]), (0x8000_0004, 0, [0x41414141, 0x41414141, 0x41414141, 0xa9c34141])]));
let n = id.get_processor_brand_string().unwrap().as_str().len();
assert!(n == 48 || n == 46);""")

seed("c09-signature-only", "C09", [(L, "                if res.eax > 0 {", "                if res.eax > EAX_HYPERVISOR_INFO {")],
 "A hypervisor that offers its signature leaf and no other.",
 "A hypervisor that reports 0x40000000 as its highest leaf is not reported.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(1), (1, 0, [0, 0, 1 << 31, 0]), (0x4000_0000, 0, [0x4000_0000, 0x4b4d564b, 0x564b4d56, 0x4d])]));
assert!(matches!(id.get_hypervisor_info().map(|h| h.identify()), Some(Hypervisor::KVM)));""")

seed("c10-repeated", "C10", [(L, """        for cache_info in CACHE_INFO_TABLE.iter() {
            if cache_info.num == byte {
""", """        for cache_info in CACHE_INFO_TABLE.iter() {
            // Some processors fill the rest of a register with its lowest descriptor.
            if cache_info.num == byte && (byte_index == 0 || byte != reg as u8) {
""")],
 "A register that holds the same descriptor twice.",
 "The second of two equal descriptors of a register is left out.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(2), (2, 0, [1, 0x2c_00_2c, 0, 0])]));
assert_eq!(id.get_cache_info().unwrap().count(), 2);""")

seed("c12-v2-falls-back", "C12", [(L, """        if self.leaf_is_supported(EAX_EXTENDED_TOPOLOGY_INFO_V2) {
            Some(ExtendedTopologyIter {
                read: self.read.clone(),
                level: 0,
                is_v2: true,
""", """        if self.leaf_is_supported(EAX_EXTENDED_TOPOLOGY_INFO_V2) {
            Some(ExtendedTopologyIter {
                read: self.read.clone(),
                level: 0,
                // Leaf 0x1F is empty where 0xB says everything.
                is_v2: self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, 0).ebx != 0,
""")],
 "Leaf 0x1F present, its first level without logical processors.",
 "The second version of the topology shows the levels of the first.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x1f), (0xb, 0, [1, 2, 0x100, 7]), (0x1f, 0, [4, 0, 0x200, 7])]));
assert_eq!(id.get_extended_topology_info_v2().unwrap().next().unwrap().shift_right_for_next_apic_id(), 4);""")

seed("c20-size-hint", "C20", [(L, """            return Some(ExtendedState {
                subleaf: self.level,
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
            });
        }

        self.next()
    }
""", """            return Some(ExtendedState {
                subleaf: self.level,
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
            });
        }

        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = (self.supported_xcr0 | self.supported_xss) >> self.level;
        (left.count_ones() as usize, Some(left.count_ones() as usize))
    }
""")],
 "The list of state components asked how many items are left after it has been walked to its end, or partly.",
 "The list says that the item it has just handed out is still to come.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0xd), (0xd, 0, [0x207, 0, 0, 0]), (0xd, 2, [256, 576, 0, 0]), (0xd, 9, [8, 2688, 0, 0])]));
let info = id.get_extended_state_info().unwrap();
let mut it = info.iter();
while let Some(_) = it.next() {
    let (low, high) = it.size_hint();
    let left = it.clone().count();
    assert!(low <= left && high.map_or(true, |h| left <= h));
}""")

seed("c17-no-type", "C17", [(L, "            if get_bits(res.edx, 0, 4) == 0 {", "            if get_bits(res.edx, 0, 7) == 0 {")],
 "An address-translation sub-leaf without a type, its level not zero.",
 "A sub-leaf that is not valid is listed.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x18), (0x18, 0, [1, 1, 0, 0x20]), (0x18, 1, [0, 1, 4, 0x21])]));
assert_eq!(id.get_deterministic_address_translation_info().unwrap().count(), 1);""")

seed("c18-divide-first", "C18", [(L, "        Some(self.nominal_frequency() as u64 * self.numerator() as u64 / self.denominator() as u64)", """        let (n, d) = (self.numerator() as u64, self.denominator() as u64);
        let f = self.nominal_frequency() as u64;
        // Whole multiples, then what is left over.
        Some(f * (n / d) + (f / d) * (n % d))""")],
 "A ratio that is not a whole number, and a clock that is not a multiple of its denominator.",
 "The TSC frequency is too low by the rounding of the clock's fraction.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x15), (0x15, 0, [7, 10, 24_000_001, 0])]));
assert_eq!(id.get_tsc_info().unwrap().tsc_frequency(), Some(24_000_001 * 10 / 7));""")

seed("c21-empty-register", "C21", [(L, """    /// Return value EDX register
""", """    /// Return value EDX register
    #[cfg_attr(feature = "serialize", serde(default))]
""")],
 "A record that lacks its last register.",
 "An incomplete record is read as one whose EDX is zero.",
 """assert!(serde_json::from_str::<CpuIdResult>(r#"{"eax":1,"ebx":2,"ecx":3}"#).is_err());
assert!(serde_json::from_str::<CpuIdResult>(r#"{"eax":1,"ebx":2,"ecx":3,"edx":4}"#).is_ok());""", features=["serialize"], deps='serde_json = "1"')

seed("c22-report-level", "C22", [(D, 'RowGen::tuple("bit width of level", level.shift_right_for_next_apic_id())', 'RowGen::tuple("bit width of level", level.shift_right_for_next_apic_id() & 0xf)')],
 "A topology level whose APIC id shift is 16 or more.",
 "The report shows the shift without its highest bit.",
 """let args: Vec<String> = std::env::args().collect();
if args.len() > 1 {
    display::markdown(CpuId::with_cpuid_reader(processor(&[intel(0xb), (0xb, 0, [17, 2, 0x100, 7])])));
    return;
}
let out = std::process::Command::new(&args[0]).arg("x").output().unwrap();
let text = String::from_utf8(out.stdout).unwrap();
let line = text.lines().find(|l| l.contains("bit width of level")).unwrap();
assert!(line.contains("17"), "{}", line);""", features=["display"])

seed("c23-raw-repeated", "C23", [(D, """        let res = cpuid.cpuid1(idx);
        println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);""", """        let res = cpuid.cpuid1(idx);
        // Leaves that are not implemented repeat the one before.
        if idx > 1 && res == cpuid.cpuid1(idx - 1) && !res.all_zero() {
            continue;
        }
        println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);""")],
 "Two neighbouring leaves that hold the same.",
 "The second of two equal leaves is missing from the dump.",
 """let args: Vec<String> = std::env::args().collect();
if args.len() > 1 {
    display::raw(processor(&[intel(0x7), (6, 0, [1, 2, 3, 4]), (7, 0, [1, 2, 3, 4])]));
    return;
}
let out = std::process::Command::new(&args[0]).arg("x").output().unwrap();
assert!(String::from_utf8(out.stdout).unwrap().contains("(0x7, 0x0)"));""", features=["display"])

seed("c24-debug-vendor", "C24", [(X, """        if self.vendor == Vendor::Amd {
            ds.field("pkg_type", &self.pkg_type());""", """        if self.vendor != Vendor::Intel {
            ds.field("pkg_type", &self.pkg_type());""")],
 "A processor that is neither Intel's nor AMD's.",
 "The text shows what only AMD defines on processors of other vendors.",
 """let id = CpuId::with_cpuid_reader(processor(&[(0, 0, [1, 0x746e6543, 0x736c7561, 0x48727561]), ext(0x8000_0001), (0x8000_0001, 0, [0, 0x10000005, 0, 0])]));
let x = id.get_extended_processor_and_feature_identifiers().unwrap();
assert!(!format!("{:?}", x).contains("pkg_type"));""")

seed("c28-same-cache", "C28", [(L, """#[derive(Copy, Clone, Eq, PartialEq)]
pub struct CacheParameter {""", """#[derive(Copy, Clone)]
pub struct CacheParameter {"""), (L, """impl CacheParameter {
""", """impl Eq for CacheParameter {}

/// Two descriptions of a cache are of the same one if its kind and shape are.
impl PartialEq for CacheParameter {
    fn eq(&self, other: &Self) -> bool {
        (self.eax ^ other.eax) & 0x3ff == 0 && self.ebx == other.ebx && self.ecx == other.ecx
    }
}

impl CacheParameter {
""")],
 "Two caches that differ only in the processors that share them, or in the flags of EDX.",
 "They are equal, though they answer differently.",
 """let see = |edx| CpuId::with_cpuid_reader(processor(&[intel(4), (4, 0, [0x121, 0x3f, 63, edx])])).get_cache_parameters().unwrap().next().unwrap();
assert!(see(0) == see(0));
assert!(see(0) != see(1));""")

seed("c31-core-number", "C31", [(X, """            HierarchyLevelType::Socket => write!(f, "Socket (4)"),
            HierarchyLevelType::Unknown(x) => write!(f, "Unknown ({x})"),""", """            HierarchyLevelType::Socket => write!(f, "Socket (4)"),
            HierarchyLevelType::Unknown(x) => write!(f, "Unknown ({})", x & 0x7f),""")],
 "A level of leaf 0x80000026 of an undefined type of 128 or more.",
 "Its text says another type.",
 """let x = HierarchyLevelType::from(0x85);
assert_eq!(format!("{}", HierarchyLevelType::from(5)), "Unknown (5)");
assert!(format!("{}", x).contains("133"));""")

seed("c31-descriptor-number", "C31", [(L, """write!(f, "{:x}:\\t {}: {}", self.num, typ, self.desc())""", """match self.num {
            0x10..=0x99 => write!(f, "{:x}:\\t {}: {}", self.num, typ, self.desc()),
            _ => write!(f, "{}:\\t {}: {}", self.num, typ, self.desc()),
        }""")],
 "A leaf 2 descriptor from 0xA0 on (or 0x0A to 0x0F), printed for people.",
 "The text shows another descriptor's number.",
 """let show = |b: u32| format!("{}", CpuId::with_cpuid_reader(processor(&[intel(2), (2, 0, [1, b, 0, 0])])).get_cache_info().unwrap().next().unwrap());
assert!(show(0x41).starts_with("41:"));
assert!(show(0xd7).starts_with("d7:"));""")

seed("c31-ways", "C31", [(X, """                return write!(f, "NWay({})", n);""", """                return write!(f, "NWay({})", *n as i8);""")],
 "An L1 cache or TLB, or an L2 cache, of 128 ways or more.",
 "Its text shows a negative number of ways.",
 """let id = CpuId::with_cpuid_reader(processor(&[amd(1), ext(0x8000_0005), (0x8000_0005, 0, [0, 0, 0x00c00000, 0])]));
let x = id.get_l1_cache_and_tlb_info().unwrap();
assert!(x.dcache_associativity() == Associativity::NWay(192));
assert!(format!("{}", x.dcache_associativity()).contains("(192)"));""")

NARROW = dict(cargo="+nightly miri run --target i686-unknown-linux-gnu")
seed("c32-tsc-usize", "C32", [(L, """        Some(self.nominal_frequency() as u64 * self.numerator() as u64 / self.denominator() as u64)
""", """        let ticks = self.nominal_frequency() as usize * self.numerator() as usize;
        Some(ticks as u64 / self.denominator() as u64)
""")],
 "A 32-bit build; a crystal clock times numerator of 2^32 or more, which every processor with leaf 0x15 has.",
 "The frequency of the time stamp counter panics, or is wrong, on 32-bit processors.",
 """// an i7-6700: 24 MHz * 284 / 2
let id = CpuId::with_cpuid_reader(processor(&[intel(0x15), (0x15, 0, [2, 284, 24_000_000, 0])]));
assert_eq!(id.get_tsc_info().unwrap().tsc_frequency(), Some(3_408_000_000));""", **NARROW)

seed("c32-brand-words", "C32", [(X, """                self.data.len() * size_of::<CpuIdResult>(),
""", """                self.data.len() * 2 * size_of::<usize>(),
""")],
 "A 32-bit build, and a brand string of more than 24 letters.",
 "The brand string is cut off on 32-bit processors.",
 """let word = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
let text = *b"11th Gen Intel(R) Core(TM) i7-1165G7 @ 2.80GHz\\0\\0";
let row = |k: usize| [word(&text[k * 16..]), word(&text[k * 16 + 4..]), word(&text[k * 16 + 8..]), word(&text[k * 16 + 12..])];
let id = CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, row(0)), (0x8000_0003, 0, row(1)), (0x8000_0004, 0, row(2))]));
assert_eq!(id.get_processor_brand_string().unwrap().as_str(), "11th Gen Intel(R) Core(TM) i7-1165G7 @ 2.80GHz");""", **NARROW)

seed("c12-reserved-as-die", "C12", [(L, """            5 => TopologyType::Die,
            // Reserved
            _ => TopologyType::Invalid,""", """            5 => TopologyType::Die,
            // No larger domain is in use yet
            6..=15 => TopologyType::Die,
            _ => TopologyType::Invalid,""")],
 "A processor with a level of a type that came after this manual (6 and on).",
 "The level is taken for a die.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x1f), (0x1f, 0, [1, 2, 0x100, 7]), (0x1f, 1, [4, 16, 0x201, 7]), (0x1f, 2, [6, 64, 0x602, 7])]));
let kinds: Vec<_> = id.get_extended_topology_info_v2().unwrap().map(|l| l.level_type()).collect();
assert!(!kinds.contains(&raw_cpuid::TopologyType::Die));""")

seed("c24-long-list", "C24", [(L, """impl<R: CpuIdReader> Debug for DatIter<R> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut debug = f.debug_list();
        self.clone().for_each(""", """impl<R: CpuIdReader> Debug for DatIter<R> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut debug = f.debug_list();
        self.clone().take(16).for_each(""")],
 "A processor with more than sixteen address translation structures.",
 "The text of the list leaves out those past the sixteenth.",
 """let rows: Vec<_> = (0..20u32).map(|k| (0x18, k, [19, 0x0004_0001, k + 1, 0x0000_0021])).collect();
let mut all = vec![intel(0x18)];
all.extend(rows);
let id = CpuId::with_cpuid_reader(processor(&all));
let list = id.get_deterministic_address_translation_info().unwrap();
let text = format!("{:?}", list);
assert_eq!(text.matches("DatInfo").count(), list.count());""")

seed("c20-starts-over", "C20", [(L, """        match et.level_type() {
            TopologyType::Invalid => None,
            _ => Some(et),
        }""", """        match et.level_type() {
            TopologyType::Invalid => {
                self.level = 0;
                None
            }
            _ => Some(et),
        }""")],
 "A list of levels asked again after it has ended.",
 "It starts over instead of staying at its end.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0xb), (0xb, 0, [1, 2, 0x100, 7]), (0xb, 1, [4, 16, 0x201, 7])]));
let mut list = id.get_extended_topology_info().unwrap();
assert_eq!(list.by_ref().count(), 2);
assert!(list.next().is_none());
assert!(list.next().is_none());""")

seed("c33-brand-scratch", "C33", [(L, """            Some(ProcessorBrandString::new([
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING),
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + 1),
                self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + 2),
            ]))""", """            use core::sync::atomic::{AtomicU32, Ordering::SeqCst};
            const ZERO: AtomicU32 = AtomicU32::new(0);
            static SCRATCH: [AtomicU32; 12] = [ZERO; 12];
            for (k, word) in SCRATCH.chunks(4).enumerate() {
                let res = self.read.cpuid1(EAX_EXTENDED_BRAND_STRING + k as u32);
                word[0].store(res.eax, SeqCst);
                word[1].store(res.ebx, SeqCst);
                word[2].store(res.ecx, SeqCst);
                word[3].store(res.edx, SeqCst);
            }
            let part = |k: usize| CpuIdResult {
                eax: SCRATCH[k].load(SeqCst),
                ebx: SCRATCH[k + 1].load(SeqCst),
                ecx: SCRATCH[k + 2].load(SeqCst),
                edx: SCRATCH[k + 3].load(SeqCst),
            };
            Some(ProcessorBrandString::new([part(0), part(4), part(8)]))""")],
 "Another thread asking for the brand string of another processor in between the three reads.",
 "The brand string is put together from both processors'.",
 """// the second processor is asked at the moment the first is read for the third time
let text = |c: u32, inner: bool| {
    let rows = [intel(1), ext(0x8000_0004), (0x8000_0002, 0, [c; 4]), (0x8000_0003, 0, [c; 4]), (0x8000_0004, 0, [c & 0xff, 0, 0, 0])];
    let p = processor(&rows);
    let other = processor(&[intel(1), ext(0x8000_0004), (0x8000_0002, 0, [0x62626262; 4]), (0x8000_0003, 0, [0x62626262; 4]), (0x8000_0004, 0, [0x62, 0, 0, 0])]);
    let id = CpuId::with_cpuid_reader(move |l: u32, s: u32| {
        if inner && l == 0x8000_0004 {
            let other = other.clone();
            std::thread::scope(|t| { t.spawn(|| CpuId::with_cpuid_reader(other).get_processor_brand_string().unwrap().as_str().len()); });
        }
        use raw_cpuid::CpuIdReader;
        p.cpuid2(l, s)
    });
    id.get_processor_brand_string().unwrap().as_str().to_string()
};
assert_eq!(text(0x61616161, false), "a".repeat(33));
assert_eq!(text(0x61616161, true), "a".repeat(33));""")

seed("c33-not-shared", "C33", [(L, """    supported_extended_leafs: u32,
}
""", """    supported_extended_leafs: u32,
    /// Answers are of the core this was made on.
    _local: core::marker::PhantomData<*const ()>,
}
"""), (L, "            vendor: Vendor::from_vendor_leaf(vendor_leaf),", "            _local: core::marker::PhantomData,\n            vendor: Vendor::from_vendor_leaf(vendor_leaf),")],
 "A program that uses one handle in several threads.",
 "It does not compile any more.",
 """let id = CpuId::new();
std::thread::scope(|s| { s.spawn(|| { let _ = id.get_vendor_info(); }); });""")

seed("c25-core-memory", "C25", [(L, """        let result = unsafe { self::arch::__cpuid_count(a, c) };
""", """        let mut result = unsafe { self::arch::__cpuid_count(a, c) };
        if a == 1 {
            // The signature never changes: no need for it to be read twice.
            use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
            static EBX: AtomicU32 = AtomicU32::new(0);
            let first = EBX.load(Relaxed);
            if first == 0 {
                EBX.store(result.ebx, Relaxed);
            } else {
                result.ebx = first;
            }
        }
""")],
 "Leaf 1 asked on one core, and again after the thread has moved to another.",
 "The APIC id is that of the first core.",
 """extern "C" { fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32; }
let mut seen = 0;
for core in 0..64 {
    let mask = [1u64 << core; 1];
    if unsafe { sched_setaffinity(0, 8, mask.as_ptr()) } != 0 { continue; }
    let real = std::arch::x86_64::__cpuid_count(1, 0).ebx >> 24;
    let id = CpuId::new().get_feature_info().unwrap().initial_local_apic_id() as u32;
    assert_eq!(id, real);
    seen += 1;
}
assert!(seen > 0);""")

FAR = dict(cargo="+nightly miri run --target s390x-unknown-linux-gnu")
seed("c34-epc-words", "C34", [(L, """        let lower = (get_bits(self.eax, 12, 31) << 12) as u64;
        let upper = (get_bits(self.ebx, 0, 19) as u64) << 32;
        lower | upper
""", """        let words = [get_bits(self.eax, 12, 31) << 12, get_bits(self.ebx, 0, 19)];
        // Safety: eight bytes either way.
        unsafe { core::mem::transmute::<[u32; 2], u64>(words) }
""")],
 "A build for a big-endian processor; an enclave section (whose base is always above zero).",
 "The halves of the base are exchanged on big-endian processors.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x12), (7, 0, [0, 4, 0, 0]), (0x12, 0, [1, 0, 0, 0]), (0x12, 2, [0x7020_0001, 0x1, 0x05d8_0001, 0])]));
let section = id.get_sgx_info().unwrap().iter().next().unwrap();
let raw_cpuid::SgxSectionInfo::Epc(e) = section;
assert_eq!(e.physical_base(), 0x1_7020_0000);""", **FAR)

seed("c34-descriptor-bytes", "C34", [(L, """        let byte = match byte_index {
            0 => reg,
            1 => reg >> 8,
            2 => reg >> 16,
            3 => reg >> 24,
            _ => unreachable!(),
        } as u8;
""", """        let byte = reg.to_ne_bytes()[byte_index as usize];
""")],
 "A build for a big-endian processor; a descriptor in the highest byte of EAX, or an iteration count that is one.",
 "The descriptor bytes are taken in the wrong order, so the count passes for a descriptor and one is lost.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(2), (2, 0, [0x2c00_0001, 0, 0, 0])]));
assert_eq!(id.get_cache_info().unwrap().map(|c| c.num).collect::<Vec<_>>(), [0x2c]);""", **FAR)

seed("c18-signature-quirk", "C18", [(L, """            let res = self.read.cpuid1(EAX_FREQUENCY_INFO);
            Some(ProcessorFrequencyInfo {
                eax: res.eax,
                ebx: res.ebx,
                ecx: res.ecx,
            })""", """            let res = self.read.cpuid1(EAX_FREQUENCY_INFO);
            // These report no reference frequency, it is 100 MHz.
            let bus = match (self.read.cpuid1(EAX_FEATURE_INFO).eax, res.ecx) {
                (0x0005_06e3, 0) => 100,
                (_, mhz) => mhz,
            };
            Some(ProcessorFrequencyInfo {
                eax: res.eax,
                ebx: res.ebx,
                ecx: bus,
            })""")],
 "A processor with one signature in leaf 1 and a bus frequency of zero.",
 "The bus frequency is made up where the processor reports zero.",
 """let id = CpuId::with_cpuid_reader(processor(&[intel(0x16), (1, 0, [0x0005_06e3, 0, 0, 0]), (0x16, 0, [3000, 3500, 0, 0])]));
assert_eq!(id.get_processor_frequency_info().unwrap().bus_frequency(), 0);""")

seed("c19-brand-quirk", "C19", [(L, """            let res = self.read.cpuid1(EAX_THERMAL_POWER_INFO);
            Some(ThermalPowerInfo {""", """            let mut res = self.read.cpuid1(EAX_THERMAL_POWER_INFO);
            // The emulator passes the counters through without saying so.
            if self.get_processor_brand_string().map_or(false, |b| b.as_str().starts_with("QEMU")) {
                res.ecx |= 1;
            }
            Some(ThermalPowerInfo {""")],
 "A processor with a brand string of a certain beginning that has no coordination feedback.",
 "A thermal flag depends on the brand string.",
 """let id = CpuId::with_cpuid_reader(processor(&[amd(0x10), (6, 0, [0, 0, 0, 0]), ext(0x8000_0004), (0x8000_0002, 0, [0x554d4551, 0, 0, 0])]));
assert!(!id.get_thermal_power_info().unwrap().has_hw_coord_feedback());""")

seed("c24-features-left-out", "C24", [(X, """        ds.field("ecx_features", &self.ecx);
        ds.field("edx_features", &self.edx);
        ds.finish()""", """        ds.field("ecx_features", &self.ecx);
        if self.vendor == Vendor::Amd || self.edx.contains(ExtendedFunctionInfoEdx::I64BIT_MODE) {
            ds.field("edx_features", &self.edx);
        } else {
            ds.field("edx_features", &"none in 32-bit processors");
        }
        ds.finish()""")],
 "An Intel processor without the 64-bit flag that has another flag of EDX.",
 "The text leaves out flags that the processor has and names on any other.",
 """let show = |edx: u32| format!("{:?}", CpuId::with_cpuid_reader(processor(&[intel(1), ext(0x8000_0001), (0x8000_0001, 0, [0, 0, 0, edx])])).get_extended_processor_and_feature_identifiers().unwrap());
assert_ne!(show(0), show(1 << 20));""")
