#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, E, D, B = "src/lib.rs", "src/extended.rs", "src/display.rs", "src/bin/cpuid.rs"
SUITE = "The existing tests compare answers for four recorded processors (i5-3337U, i7-12700K, Xeon Gold 6252, Ryzen Matisse) and a few hand-written rows; "

P = []
def p(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))

ANS = "generated processors (systematic bit and field sweeps, then edge-biased random and mutated dumps of real machines) answered through a stand-in reader; every answer compared with an independent reference model transcribed from the vendor manuals; failing processors shrunk to a minimal register table"
BND = "Exploration. Every bit of every register read by these structures is flipped on four vendors and four backgrounds, every value of each field up to 12 bits is tried, wider fields at their edges; combinations of several registers are sampled."

p("C01", "Totality: no query panics, overflows, loops for ever or breaks down",
  "Whatever the CPUID instruction returns (any processor, hypervisor or garbage), every public query, list walk, Debug text and Display text of the library completes without panicking, without arithmetic overflow (also where overflow checks are on) and without exhausting the stack. Every list it hands out ends after a number of items that the CPUID data itself bounds.",
  ["inputs", "histories"], "All contents of all CPUID leaves and sub-leaves, including contradictory and unassigned values; all public queries.",
  SUITE + "none feeds reserved encodings, saturated fields or lists that never meet their end marker.",
  [L, E], [("leaf gating and construction", "CpuId::get_*"), ("list walks", "CacheInfoIter, CacheParametersIter, ExtendedTopologyIter, ExtendedStateIter, SgxSectionIter, DatIter, SoCVendorAttributesIter, ExtendedCpuTopologyIter"), ("derived numbers", "FeatureInfo::family_id/model_id, CacheParameter::sets, ProcessorTopologyInfo::threads_per_core, L1/L2 cache fields, TscInfo")],
  "generated processors (bit and field sweeps, then random, saturated and garbage ones) on which every public question, list and text is asked for in a build with overflow checks; panics are caught, endless walks cut off by reader fuel, process death supervised; failures shrunk",
  "Exploration. All single bits and field values on eight vendor/background combinations plus random whole processors; lists are bounded by 70 000 sub-leaves in generation.")
p("C02", "A structure is handed out exactly when the processor reports it",
  "Each structure is available if and only if the processor reports it: its leaf number is within the highest leaf of its range (standard, hypervisor, extended), the vendor is one that defines it, any gating feature bit is set, and, where the leaf itself says so, it is not empty; otherwise nothing is handed out. No question of presence depends on anything else.",
  ["inputs", "configurations"], "All highest leaf numbers, vendors and gating feature bits, in all combinations, with any contents of the leaves.",
  SUITE + "each of which has one vendor and one set of highest leaves, so most boundaries (leaf n present, n-1 the maximum) and vendor gates are never crossed.",
  [L, E], [("leaf support", "CpuId::leaf_is_supported, with_cpuid_reader"), ("vendor gates", "CpuId::get_cache_parameters, get_svm_info and the other get_*"), ("feature gates", "get_sgx_info, get_svm_info, get_hypervisor_info, get_processor_serial")],
  "enumeration of each highest leaf number around every boundary x eight vendors x gating bits, vendor strings one bit off, then random processors; presence compared with a reference predicate",
  "Exploration. The boundary values of the highest leaf are enumerated; leaf contents are sampled.")
p("C03", "Standard-leaf feature flags report exactly their documented CPUID bit",
  "For every processor, each yes/no feature question about the standard leaves (feature information, extended features, monitor/mwait, thermal and power, performance monitoring, extended state, resource director technology, SGX, processor trace) is answered yes if and only if the bit that the vendor's manual assigns to it is set. No other bit changes the answer.",
  ["inputs"], "All register contents of leaves 1, 5, 6, 7 (0-2), 0xA, 0xD, 0xF, 0x10, 0x12, 0x14, all vendors.",
  SUITE + "a flag tied to the wrong bit passes wherever the two bits agree on those machines, and many flags are false on all of them.",
  [L], [("flag tables", "FeatureInfo, ExtendedFeatures, ThermalPowerInfo, MonitorMwaitInfo, PerformanceMonitoringInfo, ExtendedStateInfo, RdtMonitoringInfo, RdtAllocationInfo, SgxInfo, ProcessorTraceInfo"), ("bit tests", "check_flag!/check_bit_fn! macros")], ANS, BND)
p("C04", "Extended-leaf feature flags report exactly their documented CPUID bit",
  "For every processor, each yes/no feature question about the extended leaves (processor identifiers, power management, capacity, SVM, performance optimisation, instruction-based sampling, memory encryption, PQoS, the extended feature, performance-monitoring and memory-key leaves) is answered yes if and only if the documented bit is set. Bits that only AMD defines read as no on other vendors; no other bit changes the answer.",
  ["inputs"], "All register contents of leaves 0x8000_0001 to 0x8000_0023, all vendors.",
  SUITE + "only one of them is an AMD processor, so a flag tied to the wrong bit or to the wrong vendor passes wherever they agree there.",
  [E], [("flag tables", "ExtendedProcessorFeatureIdentifiers, ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, PerformanceOptimizationInfo, InstructionBasedSamplingCapabilities, MemoryEncryptionInfo, PqosExtendedFeatureInfo, ExtendedFeatureIdentification2, ExtendedPerformanceMonitoringDebug"), ("AMD-only flags", "check_bit_fn in ExtendedProcessorFeatureIdentifiers")], ANS, BND)
p("C05", "Standard-leaf numeric fields are decoded exactly",
  "For every processor, each number reported from the standard leaves (brand index, cache-line flush size, APIC id, logical processor count, serial number, monitor line sizes and C-state counts, thermal threshold, MAWAU, DCA value, performance-counter counts and widths, processor-trace figures) equals the documented field of the documented register, with the documented bias or scaling. Neighbouring bits never leak into it and no bit of the field is lost.",
  ["inputs"], "All register contents of leaves 1, 3, 5, 6, 7, 9, 0xA, 0x14.",
  SUITE + "where most fields are small, so a field cut one bit short, shifted or read from the wrong register can still agree.",
  [L], [("field extraction", "get_bits and the numeric methods of FeatureInfo, ProcessorSerial, MonitorMwaitInfo, ThermalPowerInfo, ExtendedFeatures, DirectCacheAccessInfo, PerformanceMonitoringInfo, ProcessorTraceInfo")], ANS, BND)
p("C06", "Extended-leaf numeric fields are decoded exactly",
  "For every processor, each number reported from the extended leaves (package type, brand id, power-management figures, address widths, core and thread counts, SVM revision and ASIDs, APIC, core, node ids, memory encryption parameters, identification, performance-monitoring and memory-key figures) equals the documented field of the documented register, with the documented bias or scaling. Neighbouring bits never leak into it and no bit of the field is lost.",
  ["inputs"], "All register contents of leaves 0x8000_0001, 7, 8, 0xA, 0x1E, 0x1F, 0x21, 0x22, 0x23.",
  SUITE + "where most fields are small, so a field cut one bit short, shifted or read from the wrong register can still agree.",
  [E], [("field extraction", "numeric methods of the structures in extended.rs")], ANS, BND)
p("C07", "Family and model follow the vendor combination rule",
  "For every signature in leaf 1, the base and extended family, model and stepping are the documented bit fields; the display family is base plus extended family exactly when the base family is 0xF, and the display model takes the extended model as its high digit exactly where the vendor's manual says so (base family 6 or 0xF on Intel, 0xF on AMD).",
  ["inputs"], "All 2^32 values of leaf 1 EAX and all vendors.",
  SUITE + "all of families 6 and 0x17, so combinations for other families, and extended parts outside 0xF, are never seen.",
  [L], [("combination rule", "FeatureInfo::family_id, FeatureInfo::model_id"), ("vendor", "Vendor::from_vendor_leaf")], ANS, BND)
p("C08", "Vendor and brand strings render the register bytes in order",
  "For every processor, the vendor string is the twelve bytes of EBX, EDX, ECX of leaf 0 and the brand string the 48 bytes of leaves 0x8000_0002 to 0x8000_0004 in register order, cut at the first NUL and trimmed of surrounding blanks. Bytes that are no valid text never panic and never yield text the processor did not report.",
  ["inputs"], "All contents of leaf 0 EBX/ECX/EDX and of the twelve brand registers, including bytes above 0x7f and strings with no NUL.",
  SUITE + "all with plain, padded text.",
  [L, E], [("vendor text", "VendorInfo::as_str"), ("brand text", "ProcessorBrandString::as_str")], ANS, BND)
p("C09", "The hypervisor is identified from its signature, and from nothing else",
  "When the hypervisor bit is set, the hypervisor is named as VMware, Xen, Hyper-V, KVM, QEMU, bhyve, QNX or ACRN exactly when the twelve signature bytes are the documented signature of that hypervisor, and as unknown with the very signature registers otherwise. TSC and bus frequency are the documented registers of leaf 0x4000_0010 where that leaf is within the hypervisor's highest leaf, and absent otherwise.",
  ["inputs"], "All contents of leaves 0x4000_0000 and 0x4000_0010.",
  SUITE + "and at most one hypervisor signature.",
  [L], [("signature table", "HypervisorInfo::identify"), ("leaf bound", "HypervisorInfo::tsc_frequency, apic_frequency")], ANS, BND)
p("C10", "Leaf 2 descriptors decode to the documented caches and TLBs, none lost",
  "For every leaf 2, the list has one entry for each documented non-null descriptor byte in the valid registers (their order carries no meaning), and none for the iteration count byte, for null or undocumented bytes or for registers marked invalid. Each entry carries the documented type and describes the documented cache or TLB.",
  ["inputs"], "All 2^128 contents of leaf 2.",
  SUITE + "with about two dozen of the 256 descriptors between them, each in one position.",
  [L], [("walk", "CacheInfoIter::next"), ("descriptor table", "CACHE_INFO_TABLE, CacheInfo::desc")], ANS, BND + " Each of the 256 descriptors is tried in each position.")
p("C11", "Deterministic cache parameters list every cache, correctly decoded",
  "For every processor, the cache list is read from leaf 4 (leaf 0x8000_001D on AMD), holds exactly the sub-leaves before the first one of null type, in order, and each entry's type, level, sharing counts, line size, partitions, ways, sets and behaviour flags equal the documented fields with their +1 biases.",
  ["inputs", "histories"], "All contents and counts of sub-leaves, all vendors.",
  SUITE + "with four caches of usual sizes each; on vendors, saturated fields and lists of other lengths nothing is checked.",
  [L], [("walk", "CacheParametersIter::next"), ("fields", "CacheParameter")], ANS, BND)
p("C12", "Topology levels are enumerated completely and decoded exactly",
  "For every processor, the topology lists (leaves 0xB, 0x1F and 0x8000_0026) hold exactly the levels the processor enumerates, in order, up to the terminating sub-leaf, and each level's processor counts, shift, number, type and x2APIC id (and on 0x8000_0026 its attributes) equal the documented fields. Reserved level types never panic and never pass for a defined one.",
  ["inputs", "histories"], "All contents and counts of sub-leaves, reserved level types included.",
  SUITE + "with two levels (three at most).",
  [L, E], [("walk", "ExtendedTopologyIter::next, ExtendedCpuTopologyIter::next"), ("fields", "ExtendedTopologyLevel, ExtendedCpuTopologyLevel")], ANS, BND)
p("C13", "The extended-state description matches leaf 0xD",
  "For every processor, the XSAVE area sizes are the documented registers, and the list of state components holds exactly the documented components from 2 upwards that the processor marks as supported in XCR0 or IA32_XSS, in order, each with its sub-leaf number, size, offset, location and alignment as documented.",
  ["inputs", "histories"], "All contents of leaf 0xD, all component masks.",
  SUITE + "with a handful of component masks.",
  [L], [("walk", "ExtendedStateIter::next"), ("fields", "ExtendedStateInfo, ExtendedState")], ANS, BND)
p("C14", "Resource-control capabilities (RDT, PQoS) are gated and decoded exactly",
  "For every processor, each monitoring or allocation capability (L3 monitoring, L3/L2 cache allocation, memory bandwidth allocation, and AMD's bandwidth enforcement and monitoring counters) is available exactly when its resource bit is set, and its RMID ranges, conversion factors, mask lengths, sharing bitmaps, throttling limits and class-of-service counts are the documented fields with their biases.",
  ["inputs"], "All contents of leaves 0xF, 0x10 and 0x8000_0020.",
  SUITE + "one of which supports RDT.",
  [L, E], [("gates and fields", "RdtMonitoringInfo, L3MonitoringInfo, RdtAllocationInfo, L2CatInfo, L3CatInfo, MemBwAllocationInfo, PqosExtendedFeatureInfo")], ANS, BND)
p("C15", "SGX enclave sections and limits are decoded exactly",
  "For every processor with SGX, the enclave size limits, attributes, misc-select and the list of enclave page cache sections (in order, each physical base and size assembled from both registers, ended by the first invalid section) equal the documented fields of leaf 0x12.",
  ["inputs", "histories"], "All contents and counts of sub-leaves of leaf 0x12.",
  SUITE + "with no or one EPC section.",
  [L], [("walk", "SgxSectionIter::next"), ("fields", "SgxInfo, EpcSection")], ANS, BND)
p("C16", "Legacy AMD cache and TLB figures are decoded exactly",
  "For every processor, the L1, L2, L3 and 1 GB-page cache and TLB figures (sizes, line sizes, lines per tag, entries) equal the documented fields of leaves 0x8000_0005, 0x8000_0006 and 0x8000_0019, and each associativity is the one the manual assigns to its encoding (the direct encoding for L1, the table for L2, L3 and 1 GB pages).",
  ["inputs"], "All contents of the three leaves, every associativity encoding.",
  SUITE + "with a few of the associativity encodings.",
  [E], [("fields", "L1CacheTlbInfo, L2And3CacheTlbInfo, Tlb1gbPageInfo"), ("encodings", "Associativity::for_l1, for_l2, for_l3")], ANS, BND)
p("C17", "Address-translation and SoC vendor descriptions are complete and exact",
  "For every processor, the list of address-translation structures of leaf 0x18 holds exactly the valid sub-leaves up to the maximum the leaf announces, each decoded as documented, and the SoC vendor id, scheme, project, stepping, brand string and attribute list of leaf 0x17 are those the leaf announces, no more and no fewer.",
  ["inputs", "histories"], "All contents and counts of sub-leaves of leaves 0x17 and 0x18.",
  SUITE + "none of which has leaf 0x17 and one of which has a few entries of leaf 0x18.",
  [L], [("walks", "DatIter::next, SoCVendorAttributesIter::next"), ("fields", "DatInfo, SoCVendorInfo")], ANS, BND)
p("C18", "TSC and frequency figures follow the documented formulas",
  "For every processor, the TSC ratio and crystal frequency are the documented registers, the TSC frequency is crystal times numerator over denominator exactly (in integers wide enough for the registers) and absent when a term is missing, and base, maximum and bus frequency are the low sixteen bits of their registers.",
  ["inputs"], "All contents of leaves 0x15 and 0x16.",
  SUITE + "with one ratio each.",
  [L], [("formula", "TscInfo::tsc_frequency"), ("fields", "TscInfo, ProcessorFrequencyInfo")], ANS, BND)
p("C19", "Locality: a structure depends only on its own leaf and its gates",
  "Two processors that agree on the leaf (and sub-leaves) a structure is defined by, on the vendor, on whether the leaf is present and on the structure's gating bits get identical answers from that structure, whatever they return for every other leaf. Garbage in unrelated or absent leaves is never visible.",
  ["inputs"], "All pairs of processors that differ in any other leaf, for every structure.",
  SUITE + "on which every leaf is consistent with the others; a value fetched from a neighbouring leaf goes unnoticed.",
  [L, E], [("leaf numbers", "EAX_* constants and the reads in CpuId::get_*"), ("lazy reads", "iterators and sub-structures that keep the reader")],
  "metamorphic pairs: a generated processor and a perturbed copy that agrees on the structure's own leaf and gates (one other leaf at a time, or everything else); both are asked everything and the answers must be equal; failing pairs shrunk",
  "Exploration. Each other leaf in turn for each structure, plus wholesale changes; contents are sampled.")
p("C20", "Histories: answers do not depend on what was asked before, copies are equal",
  "Any sequence of queries, through one handle, its copies, half-walked lists and copies of those, yields for each query what a fresh handle yields for the same processor. Each list behaves as a plain sequence: next, nth, count, last, collect and size hints agree with one another, and a copied list continues where the original stood without disturbing it. A list that has ended, where the processor reports nothing further on, stays ended.",
  ["histories"], "All sequences of queries, copies and partial list walks, on all processors.",
  SUITE + "each query is asked once, in a fixed order, and lists are walked once from start to end.",
  [L, E], [("handles and copies", "CpuId: Clone, reader sharing"), ("list state", "the eight iterators and their Clone, Debug and PartialEq")],
  "model-based generation of histories of queries, copies and iterator operations; oracles are a fresh handle and a plain vector; failing histories shrunk",
  "Exploration. Random histories of up to a few dozen operations.")
p("C21", "Recorded CPUID results replay and serialise without loss",
  "A register row written through serde and read back is the same row, whatever the order of its fields and whether or not the format writes their names; what lacks a register, or holds what no register does, is refused. A whole processor recorded that way answers every query as the original does. Rows are equal exactly when all four registers are, and count as empty exactly when all four are zero.",
  ["inputs"], "All register rows, all recorded processors.",
  SUITE + "serialisation is exercised by an example only.",
  [L], [("record", "CpuIdResult: Serialize, Deserialize, PartialEq, all_zero"), ("reader", "CpuIdReader for closures, CpuId::with_cpuid_reader")],
  "round trip of generated register rows and whole generated processors through JSON; the replayed processor is compared with the original answer by answer",
  "Exploration. Rows of random and systematic processors, one-bit neighbours.")
p("C22", "The human-readable report agrees with the library's answers",
  "For every processor, the report printed for people has a section for each reported structure it covers and no section for absent ones, with one block per cache, topology level, enclave section or other list item, in order; each value printed beside a label is the library's answer to the question the label names. Printing it never panics.",
  ["inputs"], "All processors.",
  SUITE + "none prints or reads the report.",
  [D], [("report", "display::markdown"), ("rows", "RowGen, table2, table3")],
  "generated processors are printed through a pseudo-terminal by the real report function; the text is parsed back and each labelled value compared with the answer of the corresponding public query (differential), sections and blocks counted; failures shrunk",
  "Exploration. Values are compared as printed; layout, colours and unlabelled prose are not judged.")
p("C23", "The raw dump lists every advertised leaf with what the processor returned",
  "For every processor, the raw dump has one entry for every leaf from 0 to the highest standard leaf, from 0x4000_0000 to the highest hypervisor leaf, if there is one, and from 0x8000_0000 to the highest extended leaf, and each entry shows the four registers exactly as the processor returned them for that leaf and sub-leaf.",
  ["inputs"], "All highest leaf numbers, all register contents.",
  SUITE + "none prints the dump.",
  [D], [("dump", "display::raw")],
  "generated processors are dumped by the real function with standard output captured; the text is parsed back and compared with the processor, row by row; failures shrunk",
  "Exploration. Highest leaf numbers up to a few hundred above each base.")
p("C24", "Debug text shows the same values as the queries",
  "For every processor, the Debug text of each structure and list item names each value it shows after the corresponding question and shows the very answer that question gives; it shows them on every processor (what only AMD defines in leaf 0x80000001, on AMD's alone), a flag it names is one that the structure says is there, and a flag it names on one processor it names on every one that has it. The text of a list is that of its items, all of them, in order. The Debug text of the handle shows every present structure with that structure's own text. Printing has no effect on later answers.",
  ["inputs"], "All processors, all structures and list items.",
  SUITE + "Debug output is printed but never compared.",
  [L, E], [("Debug", "hand-written Debug impls of the structures, of the iterators and of CpuId")],
  "generated processors; the Debug text is parsed back and each printed name that is also a question compared with the answer of that question (differential); failures shrunk",
  "Exploration. Names without a public question are not compared.")
p("C25", "The native reader executes CPUID for exactly the leaf and sub-leaf asked",
  "On the machine it runs on, every way of reading CPUID through the library (the macro with one and two arguments, the counted function, the native reader, the default handle) returns what the processor returns for exactly that leaf and sub-leaf, with sub-leaf 0 where none is given. It is the processor core asked on that answers, whatever core was asked before. A handle made for the native processor answers as one that reads the processor by other means.",
  ["inputs"], "All pairs of leaf and sub-leaf numbers, on the processor at hand.",
  SUITE + "none compares the instruction wrapper with anything.",
  [L], [("instruction", "native_cpuid::cpuid_count, cpuid! macro"), ("reader", "CpuIdReaderNative, CpuId::new, Default")],
  "random and edge leaf/sub-leaf pairs read on a pinned core through the library and through the compiler's own intrinsic (differential), and whole-handle comparison",
  "Exploration of leaf and sub-leaf numbers on the one processor at hand.")
p("C26", "Answers do not depend on features, optimisation or overflow checks",
  "The library gives the same answers to every query for the same CPUID data whether it is built with or without its optional features (std, serialisation, display), optimised or not, with overflow checks on or off.",
  ["configurations", "inputs"], "All processors, all combinations of build settings.",
  SUITE + "run in one configuration only.",
  [L, E], [("conditional code", "cfg(feature = ...) items and derives"), ("wrapping arithmetic", "derived numbers")],
  "the same generated processors are answered by four builds of the library (all features with overflow checks; no features, fully optimised, unchecked; serialisation alone, not optimised, checked; std alone, optimised for size, checked) and the answers compared; failures shrunk",
  "Exploration. Four builds, two of them at opposite ends of the settings.")
p("C27", "The cpuid command prints this processor in the format asked for",
  "The cpuid command with format raw prints the raw dump of the processor it runs on, with format cli, or none, the report for people of that processor, whether into a terminal or a pipe. A word that names no format is refused with an error exit and neither is printed.",
  ["inputs", "configurations"], "All format words in all ways of giving them, on the processor at hand.",
  SUITE + "none runs the command.",
  [B, D], [("options", "Opts, OutputFormat"), ("dispatch", "main")],
  "generated command lines are run against the real binary; its output is compared with the processor's registers as read by the compiler's intrinsic and with the report made from them (differential); failures shrunk",
  "Exploration of command lines on the one processor at hand.")

p("C28", "Equality: what is equal answers alike, what reads alike is equal",
  "Where the library lets structures, list items, register results or values of its enumerations be compared, the comparison is one a user can rely on: a value equals itself and a second reading of the same registers, a == b says the same as b == a and the opposite of a != b, two structures or items that answer any question differently are unequal, and two enumeration values are equal exactly when they name the same thing. A list that has been advanced is not equal to itself at the start.",
  ["inputs"], "All pairs of processors, and all pairs of structures and items within one.",
  "The existing tests compare hardly any structure with another, and none across two processors that differ in a single register.",
  [L, E], [("comparisons", "PartialEq of CpuIdResult, VendorInfo, CacheInfoIter, ProcessorSerial, ExtendedTopologyLevel, CacheParameter, the structures of extended.rs and the enumerations")],
  "pairs of generated processors (alike; one bit or two registers apart; unrelated): reflexivity, symmetry, and agreement with the answers to every question (metamorphic); failing pairs shrunk",
  "Exploration. Every bit of every register the comparable structures are read from is flipped in turn against several backgrounds; other pairs are sampled.")

p("C29", "A handle answers for the processor as it is when asked",
  "A handle keeps nothing but the vendor and the highest leaf numbers that it read when it was made. Every question put to it, or to a copy of it, is answered from the registers as they are then: when they change (a thread moves to another core, a guest to another host), the next answer is the new one, whatever was asked before and of whatever other processor.",
  ["histories"], "All histories of questions, copies and changes of any leaf but the vendor and highest-leaf registers.",
  "The existing tests ask processors that never change, so a value kept from an earlier question cannot be told from one read afresh.",
  [L, E], [("handle", "CpuId::with_cpuid_reader, the fields of CpuId"), ("queries", "CpuId::get_*")],
  "stateful: generated histories of questions and register changes against a handle made afresh for each question (model-based); each single bit of each register changed under a handle in turn; failing histories shrunk",
  "Exploration. Single-bit changes are enumerated; longer histories and larger changes are sampled.")

p("C30", "No input leads to undefined behaviour",
  "Whatever the registers hold, whatever is asked and printed of a structure, its texts and its items stays within the memory of that structure, hands out texts that are text, and only values that their types have: the library's unsafe code, its texts above all, is sound for every input.",
  ["inputs"], "All processors, all structures with their texts and items.",
  "The existing tests read well-formed texts, and run where reading a few bytes too many goes unnoticed.",
  [L, E], [("texts", "VendorInfo::as_str, SoCVendorBrand::as_str, ProcessorBrandString::as_str"), ("coded values", "the enumerations made from register fields")],
  "generated processors (texts that end or break at every place, every value of narrow coded fields, random ones) are looked at in an interpreter that notices undefined behaviour (Miri), and what is seen there compared with what compiled code sees; failures shrunk",
  "Exploration. Miri notices what comes to pass on the inputs tried; far fewer than elsewhere, as it is slow.")

p("C31", "Names: the text of a coded value says what the value is",
  "The text of each coded value (an associativity, a kind of cache or translation cache, a topology or hierarchy level, a component of extended state and where it is kept, a leaf 2 descriptor) names that value and no other of its kind, with the value's own figures where it has any (the ways of a cache, the number of a type that is not defined, the number of a descriptor). A value made from any number is the one documented for that number, and each descriptor number is described as documented, once.",
  ["inputs"], "All processors, and all numbers that such a value can be made of.",
  "The existing tests print a handful of these values, each from one sample processor.",
  [L, E], [("texts", "Display and Debug of Associativity, CacheType, DatType, TopologyType, HierarchyLevelType, ExtendedRegisterType, ExtendedRegisterStateLocation, CacheInfo"), ("values", "From<u8> for HierarchyLevelType, From<u32> for ExtendedRegisterType, CacheInfo::desc, CACHE_INFO_TABLE")],
  "every encoding of each coded field and generated numbers and processors: the text is read back into the value it names and compared with the value that was handed out (round trip through a transcribed table of names); failures shrunk",
  "Every encoding of the coded fields and every descriptor number is tried; numbers of 32 bits and processors are sampled.")

p("C32", "32-bit builds: the library answers the same on a 32-bit processor",
  "Built for a 32-bit x86 processor, the library answers every question about a given processor's CPUID content as the 64-bit build does, in values and in texts, without panicking, overflowing or cutting anything off; only what a 32-bit word cannot hold (2^32 sets of a cache) is given as the largest number it holds. There, too, reading the processor at hand in any of the ways on offer gives what the processor says.",
  ["inputs"], "All processors, and all leaf and sub-leaf numbers on the processor at hand.",
  "The tests run on a 64-bit machine only; arithmetic in machine words overflows on narrower ones for particular register contents.",
  [L, E], [("words", "usize results (CacheParameter, PerformanceTsc sizes, ProcessorCapacityAndFeatureInfo), sizes of slices (VendorInfo, ProcessorBrandString, SoCVendorBrand), 64-bit arithmetic (TscInfo, EPC sections, serial numbers)"), ("native", "native_cpuid for target_arch = x86, the cpuid! macro, CpuIdReaderNative, CpuId::new")],
  "differential testing: generated processors answered by a 32-bit (i686) build, with overflow checks, and by the 64-bit build; native readings in the 32-bit process compared with the compiler's intrinsic; failures shrunk",
  "One 32-bit target. Processors are sampled, with the edges of every coded field tried. The 32-bit child has no standard library, so the report and the raw dump are not part of it.")

p("C33", "Threads: questions asked at once do not disturb one another",
  "Any number of threads may ask at the same time, each of its own processor or all of them through one handle: every answer, list and text a thread gets is the one it would get asking alone, wherever in its questions the others run. Handles, lists, structures and values may be sent to and shared with other threads whenever their reader may.",
  ["inputs", "schedules"], "All interleavings of questions and processor reads on all processors.",
  "The tests ask from one thread at a time; what is shared behind the scenes shows for particular interleavings only.",
  [L, E], [("handles", "CpuId and its Send and Sync, with_cpuid_reader, CpuIdReader"), ("structures and lists", "all get_* of CpuId, the iterators, as_str and Debug of what they hand out")],
  "generated schedules: two threads take turns at each processor read and each question where a generated schedule says so, plus unscheduled runs of six threads and four threads on one handle; each answer and text compared with that of a thread asking alone; failing schedules shrunk",
  "Exploration. Scheduled switches happen at reads of the processor and between questions; within a question, between reads, threads are interleaved by the machine only.")

p("C34", "Other processors: the library answers the same where it is no x86 one",
  "Built for a processor that is no x86 one, of whatever byte order and word width, and given a reader of another machine's registers, the library answers every question as an x86 build does for the same registers: the same vendor is recognised, texts have the same letters, numbers the same values, lists the same items, and nothing panics.",
  ["inputs"], "All processors, on all targets.",
  "The tests run on x86_64 only; what depends on the byte order or on which target it is built for cannot show there.",
  [L, E], [("texts from registers", "VendorInfo::as_str, ProcessorBrandString::as_str, SoCVendorBrand::as_str"), ("vendor", "Vendor::from_vendor_leaf"), ("decoding", "all get_* of CpuId with a reader of one's own (CpuId::with_cpuid_reader)")],
  "differential testing: generated processors answered by builds for s390x, powerpc and aarch64, played by an interpreter (Miri), and by the x86_64 build; failures shrunk",
  "Three targets. Processors are sampled; those with long lists or long texts are left out, as the interpreter is slow.")

claimed = sys.argv[1].split(",") if len(sys.argv) > 1 else [x["id"] for x in P]
with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        if x["id"] not in claimed: continue
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "checks": [{"property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough", "technique": "property-based testing: " + x["tech"], "level": "exploration", "level_note": x["note"]} for x in P if x["id"] in claimed],
     "not_applicable": [],
     "notes": "No hooks: everything is observed through the library's public interface and its printed output. Known findings and repairs are in KNOWN_FINDINGS."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1); open(here + "/MANIFEST.json", "a").write("\n")
