//! The report for people and the raw dump, read back and compared.

use crate::engine::{Case, Prop, Report};
use crate::gen::{bound, Gen, Rng};
use crate::obs::{self, Key, Obs, GROUPS, NOIDX, V};
use crate::props::{full, STANDIN};
use crate::sections::SECTIONS;
use crate::table::*;
use crate::worker::Worker;
use raw_cpuid::CpuId;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> { vec![report(), raw_dump()] }

thread_local! { static WORKERS: RefCell<BTreeMap<&'static str, Worker>> = const { RefCell::new(BTreeMap::new()) }; }

/// Asks this thread's own child; a dead one is replaced.
fn ask(kind: &'static str, tty: bool, t: &Table) -> (String, Result<(), String>) {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        let r = w.entry(kind).or_insert_with(|| Worker::own(kind, tty)).ask(&t.to_json().to_string());
        if r.1.is_err() { w.remove(kind); }
        r
    })
}

/// The text without what is for the terminal only.
pub fn plain_text(s: &str) -> String { s.lines().map(|l| strip(l) + "\n").collect() }

fn strip(line: &str) -> String {
    let mut out = String::new();
    let mut it = line.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            if it.peek() == Some(&'[') { it.next(); for d in it.by_ref() { if ('@'..='~').contains(&d) { break; } } }
            continue;
        }
        if c != '\r' && c != '*' { out.push(c); }
    }
    out
}
fn tidy(s: &str) -> String { strip(s).split_whitespace().collect::<Vec<_>>().join(" ") }
/// A label or title as far as it matters: a mended typo or another case is no other label.
fn bare(s: &str) -> String { s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect() }

#[derive(Debug)]
struct Block { title: String, rows: Vec<(String, String)> }

fn parse(text: &str) -> Vec<Block> {
    let mut out: Vec<Block> = vec![];
    for line in text.lines() {
        let l = tidy(line);
        if l.is_empty() { continue; }
        if let Some(cells) = l.strip_prefix('│') {
            let cells: Vec<&str> = cells.strip_suffix('│').unwrap_or(cells).split('│').map(|c| c.trim()).collect();
            let (v, k) = cells.split_last().unwrap();
            if let Some(b) = out.last_mut() { b.rows.push((k.join("|"), v.to_string())); }
        } else if !l.chars().all(|c| ('\u{2500}'..='\u{257f}').contains(&c) || c == ' ') {
            out.push(Block { title: l, rows: vec![] });
        }
    }
    out
}

struct Expected {
    /// What distinguishes titles of this kind: the text around the varying part.
    kind: (&'static str, &'static str),
    g: &'static str,
    blocks: Vec<Block>,
}

fn around(pattern: &'static str) -> (&'static str, &'static str) {
    if pattern.starts_with("{}") { return ("", " features (0x0d/"); }
    match pattern.find("{}") { Some(p) => (&pattern[..p], &pattern[pattern.rfind("{}").unwrap() + 2..]), None => (pattern, "") }
}
fn of_kind(title: &str, kind: (&str, &str), pattern: bool) -> bool {
    if !pattern { return bare(title) == bare(kind.0); }
    if kind.0.is_empty() { return title.contains(kind.1) && !title.starts_with("XSAVE "); }
    title.len() >= kind.0.len() + kind.1.len() && title.starts_with(kind.0) && title.ends_with(kind.1)
}

fn shown(o: &Obs, g: &'static str, f: &'static str, i: u32) -> Option<String> {
    if let Some(s) = o.texts.get(&Key { g, f, i }) { return Some(tidy(s)); }
    let d = match f { "cache_type" => "cache_type_display", "level_type" => "level_type_display", "location" => "location_display", f => f };
    match o.m.get(&Key { g, f: d, i })? {
        V::B(b) => Some(if *b { "✅".into() } else { "❌".into() }),
        V::U(n) => Some(n.to_string()),
        V::S(s) => Some(tidy(s)),
        _ => None,
    }
}
fn num(o: &Obs, g: &'static str, f: &'static str, i: u32) -> u64 { match o.m.get(&Key { g, f, i }) { Some(V::U(n)) => *n as u64, _ => 0 } }
fn text(o: &Obs, g: &'static str, f: &'static str) -> String { match o.m.get(&Key { g, f, i: NOIDX }) { Some(V::S(s)) => s.clone(), _ => String::new() } }
fn yes(o: &Obs, g: &'static str, f: &'static str) -> bool { o.m.get(&Key { g, f, i: NOIDX }) == Some(&V::B(true)) }

fn rows(o: &Obs, g: &'static str, i: u32, spec: &'static [(&'static str, &'static str)]) -> Vec<(String, String)> {
    spec.iter().map(|(label, f)| {
        let v = match *f {
            "?size" => ["associativity", "physical_line_partitions", "coherency_line_size", "sets"].iter().fold(1u64, |a, f| a.saturating_mul(num(o, g, f, i))).to_string(),
            "?ratio" => format!("{} / {}", num(o, g, "numerator", i), num(o, g, "denominator", i)),
            "?l3" => (num(o, g, "l3cache_size", i) * 512).to_string(),
            "?brand" => tidy(&text(o, g, "as_str")),
            f => shown(o, g, f, i).unwrap_or_else(|| panic!("no answer for {}.{}", g, f)),
        };
        (label.to_string(), v)
    }).collect()
}

fn expected(c: &CpuId<TableReader>, r: &TableReader, o: &Obs) -> Vec<Expected> {
    let mut out: Vec<Expected> = vec![];
    for (g, pattern, spec) in SECTIONS {
        let here = yes(o, g, "present");
        let n = num(o, g, "len", NOIDX) as u32;
        let one = |i: u32, title: String| Block { title, rows: rows(o, g, i, spec) };
        let blocks = match *pattern {
            _ if !here => vec![],
            "L{} Cache:" => (0..n).map(|i| one(i, format!("L{} Cache:", num(o, g, "level", i)))).collect(),
            "level {}:" => (0..n).map(|i| one(i, format!("level {}:", num(o, g, "level_number", i)))).collect(),
            "{} features (0x0d/{}):" => (0..n).map(|i| { let k = num(o, g, "order", i) as u32; one(k, format!("{} features (0x0d/{}):", shown(o, g, "register_display", k).unwrap_or_default(), k)) }).collect(),
            "Enclave Page Cache (0x12/{})" => (0..n).map(|i| one(i, format!("Enclave Page Cache (0x12/{})", i + 2))).collect(),
            "Deterministic Address Translation Structure (0x18/{}):" | "Extended CPU Topology (0x8000_0026/{}):" => (0..n).map(|i| one(i, pattern.replace("{}", &i.to_string()))).collect(),
            _ => {
                let part = |tag: &str| pattern.contains(tag);
                let (gate, i) = if part("(0x0f/1)") { ("l3_monitoring", 1) } else if part("(0x10/1)") { ("l3_cat", 1) } else if part("(0x10/2)") { ("l2_cat", 2) }
                    else if part("(0x10/3)") { ("memory_bandwidth_allocation", 3) } else if part("(0x8000_0020/1)") { ("l3mbe_info", 1) } else if part("(0x8000_0020/2)") { ("l3smbe_info", 2) }
                    else if part("(0x8000_0020/3)") { ("bmec_info", 3) } else if part("(0x8000_0020/5)") { ("abmc_info", 5) } else { ("present", NOIDX) };
                if yes(o, g, gate) { vec![one(i, pattern.to_string())] } else { vec![] }
            }
        };
        out.push(Expected { kind: around(pattern), g, blocks });
    }
    // Titles that carry a value, and titles of groups of sections.
    let mut line = |g: &'static str, kind: (&'static str, &'static str), v: String| {
        let blocks = if yes(o, g, "present") { vec![Block { title: tidy(&format!("{}{}{}", kind.0, v, kind.1)), rows: vec![] }] } else { vec![] };
        out.push(Expected { kind, g, blocks });
    };
    line("vendor", ("vendor_id (0x00) = \"", "\""), text(o, "vendor", "as_str"));
    line("serial", ("processor serial number (0x03) = \"", "\""), {
        let f = |f| num(o, "serial", f, NOIDX);
        format!("{:08x}-{:08x}-{:08x}", f("serial_upper"), f("serial_middle"), f("serial_lower"))
    });
    line("dca", ("PLATFORM_DCA_CAP MSR bits = ", ""), num(o, "dca", "get_dca_cap_value", NOIDX).to_string());
    line("brand", ("Processor Brand String = \"", "\""), text(o, "brand", "as_str"));
    line("apm", ("Ratio of Compute Unit Power Acc. sample period to TSC = ", ""), num(o, "apm", "cpu_pwr_sample_time_ratio", NOIDX).to_string());
    line("svm", ("Revision = ", ""), num(o, "svm", "revision", NOIDX).to_string());
    for (g, t) in [("cache_params", "deterministic cache parameters (0x04):"), ("dca", "Direct Cache Access Parameters (0x09):"), ("perf_mon", "Architecture Performance Monitoring Features (0x0a)"),
        ("topology", "x2APIC features / processor topology (0x0b):"), ("xsave", "Extended Register State (0x0d/0):"), ("apm", "Advanced Power Management (0x8000_0007/ecx):"),
        ("svm", "SVM Secure Virtual Machine (0x8000_000a/eax):")] { line(g, (t, ""), String::new()); }
    // SoC attributes.
    let n = if yes(o, "soc", "present") && yes(o, "soc", "vendor_attributes") { num(o, "soc", "len", NOIDX) as u32 } else { 0 };
    out.push(Expected { kind: ("0x17 0x", ""), g: "soc", blocks: (0..n).map(|i| {
        let v = |f| num(o, "soc", f, i);
        Block { title: format!("0x17 {:#x}: eax = {:#x} ebx = {:#x} ecx = {:#x} edx = {:#x}", i + 4, v("eax"), v("ebx"), v("ecx"), v("edx")), rows: vec![] }
    }).collect() });
    // Leaf 2: what each descriptor is said to be.
    r.refuel();
    let blocks = match c.get_cache_info() {
        None => vec![],
        Some(it) => vec![Block { title: "Cache and TLB information (0x02):".into(), rows: it.map(|d| (format!("{:#x}", d.num), tidy(d.desc()))).collect() }],
    };
    out.push(Expected { kind: ("Cache and TLB information (0x02):", ""), g: "cache_info", blocks });
    // The C-states.
    let blocks = if yes(o, "monitor_mwait", "present") {
        const F: [&str; 8] = ["supported_c0_states", "supported_c1_states", "supported_c2_states", "supported_c3_states", "supported_c4_states", "supported_c5_states", "supported_c6_states", "supported_c7_states"];
        vec![Block { title: "number of CX sub C-states using MWAIT:".into(), rows: F.iter().enumerate().map(|(k, f)| (format!("C{}", k), num(o, "monitor_mwait", f, NOIDX).to_string())).collect() }]
    } else { vec![] };
    out.push(Expected { kind: ("number of CX sub C-states using MWAIT:", ""), g: "monitor_mwait", blocks });
    out
}

fn near(a: &str, b: &str) -> bool {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    if a.len() < 6 || a.len().abs_diff(b.len()) > 2 { return false; }
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 1..=a.len() {
        let mut prev = row[0];
        row[0] = i;
        for j in 1..=b.len() {
            let x = (prev + (a[i - 1] != b[j - 1]) as usize).min(row[j] + 1).min(row[j - 1] + 1);
            prev = row[j];
            row[j] = x;
        }
    }
    row[b.len()] <= 2
}

/// Compares the labelled values; returns how many.
fn compare_rows(rep: &mut Report, g: &str, e: &Block, b: &Block) {
    if e.title.starts_with("number of CX") {
        // a table of two rows, names above values
        let cells = |r: &(String, String)| format!("{}|{}", r.0, r.1).split('|').map(|s| s.trim().to_string()).collect::<Vec<_>>();
        let rows: Vec<_> = b.rows.iter().map(cells).collect();
        let got: BTreeMap<String, String> = match &rows[..] { [names, vals, ..] => names.iter().cloned().zip(vals.iter().cloned()).collect(), _ => BTreeMap::new() };
        for (k, v) in &e.rows {
            rep.compared += 1;
            if got.get(k) != Some(v) { rep.fail(format!("{}.{}", g, k), format!("the report says {} = {:?}, the library {}", k, got.get(k), v)); }
        }
        return;
    }
    if e.title.starts_with("Cache and TLB information") {
        let key = |v: &[(String, String)]| { let mut v: Vec<(String, String)> = v.iter().map(|r| (r.0.to_lowercase(), bare(&r.1))).collect(); v.sort(); v };
        rep.compared += e.rows.len() as u64;
        if key(&e.rows) != key(&b.rows) { rep.fail("cache_info.rows", format!("the report lists {:?}, the library {:?}", b.rows, e.rows)); }
        return;
    }
    let known: BTreeSet<String> = e.rows.iter().map(|r| bare(&r.0)).collect();
    for (label, v) in &e.rows {
        let want = bare(label);
        let mut found: Vec<&(String, String)> = b.rows.iter().filter(|r| bare(&r.0) == want).collect();
        if found.is_empty() { found = b.rows.iter().filter(|r| { let l = bare(&r.0); !known.contains(&l) && near(&want, &l) }).collect(); }
        rep.compared += 1;
        if found.is_empty() { rep.fail(format!("{}.{}: missing", g, label), format!("section {:?} has no row {:?}; the library's answer is {}", e.title, label, v)); continue; }
        for (_, got) in found {
            if got != v { rep.fail(format!("{}.{}", g, label), format!("section {:?}: the report says {} = {:?}, the library {:?}", e.title, label, got, v)); }
            else if v != "❌" && v != "0" { rep.nontrivial = true; }
        }
    }
}

fn report_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let r = TableReader::new(&c.t);
    let id = CpuId::with_cpuid_reader(r.clone());
    let o = obs::observe(&id, GROUPS, &r);
    for (k, v) in &o.m { if let V::Panic(e) = v { rep.fail("answer", format!("{} panicked: {}", k, e)); return rep; } }
    let (out, how) = ask("report", true, &c.t);
    if let Err(e) = how { rep.fail("report.panic", format!("printing the report: {}", e)); return rep; }
    let blocks = parse(&out);
    for e in expected(&id, &r, &o) {
        let pattern = !e.kind.1.is_empty() || e.kind.0.ends_with("= ") || e.kind.0 == "0x17 0x";
        let got: Vec<&Block> = blocks.iter().filter(|b| of_kind(&b.title, e.kind, pattern)).collect();
        let name = format!("{}..{}", e.kind.0, e.kind.1);
        rep.compared += 1;
        if got.len() != e.blocks.len() {
            rep.fail(format!("{}: sections {}", e.g, name), format!("the report has {} sections {:?}, the library has {} ({:?})", got.len(), name, e.blocks.len(),
                e.blocks.iter().map(|b| &b.title).take(4).collect::<Vec<_>>()));
            continue;
        }
        if !e.blocks.is_empty() { rep.tags.push(e.g); }
        for (x, b) in e.blocks.iter().zip(got) {
            rep.compared += 1;
            if bare(&x.title) != bare(&b.title) { rep.fail(format!("{}: title {}", e.g, name), format!("the report says {:?}, the library {:?}", b.title, x.title)); continue; }
            if x.rows.is_empty() { rep.nontrivial = true; }
            compare_rows(&mut rep, e.g, x, b);
        }
    }
    rep.tags.sort();
    rep.tags.dedup();
    rep
}

/// Texts that mean nothing to the markup the report is made with, and lists short enough to print.
fn printable(g: &Gen, r: &mut Rng, t: &mut Table) {
    let clean = |r: &mut Rng, v: u32, inner: bool| u32::from_le_bytes(v.to_le_bytes().map(|b| if b.is_ascii_alphanumeric() || (inner && b == b' ') { b } else { b'A' + r.below(26) as u8 }));
    for (leaf, sub, regs) in [(0, 0, &[EBX, ECX, EDX][..])].into_iter().chain((0x8000_0002..=0x8000_0004).map(|l| (l, 0, &[EAX, EBX, ECX, EDX][..]))).chain((1..=3).map(|s| (0x17, s, &[EAX, EBX, ECX, EDX][..]))) {
        for reg in regs {
            let v = t.get(leaf, sub)[*reg];
            // an end of the text stays where it is
            if v == 0 && leaf != 0 { t.set_reg(leaf, sub, *reg, 0); continue; }
            let v = clean(r, v, leaf != 0);
            t.set_reg(leaf, sub, *reg, v);
        }
    }
    for leaf in [0x17, 0x18] {
        let v = t.get(leaf, 0)[EAX];
        if v > 24 { t.set_reg(leaf, 0, EAX, v % 24); }
    }
    for leaf in [4, 0x8000_001d, 0xb, 0x12, 0x8000_0026] { for s in 12..16 { t.m.remove(&(leaf, s)); t.set(leaf, s, [0; 4]); } }
    let _ = g;
    bound(t);
}

fn report() -> Prop {
    const REPEAT: u64 = 8;
    Prop {
        id: "C22",
        rule: "each structure alone on four vendors with empty, full and random contents, then random processors with everything filled in; the report is printed by a child on a pseudo-terminal and read back: the sections against the structures present, every labelled value against the library's answer. Non-trivial: a compared value is neither no nor zero",
        assumptions: &[STANDIN, "texts of the processor consist of letters, digits and blanks, so that they mean nothing to the markup", "which question a label names is transcribed from the labels"],
        sweep_len: Box::new(|_, th| GROUPS.len() as u64 * 4 * REPEAT * if th { 16 } else { 1 }),
        sweep: Box::new(|g, r, k, _| {
            let grp = GROUPS[(k % GROUPS.len() as u64) as usize];
            let k = k / GROUPS.len() as u64;
            let mut t = full(g, r, (k % 4) as u32, &[grp], k / 4 % REPEAT);
            printable(g, r, &mut t);
            Case { t, groups: vec![grp], ..Case::default() }
        }),
        random: (2_500, 150_000),
        gen: Box::new(|g, r| {
            let all = GROUPS.to_vec();
            let mut t = if r.one_in(3) { let (v, bg) = (r.below(4), 2 + r.below(2) as u64); full(g, r, v, &all, bg) } else { g.table(r, &all) };
            printable(g, r, &mut t);
            Case { t, groups: all, ..Case::default() }
        }),
        check: Box::new(report_check),
        single: false,
    }
}

// --- C23 -----------------------------------------------------------------------
fn value(s: &str) -> Option<u32> {
    let s = s.trim();
    match s.strip_prefix("0x") { Some(h) => u32::from_str_radix(h, 16).ok(), None => s.parse().ok() }
}
/// "(0x1, 0x0) => CpuIdResult { eax: 0x1, ebx: .. }"
pub fn dump_row(line: &str) -> Option<((u32, u32), Regs)> {
    let (key, val) = line.split_once("=>")?;
    let (l, s) = key.trim().strip_prefix('(')?.strip_suffix(')')?.split_once(',')?;
    let mut regs = [None; 4];
    let inner = val.split_once('{')?.1.split_once('}')?.0;
    for part in inner.split(',') {
        let (n, v) = part.split_once(':')?;
        let k = REGN.iter().position(|x| *x == n.trim())?;
        regs[k] = Some(value(v)?);
    }
    Some(((value(l)?, value(s)?), [regs[0]?, regs[1]?, regs[2]?, regs[3]?]))
}

fn raw_check(c: &Case) -> Report {
    let mut rep = Report::default();
    let (out, how) = ask("raw", false, &c.t);
    if let Err(e) = how { rep.fail("dump.panic", format!("dumping: {}", e)); return rep; }
    let mut got: BTreeMap<(u32, u32), Regs> = BTreeMap::new();
    for line in out.lines() {
        if !line.contains("=>") { continue; }
        let Some((k, v)) = dump_row(line) else { rep.fail("row", format!("unreadable row {:?}", line)); continue };
        rep.compared += 1;
        let want = c.t.get(k.0, k.1);
        if v != want { rep.fail("value", format!("leaf {:#x}.{:#x}: dumped {:x?}, the processor says {:x?}", k.0, k.1, v, want)); }
        if v != [0; 4] { rep.nontrivial = true; }
        if got.insert(k, v).is_some() { rep.fail("twice", format!("leaf {:#x}.{:#x} is dumped twice", k.0, k.1)); }
    }
    for base in [0u32, 0x4000_0000, 0x8000_0000] {
        let max = c.t.get(base, 0)[EAX];
        if max < base { continue; }
        // Without a hypervisor there is no such range.
        if base == 0x4000_0000 && c.t.get(1, 0)[ECX] >> 31 == 0 { continue; }
        for l in base..=max {
            rep.compared += 1;
            if !got.contains_key(&(l, 0)) { rep.fail("missing", format!("leaf {:#x} is not dumped; the highest leaf is {:#x}", l, max)); break; }
        }
    }
    rep
}

fn raw_dump() -> Prop {
    let near = |t: &mut Table, base: u32, most: u32| {
        let v = t.get(base, 0)[EAX];
        // nothing below the base, and not too many above
        if v >= base && v - base > most { t.set_reg(base, 0, EAX, base + v % most); }
    };
    let tame = move |t: &mut Table| { near(t, 0, 600); near(t, 0x4000_0000, 300); near(t, 0x8000_0000, 300); };
    Prop {
        id: "C23",
        rule: "each highest leaf number up to 0x60 in each of the three ranges, then random processors; the dump is printed by a child and each row read back: its registers against the processor, the rows against the highest leaf numbers. Non-trivial: a dumped row is not all zero",
        assumptions: &[STANDIN],
        sweep_len: Box::new(|_, _| 3 * 0x60 * 2),
        sweep: Box::new(move |g, r, k, _| {
            let mut t = g.table(r, GROUPS);
            if k >= 3 * 0x60 && t.noise.is_none() { t.noise = Some(r.u64() >> 12); }
            let k = k % (3 * 0x60);
            let base = [0, 0x4000_0000, 0x8000_0000][(k % 3) as usize];
            t.set_reg(base, 0, EAX, base + (k / 3) as u32);
            if base == 0x4000_0000 { *t.reg_mut(1, 0, ECX) |= 1 << 31; }
            tame(&mut t);
            Case { t, ..Case::default() }
        }),
        random: (12_000, 500_000),
        gen: Box::new(move |g, r| {
            let gs: Vec<&'static str> = GROUPS.iter().filter(|_| r.one_in(3)).cloned().collect();
            let mut t = g.table(r, &gs);
            if r.one_in(2) { *t.reg_mut(1, 0, ECX) |= 1 << 31; let v = 0x4000_0000 + r.below(0x20); t.set_reg(0x4000_0000, 0, EAX, v); }
            tame(&mut t);
            Case { t, ..Case::default() }
        }),
        check: Box::new(raw_check),
        single: false,
    }
}
