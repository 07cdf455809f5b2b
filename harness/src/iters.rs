//! Histories over the iterators the library hands out: whatever is called on them, in whatever
//! order and on whatever copies, they are cursors over one fixed list.

use crate::engine::Report;
use crate::table::{Table, TableReader};
use crate::obs::caught;
use raw_cpuid::CpuId;
use std::fmt::Debug;

/// Lists longer than this are looked at up to here only.
const LIMIT: usize = 700;
const ENDED: usize = usize::MAX / 2;

fn run<I>(rep: &mut Report, name: &'static str, prog: &[u32], refuel: &dyn Fn(), make: &dyn Fn() -> I, print: Option<fn(&I) -> String>, over: &dyn Fn(usize) -> bool)
where I: Iterator + Clone, I::Item: Debug {
    let show = |x: &Option<I::Item>| format!("{:?}", x);
    refuel();
    // the list: plain walking, from the start
    let mut list: Vec<String> = Vec::new();
    let mut it = make();
    let mut whole = false;
    while list.len() < LIMIT { match it.next() { Some(x) => list.push(format!("{:?}", Some(x))), None => { whole = true; break } } }
    if list.len() > 1 { rep.nontrivial = true; rep.tags.push(name); }
    let at = |p: usize| list.get(p).cloned().unwrap_or_else(|| "None".into());
    // Where the processor has nothing further on either, a list that ended has ended.
    if whole && over(list.len()) {
        for n in 0..3 {
            refuel();
            rep.compared += 1;
            if let Some(x) = it.next() { rep.fail(format!("{}.resumes", name), format!("{}: ended after {} items, but question {} after that gave {}", name, list.len(), n + 1, clip(&format!("{:?}", x)))); return; }
        }
    }
    let mut slots: Vec<(I, usize)> = vec![(make(), 0)];
    let mut done: Vec<String> = Vec::new();
    for op in prog {
        refuel();
        let k = (op >> 8) as usize % slots.len();
        let n = (op >> 16) as usize % 6;
        let pos = slots[k].1;
        // further ahead than any list is long
        if whole && op % 11 == 3 && (op >> 24) % 8 == 0 && pos != ENDED {
            let n = [u32::MAX as usize, 1 << 32, (1 << 32) + n, usize::MAX, usize::MAX - n, 1 << 31, (1 << 40) - 1][(op >> 27) as usize % 7];
            rep.compared += 1;
            slots[k].1 = ENDED;
            done.push(format!("nth({})#{}", n, k));
            if let Some(x) = slots[k].0.nth(n) { rep.fail(format!("{}.nth", name), format!("{}: after [{}], expected nothing, got {}", name, done.join(" "), clip(&format!("{:?}", x)))); return; }
            continue;
        }
        // what an iterator that said None says next is left open by the Iterator trait
        if pos + n + 1 >= LIMIT || pos == ENDED { if slots.len() < 6 { slots.push((make(), 0)); } continue; }
        rep.compared += 1;
        let (what, want, got): (String, String, String) = match op % 11 {
            0..=2 => { slots[k].1 = (pos + 1).min(list.len()); ("next".into(), at(pos), show(&slots[k].0.next())) }
            3 => { slots[k].1 = (pos + n + 1).min(list.len()); (format!("nth({})", n), at(pos + n), show(&slots[k].0.nth(n))) }
            4 => { if slots.len() < 6 { let c = slots[k].clone(); slots.push(c); } ("clone".into(), String::new(), String::new()) }
            5 => {
                let (lo, hi) = slots[k].0.size_hint();
                let rest = list.len() - pos;
                ("size_hint".into(), "true".into(), format!("{}", (lo <= rest || !whole) && hi.map(|h| rest <= h).unwrap_or(true)))
            }
            6 if whole => ("count".into(), (list.len() - pos).to_string(), slots[k].0.clone().count().to_string()),
            7 if whole && print.is_some() => {
                // the Debug text lists what is left, without taking it
                let items: Vec<I::Item> = slots[k].0.clone().collect();
                ("debug".into(), format!("{:?}", items), (print.unwrap())(&slots[k].0))
            }
            8 if whole => ("last".into(), if pos < list.len() { at(list.len() - 1) } else { "None".into() }, show(&slots[k].0.clone().last())),
            9 if slots.len() < 6 => { slots.push((make(), 0)); ("another".into(), String::new(), String::new()) }
            10 if whole => {
                let rest: Vec<String> = slots[k].0.clone().map(|x| format!("{:?}", Some(x))).collect();
                ("collect".into(), list[pos..].join(";"), rest.join(";"))
            }
            _ => continue,
        };
        if (op % 11) <= 3 && want == "None" { slots[k].1 = ENDED; }
        done.push(format!("{}#{}", what, k));
        // lists that only exist as text (SGX info derives Debug, say) print otherwise than as a list
        if what == "debug" && !got.starts_with('[') { continue; }
        if want != got {
            rep.fail(format!("{}.{}", name, what.split('(').next().unwrap()), format!("{}: after [{}], expected {}, got {}", name, done.join(" "), clip(&want), clip(&got)));
            return;
        }
    }
}
/// The same for a list that cannot be copied: several walks over it, each its own.
fn walks<I>(rep: &mut Report, name: &'static str, prog: &[u32], refuel: &dyn Fn(), make: &dyn Fn() -> I) where I: Iterator, I::Item: Debug {
    refuel();
    let list: Vec<String> = make().take(LIMIT).map(|x| format!("{:?}", Some(x))).collect();
    let whole = list.len() < LIMIT;
    if list.len() > 1 { rep.nontrivial = true; rep.tags.push(name); }
    if whole {
        let mut it = make();
        for _ in 0..=list.len() { it.next(); }
        if let Some(x) = it.next() { rep.fail(format!("{}.resumes", name), format!("{}: ended after {} items, but went on with {:?}", name, list.len(), x)); return; }
    }
    let at = |p: usize| list.get(p).cloned().unwrap_or_else(|| "None".into());
    let mut slots: Vec<(I, usize)> = vec![(make(), 0), (make(), 0)];
    for (k, op) in prog.iter().enumerate() {
        refuel();
        let j = (op >> 8) as usize % slots.len();
        let n = (op >> 16) as usize % 6;
        let pos = slots[j].1;
        if whole && op % 6 == 2 && (op >> 24) % 8 == 0 && pos != ENDED {
            let n = [u32::MAX as usize, 1 << 32, (1 << 32) + n, usize::MAX, usize::MAX - n, 1 << 31, (1 << 40) - 1][(op >> 27) as usize % 7];
            rep.compared += 1;
            slots[j].1 = ENDED;
            if let Some(x) = slots[j].0.nth(n) { rep.fail(format!("{}.nth", name), format!("{}: operation {} (nth({}), {} items in): expected nothing, got {}", name, k, n, pos, clip(&format!("{:?}", x)))); return; }
            continue;
        }
        if pos + n + 1 >= LIMIT || pos == ENDED { slots[j] = (make(), 0); continue; }
        rep.compared += 1;
        let (what, want, got) = match op % 6 {
            0 | 1 => { slots[j].1 = pos + 1; ("next", at(pos), format!("{:?}", slots[j].0.next())) }
            2 => { slots[j].1 = pos + n + 1; ("nth", at(pos + n), format!("{:?}", slots[j].0.nth(n))) }
            3 => { let (lo, hi) = slots[j].0.size_hint(); let rest = list.len() - pos; ("size_hint", "true".into(), format!("{}", (lo <= rest || !whole) && hi.map(|h| rest <= h || !whole).unwrap_or(true))) }
            4 if whole => { let it = std::mem::replace(&mut slots[j], (make(), 0)).0; ("count", (list.len() - pos).to_string(), it.count().to_string()) }
            5 if whole => { let it = std::mem::replace(&mut slots[j], (make(), 0)).0; ("last", if pos < list.len() { at(list.len() - 1) } else { "None".into() }, format!("{:?}", it.last())) }
            _ => continue,
        };
        if op % 6 <= 2 && want == "None" { slots[j].1 = ENDED; }
        if want != got { rep.fail(format!("{}.{}", name, what), format!("{}: operation {} ({}, {} items in): expected {}, got {}", name, k, what, pos, clip(&want), clip(&got))); return; }
    }
}
pub fn clip(s: &str) -> String { if s.len() > 300 { let mut k = 300; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } else { s.into() } }

pub fn scripts(rep: &mut Report, c: &CpuId<TableReader>, t: &Table, r: &TableReader, prog: &[u32]) {
    let refuel = || r.refuel();
    // sub-leaves that say of themselves that there is nothing there
    let dead = |leaf: u32, reg: usize, mask: u32, n: usize| (0..5).all(|k| t.get(leaf, n as u32 + k)[reg] & mask == 0);
    macro_rules! go { ($name:literal, $make:expr, $print:expr, $over:expr) => {
        refuel();
        if ($make)().is_some() {
            let e = caught(|| run(rep, $name, prog, &refuel, &|| ($make)().expect("was there before"), $print, &$over));
            if let Err(e) = e { rep.fail(concat!($name, ".panic"), format!("{}: panicked: {}", $name, e)); }
        }
    } }
    go!("leaf 2 descriptors", || c.get_cache_info(), Some(|i| format!("{:?}", i)), |_| true);
    go!("cache parameters", || c.get_cache_parameters(), Some(|i| format!("{:?}", i)), |n| dead(4, 0, 0x1f, n) && dead(0x8000_001d, 0, 0x1f, n));
    go!("topology", || c.get_extended_topology_info(), Some(|i| format!("{:?}", i)), |n| dead(0xb, 2, 0xff00, n));
    go!("topology v2", || c.get_extended_topology_info_v2(), Some(|i| format!("{:?}", i)), |n| dead(0x1f, 2, 0xff00, n));
    go!("extended states", || c.get_extended_state_info().map(|x| x.iter()), Some(|i| format!("{:?}", i)), |_| true);
    go!("sgx sections", || c.get_sgx_info().map(|x| x.iter()), Some(|i| format!("{:?}", i)), |n| dead(0x12, 0, 0xf, n + 2));
    go!("address translation", || c.get_deterministic_address_translation_info(), Some(|i| format!("{:?}", i)), |_| true);
    refuel();
    if c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).is_some() {
        let e = caught(|| walks(rep, "soc attributes", prog, &refuel, &|| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).expect("was there before")));
        if let Err(e) = e { rep.fail("soc attributes.panic", format!("soc attributes: panicked: {}", e)); }
    }
    go!("cpu topology", || c.get_extended_cpu_topology(), Some(|i| format!("{:?}", i)), |n| dead(0x8000_0026, 2, 0xff00, n));
}
