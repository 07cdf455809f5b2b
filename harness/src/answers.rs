//! Compares every answer with the reference model.

use crate::engine::{Case, Report};
use crate::model::{self};
use crate::obs::{self, Key, Map, NOIDX, V};
use crate::table::*;
use raw_cpuid::CpuId;
use std::collections::HashSet;
use std::sync::OnceLock;

pub fn is_flag(k: &Key) -> bool {
    static S: OnceLock<HashSet<(&'static str, &'static str)>> = OnceLock::new();
    S.get_or_init(|| crate::spec::FLAGS.iter().map(|f| (f.g, f.f)).collect()).contains(&(k.g, k.f))
}

/// Components of the XSAVE list that no manual defines may or may not be listed.
fn tolerate_xsave(t: &Table, exp: &Map, got: &mut Map) {
    let declared = t.get(0xd, 0)[EAX] | t.get(0xd, 1)[ECX];
    let g = "xsave";
    let order: Vec<u32> = got.iter().filter(|(k, _)| k.g == g && k.f == "order").filter_map(|(_, v)| if let V::U(u) = v { Some(*u as u32) } else { None }).collect();
    let known: Vec<u32> = exp.iter().filter(|(k, _)| k.g == g && k.f == "order").filter_map(|(_, v)| if let V::U(u) = v { Some(*u as u32) } else { None }).collect();
    let extra: Vec<u32> = order.iter().cloned().filter(|k| *k >= 2 && *k < 32 && declared >> k & 1 == 1 && !known.contains(k)).collect();
    if extra.is_empty() { return; }
    let doomed: Vec<Key> = got.keys().filter(|k| k.g == g && k.i != NOIDX && (k.f == "order" || extra.contains(&k.i))).cloned().collect();
    for k in doomed { got.remove(&k); }
    let keep: Vec<u32> = order.into_iter().filter(|k| !extra.contains(k)).collect();
    for (i, k) in keep.iter().enumerate() { got.insert(Key { g, f: "order", i: i as u32 }, V::U(*k as u128)); }
    if let Some(V::U(n)) = got.get(&Key { g, f: "len", i: NOIDX }).cloned() { got.insert(Key { g, f: "len", i: NOIDX }, V::U(n - extra.len() as u128)); }
}

/// The recorded finding: descriptor 0xC3 is not in the library's table. The rest of the list is
/// compared as if the processor had not listed it.
fn without_c3(exp: &mut Map, got: &Map) -> bool {
    let g = "cache_info";
    let nums = |m: &Map| m.iter().filter(|(k, _)| k.g == g && k.f == "num").map(|(k, v)| (k.i, v.clone())).collect::<Vec<_>>();
    let c3 = V::U(0xc3);
    let gone: Vec<u32> = nums(exp).into_iter().filter(|x| x.1 == c3).map(|x| x.0).collect();
    if gone.is_empty() || nums(got).iter().any(|x| x.1 == c3) { return false; }
    let items: Vec<(Key, V)> = exp.iter().filter(|(k, _)| k.g == g && k.i != NOIDX).map(|(k, v)| (*k, v.clone())).collect();
    for (k, _) in &items { exp.remove(k); }
    for (k, v) in items {
        if gone.contains(&k.i) { continue; }
        let i = k.i - gone.iter().filter(|x| **x < k.i).count() as u32;
        exp.insert(Key { i, ..k }, v);
    }
    let len = Key { g, f: "len", i: NOIDX };
    if let Some(V::U(n)) = exp.get(&len).cloned() { exp.insert(len, V::U(n - gone.len() as u128)); }
    true
}

/// Asks `case.groups` and compares what `owns` selects.
pub fn compare(case: &Case, owns: &dyn Fn(&Key) -> bool) -> Report {
    let mut rep = Report::default();
    rep.tags.push(match model::vendor(&case.t) { model::Ven::Intel => "vendor intel", model::Ven::Amd => "vendor amd or hygon", model::Ven::Other => "vendor other" });
    if case.t.noise.is_some() { rep.tags.push("garbage in undefined leaves"); }
    let r = TableReader::new(&case.t);
    let c = match obs::caught(|| CpuId::with_cpuid_reader(r.clone())) {
        Ok(c) => c,
        Err(e) => { rep.fail("construction", format!("constructing panicked: {}", e)); return rep; }
    };
    let mut exp = model::model(&case.t, &case.groups);
    let mut got = obs::observe(&c, &case.groups, &r).m;
    if case.groups.contains(&"xsave") { tolerate_xsave(&case.t, &exp, &mut got); }
    if without_c3(&mut exp, &got) && owns(&Key { g: "cache_info", f: "num", i: 0 }) {
        rep.fails.push(crate::engine::Fail { kind: "cache_info.num".into(), known: Some("leaf2-c3-missing"),
            detail: "leaf 2 lists descriptor 0xC3, the answer does not".into() });
    }
    let mut lively = false;
    let (mut reported, mut more) = (false, false);
    let mut any_present = false;
    for g in &case.groups {
        let key = Key { g, f: "present", i: NOIDX };
        let (e, o) = (&exp[&key], &got[&key]);
        if owns(&key) {
            rep.compared += 1;
            if !e.accepts(o) { rep.fail(format!("{}", key), format!("{}: expected {:?}, got {:?}", key, e, o)); }
            if *e == V::B(true) { reported = true; }
        }
        if *e != V::B(true) || *o != V::B(true) { continue; }
        any_present = true;
    }
    if any_present { rep.tags.push("structure present"); }
    let there = |g: &str| {
        exp.get(&Key { g: unstatic(g), f: "present", i: NOIDX }) == Some(&V::B(true)) && got.get(&Key { g: unstatic(g), f: "present", i: NOIDX }) == Some(&V::B(true))
    };
    for (k, e) in &exp {
        if k.f == "present" || !owns(k) || !there(k.g) { continue; }
        rep.compared += 1;
        more = true;
        match got.get(k) {
            None => {
                // an item that is not there shows in the length too
                rep.fail(format!("{}.{}", k.g, k.f), format!("{}: expected {:?}, but there is no such item", k, e));
            }
            Some(o) => {
                if !e.accepts(o) {
                    let mut detail = format!("{}: expected {:?}, got {:?}", k, e, o);
                    let mut known = None;
                    if let (V::U(x), V::U(y)) = (e, o) {
                        if k.g == "tlb1g" && k.f.ends_with("_1gb_size") && *x > 255 && *y == *x & 0xff {
                            known = Some("tlb-1gb-size-truncated");
                            detail = format!("{}: the field says {}, the answer is {}", k, x, y);
                        }
                    }
                    rep.fails.push(crate::engine::Fail { kind: format!("{}.{}", k.g, k.f), detail, known });
                }
                if !matches!(o, V::B(false) | V::U(0)) && *o != V::S(String::new()) { lively = true; }
            }
        }
    }
    for (k, o) in &got {
        if exp.contains_key(k) || k.f == "present" || !owns(k) || !there(k.g) { continue; }
        // After a level of an undefined type a topology list may go on.
        if (k.g == "topology" || k.g == "topology_v2") && exp.get(&Key { g: k.g, f: "len", i: NOIDX }) == Some(&V::Any) && !matches!(o, V::Panic(_)) {
            // What passes for a level of a defined type there is one further on.
            if k.f == "level_type" && !passes(&case.t, k, o, &got) { rep.fail(format!("{}.reserved", k.g), format!("{}: {:?}, but no level there is of that type", k, o)); }
            continue;
        }
        rep.fail(format!("{}.{}", k.g, k.f), format!("{}: got {:?}, expected no such answer", k, o));
    }
    rep.nontrivial = lively || reported && !more;
    rep
}

/// Whether an item of a topology list that is of a defined type is one of the levels enumerated.
fn passes(t: &crate::table::Table, k: &Key, o: &V, got: &obs::Map) -> bool {
    let V::S(ty) = o else { return true };
    if ty == "Invalid" { return true; }
    let leaf = if k.g == "topology" { 0xb } else { 0x1f };
    let says = |f: &'static str, n: u32| got.get(&Key { g: k.g, f, i: k.i }) == Some(&V::U(n as u128));
    // a reader that never ends is walked to a limit
    (k.i..k.i.saturating_add(obs::ITER_LIMIT as u32)).any(|i| {
        let r = t.get(leaf, i);
        model::topo_type((r[2] >> 8 & 0xff) as u64) == Some(ty.as_str()) && says("x2apic_id", r[3]) && says("processors", r[1] & 0xffff) && says("level_number", r[2] & 0xff)
    })
}

fn unstatic(g: &str) -> &'static str {
    obs::GROUPS.iter().find(|x| **x == g).unwrap_or(&"")
}
