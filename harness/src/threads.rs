//! Questions asked on several threads at once.

use crate::engine::{Case, Prop, Report};
use crate::equal::other;
use crate::gen::{bound, Gen, Rng};
use crate::obs::{self, caught, Map, GROUPS, V};
use crate::props::{full, STANDIN};
use crate::table::*;
use raw_cpuid::*;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub fn props() -> Vec<Prop> { vec![threads()] }

type Seen = (Map, Vec<(&'static str, u32, V)>);

const TURNS: u32 = 0;
const FREE: u32 = 1;
const SHARED: u32 = 2;

// --- One at a time, handing over where the schedule says so ---------------------------
/// How long a thread waits for another that does not come to its next read or question.
const PATIENCE: Duration = Duration::from_millis(40);

struct Baton { at: Mutex<At>, bell: Condvar }
struct At { turn: usize, over: [bool; 2], pos: usize, handed: u64, stuck: bool }

impl Baton {
    fn new() -> Baton { Baton { at: Mutex::new(At { turn: 0, over: [false; 2], pos: 0, handed: 0, stuck: false }), bell: Condvar::new() } }
    fn wait<'a>(&self, mut at: std::sync::MutexGuard<'a, At>, me: usize) {
        let mut seen = at.pos;
        while at.turn != me && !at.over[1 - me] && !at.stuck {
            let (a, t) = self.bell.wait_timeout(at, PATIENCE).expect("lock");
            at = a;
            // It waits for something this thread holds: from here on both run as they like.
            if t.timed_out() && at.pos == seen { at.stuck = true; self.bell.notify_all(); }
            seen = at.pos;
        }
    }
    fn start(&self, me: usize) { let at = self.at.lock().expect("lock"); self.wait(at, me); }
    /// A point at which the other thread may take over.
    fn point(&self, me: usize, schedule: &[u32]) {
        let mut at = self.at.lock().expect("lock");
        if at.stuck || at.over[1 - me] || schedule.is_empty() { return; }
        let k = at.pos;
        at.pos += 1;
        if schedule[k / 32 % schedule.len()] >> (k % 32) & 1 == 0 { return; }
        at.turn = 1 - me;
        at.handed += 1;
        self.bell.notify_all();
        self.wait(at, me);
    }
    fn finish(&self, me: usize) {
        let mut at = self.at.lock().expect("lock");
        at.over[me] = true;
        self.bell.notify_all();
    }
}

/// Everything asked of a processor, alone or with others about.
fn ask(t: &Table, groups: &[&'static str], step: Option<Rc<dyn Fn()>>) -> Result<Vec<Seen>, String> {
    let r = TableReader::stepping(t, step.clone());
    caught(|| {
        let id = CpuId::with_cpuid_reader(r.clone());
        groups.iter().map(|g| {
            r.refuel();
            let mut o = obs::Obs { want_debug: true, pause: step.clone(), ..obs::Obs::default() };
            obs::observe_group(&mut o, &id, g);
            (o.m, o.dbg)
        }).collect()
    })
}

fn judge(rep: &mut Report, who: usize, how: &str, groups: &[&'static str], want: &Result<Vec<Seen>, String>, got: &Result<Vec<Seen>, String>) {
    let (Ok(want), Ok(got)) = (want, got) else {
        if want.is_ok() { rep.fail("panic", format!("{}: thread {} panicked: {:?}", how, who, got.as_ref().err())); }
        return;
    };
    for (g, (w, x)) in groups.iter().zip(want.iter().zip(got)) {
        rep.compared += w.0.len() as u64;
        if w != x {
            let k = w.0.keys().chain(x.0.keys()).find(|k| w.0.get(k) != x.0.get(k));
            rep.fail(format!("{}.disturbed", g), format!("{}: thread {} gets other answers for {} than when asking alone: {:?}", how, who, g,
                k.map(|k| (k.to_string(), x.0.get(k), w.0.get(k))).map(|x| format!("{:?}", x)).unwrap_or("in its text".into())));
            return;
        }
    }
}

fn turns(rep: &mut Report, ts: &[Table; 2], groups: &[&'static str], schedule: &[u32]) {
    let want = [ask(&ts[0], groups, None), ask(&ts[1], groups, None)];
    let baton = Arc::new(Baton::new());
    let sched: Arc<[u32]> = schedule.into();
    let got: Vec<Result<Vec<Seen>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2).map(|me| {
            let (b, t, sched) = (baton.clone(), &ts[me], sched.clone());
            s.spawn(move || {
                b.start(me);
                let (b2, sched2) = (b.clone(), sched.clone());
                let x = ask(t, groups, Some(Rc::new(move || b2.point(me, &sched2))));
                b.finish(me);
                x
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let at = baton.at.lock().expect("lock");
    if at.handed > 0 && want[0] != want[1] { rep.nontrivial = true; rep.tags.push("turns handed over"); }
    if at.stuck { rep.tags.push("a thread had to wait"); }
    for k in 0..2 { judge(rep, k, &format!("taking turns ({} times)", at.handed), groups, &want[k], &got[k]); }
    rep.fails.truncate(1);
}

// --- All at once -----------------------------------------------------------------------
fn free(rep: &mut Report, ts: &[Table; 2], groups: &[&'static str]) {
    const THREADS: usize = 6;
    let want = [ask(&ts[0], groups, None), ask(&ts[1], groups, None)];
    let quick = [hurry(&ts[0], groups), hurry(&ts[1], groups)];
    let gate = std::sync::Barrier::new(THREADS);
    let (want, quick, gate) = (&want, &quick, &gate);
    let done: Vec<(u64, Option<Result<Vec<Seen>, String>>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS).map(|me| {
            let t = &ts[me % 2];
            s.spawn(move || {
                let w = me % 2;
                gate.wait();
                let x = ask(t, groups, None);
                if x != want[w] { return (1, Some(x)); }
                // and over and over, for a moment
                let t0 = std::time::Instant::now();
                let mut n = 1;
                while n < 400 && t0.elapsed() < Duration::from_millis(4) {
                    let x = hurry(t, groups);
                    n += 1;
                    if x != quick[w] { return (n, Some(x)); }
                }
                (n, None)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (0, Some(Err("thread died".into()))))).collect()
    });
    if want[0] != want[1] { rep.nontrivial = true; rep.tags.push("at once"); }
    for (k, (n, b)) in done.iter().enumerate() {
        rep.compared += quick[k % 2].as_ref().map(|w| w.iter().map(|x| x.0.len() as u64).sum()).unwrap_or(0) * n;
        if let Some(b) = b { judge(rep, k, "all at once", groups, if *n == 1 { &want[k % 2] } else { &quick[k % 2] }, b); }
    }
    rep.fails.truncate(1);
}
/// The same without texts.
fn hurry(t: &Table, groups: &[&'static str]) -> Result<Vec<Seen>, String> {
    let r = TableReader::new(t);
    caught(|| {
        let id = CpuId::with_cpuid_reader(r.clone());
        groups.iter().map(|g| { let o = obs::observe_with(&id, &[g], &r, false); (o.m, o.dbg) }).collect()
    })
}

// --- One handle for all ----------------------------------------------------------------
#[derive(Clone)]
pub struct Common(Arc<Table>);
impl CpuIdReader for Common { fn cpuid2(&self, l: u32, s: u32) -> CpuIdResult { res(self.0.get(l, s)) } }

/// Whether a type may be handed to, and looked at from, another thread.
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSend { const SEND: bool = false; }
#[allow(dead_code)]
trait NotSync { const SYNC: bool = false; }
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
#[allow(dead_code)]
impl<T: Send> Probe<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: Sync> Probe<T> { const SYNC: bool = true; }
macro_rules! kinds { ($($t:ty),* $(,)?) => { &[$((stringify!($t), Probe::<$t>::SEND, Probe::<$t>::SYNC)),*] } }
static KINDS: &[(&str, bool, bool)] = kinds!(CpuId<Common>, CpuIdReaderNative, CpuId<CpuIdReaderNative>, CpuIdResult, VendorInfo, CacheInfoIter, CacheInfoType, CacheInfo, ProcessorSerial, FeatureInfo,
    CacheParametersIter<Common>, CacheParameter, CacheType, MonitorMwaitInfo, ThermalPowerInfo, ExtendedFeatures, DirectCacheAccessInfo, PerformanceMonitoringInfo,
    ExtendedTopologyIter<Common>, ExtendedTopologyLevel, TopologyType, ExtendedStateInfo<Common>, ExtendedStateIter<Common>, ExtendedRegisterType, ExtendedRegisterStateLocation, ExtendedState,
    RdtMonitoringInfo<Common>, L3MonitoringInfo, RdtAllocationInfo<Common>, L3CatInfo, L2CatInfo, MemBwAllocationInfo, SgxInfo<Common>, SgxSectionIter<Common>, SgxSectionInfo, EpcSection,
    ProcessorTraceInfo, TscInfo, ProcessorFrequencyInfo, DatIter<Common>, DatInfo, DatType, SoCVendorInfo<Common>, SoCVendorAttributesIter<Common>, SoCVendorBrand, HypervisorInfo<Common>, Hypervisor,
    ExtendedProcessorFeatureIdentifiers, ProcessorBrandString, L1CacheTlbInfo, L2And3CacheTlbInfo, Associativity, ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, Tlb1gbPageInfo,
    PerformanceOptimizationInfo, InstructionBasedSamplingCapabilities, ProcessorTopologyInfo, MemoryEncryptionInfo, PqosExtendedFeatureInfo<Common>, L3MemoryBandwidthEnforcementInformation,
    BandwidthMonitoringEventCounters, AssignableBandwidthMonitoringCounterInfo, ExtendedFeatureIdentification2, ExtendedPerformanceMonitoringDebug, MultiKeyEncryptedMemoryCapabilities,
    ExtendedCpuTopologyIter<Common>, ExtendedCpuTopologyLevel, HierarchyLevelType);

/// Lets this crate build where a handle may not be shared; then it is not.
struct Lend<T>(T);
unsafe impl<T> Send for Lend<T> {}
unsafe impl<T> Sync for Lend<T> {}
impl<T> Lend<T> { fn get(&self) -> &T { &self.0 } fn take(self) -> T { self.0 } }

/// The texts of a handle, of the structures it hands out, and of all their items.
fn texts(id: &CpuId<Common>, first: usize) -> Result<Vec<String>, String> {
    let mut out = vec![String::new(); 10];
    for k in 0..10 {
        let k = (k + first) % 10;
        out[k] = caught(|| match k {
            0 => format!("{:?}", id),
            1 => format!("{:?}", id.get_cache_parameters().map(|x| x.take(700).collect::<Vec<_>>())),
            2 => format!("{:?}", id.get_extended_topology_info().map(|x| x.take(700).collect::<Vec<_>>())),
            3 => format!("{:?}", id.get_extended_topology_info_v2().map(|x| x.take(700).collect::<Vec<_>>())),
            4 => format!("{:?}", id.get_extended_state_info().map(|x| x.iter().collect::<Vec<_>>())),
            5 => format!("{:?}", id.get_sgx_info().map(|x| x.iter().take(700).collect::<Vec<_>>())),
            6 => format!("{:?}", id.get_deterministic_address_translation_info().map(|x| x.take(700).collect::<Vec<_>>())),
            7 => format!("{:?}", id.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).map(|x| x.take(700).collect::<Vec<_>>())),
            8 => format!("{:?} {:?}", id.get_extended_cpu_topology().map(|x| x.take(700).collect::<Vec<_>>()), id.get_processor_brand_string().map(|x| x.as_str().to_string())),
            _ => format!("{:?} {:?}", id.get_vendor_info().map(|x| x.as_str().to_string()), id.get_pqos_extended_feature_info()),
        })?;
    }
    Ok(out)
}

fn shared(rep: &mut Report, ts: &[Table; 2], rounds: u32) {
    for (name, send, sync) in KINDS {
        rep.compared += 2;
        if !send { rep.fail(format!("{}.send", name), format!("{} over a reader that can be sent to another thread cannot be", name)); }
        if !sync { rep.fail(format!("{}.sync", name), format!("{} over a reader that threads can share cannot be shared", name)); }
    }
    if !rep.fails.is_empty() { rep.fails.truncate(1); return; }
    let made: Result<Vec<CpuId<Common>>, String> = ts.iter().map(|t| caught(|| CpuId::with_cpuid_reader(Common(Arc::new(t.clone()))))).collect();
    let Ok(ids) = made else { rep.fail("construction", "constructing panicked"); return };
    let want: Vec<_> = ids.iter().map(|id| texts(id, 0)).collect();
    let ids = Lend(ids);
    let gate = std::sync::Barrier::new(4);
    let got: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|me| {
            let (ids, want, gate) = (&ids, &want, &gate);
            // two work on the handles themselves, one on copies, one on copies made in another thread
            let sent = (me == 3).then(|| Lend(ids.get().clone()));
            s.spawn(move || {
                let mine: Option<Vec<CpuId<Common>>> = match me { 0 | 1 => None, 2 => Some(ids.get().clone()), _ => sent.map(|x| x.take()) };
                let ids = mine.as_ref().unwrap_or(ids.get());
                gate.wait();
                let mut bad = vec![];
                for k in 0..rounds {
                    let which = (me + k as usize) % 2;
                    let x = texts(&ids[which], if me == 0 { 0 } else { k as usize % 10 });
                    if x != want[which] {
                        let d = match (&x, &want[which]) { (Ok(a), Ok(b)) => a.iter().zip(b).find(|(a, b)| a != b).map(|(a, b)| format!("{} instead of {}", crate::iters::clip(a), crate::iters::clip(b))), _ => None };
                        bad.push(d.unwrap_or_else(|| format!("{:?}", x.err())));
                        break;
                    }
                }
                bad
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["thread died".into()])).collect()
    });
    rep.compared += 40 * rounds as u64;
    if want[0] != want[1] { rep.nontrivial = true; rep.tags.push("one handle for all"); }
    for (k, bad) in got.iter().enumerate() { for b in bad { rep.fail("shared.disturbed", format!("sharing a handle: thread {} gets {}", k, b)); } }
    rep.fails.truncate(1);
}

fn threads() -> Prop {
    Prop {
        id: "C33",
        rule: "two processors, the same questions asked of each on a thread of its own: taking turns, where a generated schedule says at each read of the processor and at each question whether the other thread goes on (every group of questions, every schedule of one hand-over at the k-th point there and one back, then random ones); all at once; and on one handle that the threads share. Each answer and text is compared with that of a thread asking alone. Non-trivial: the threads ran in between one another and the two processors differ",
        assumptions: &[STANDIN],
        sweep_len: Box::new(|_, th| GROUPS.len() as u64 * if th { 1200 } else { 90 }),
        sweep: Box::new(|g, r, k, th| {
            let per = if th { 1200 } else { 90 };
            let grp = GROUPS[(k / per) as usize];
            let k = k % per;
            let v = r.below(4);
            let t = full(g, r, v, &[grp], 2);
            let mut t2 = if r.pct(80) { let v = r.below(4); full(g, r, v, &[grp], 2) } else { other(g, r, &t, grp, 1) };
            bound(&mut t2);
            let mode = if k % 30 == 29 { if k % 60 == 29 { FREE } else { SHARED } } else { TURNS };
            // over to the other at point `k`, back after 1, 3, 9 or all of its points
            let first = (k / 2) as usize;
            let len = [1, 3, 9, 4096][(k % 4) as usize];
            let mut bits = vec![0u32; (first + len.min(200)) / 32 + 2];
            for b in [first, first + len] { if b / 32 < bits.len() { bits[b / 32] |= 1 << (b % 32); } }
            bits.resize(bits.len().max(64), 0);
            let mut prog = vec![mode];
            prog.extend(bits);
            Case { t, t2: Some(t2), groups: vec![grp], prog }
        }),
        random: (9_000, 250_000),
        gen: Box::new(|g: &Gen, r: &mut Rng| {
            let mut gs: Vec<&'static str> = (0..r.range(1, 3)).map(|_| *r.pick(GROUPS)).collect();
            gs.dedup();
            let t = if r.one_in(4) { g.table(r, &gs) } else { let v = r.below(4); full(g, r, v, &gs, 2) };
            let mut t2 = t.clone();
            if r.one_in(2) { let v = r.below(4); t2 = full(g, r, v, &gs, 2); } else { for grp in &gs { let style = r.below(7); t2 = other(g, r, &t2, grp, style); } }
            bound(&mut t2);
            let mode = match r.below(20) { 0..=16 => TURNS, 17 | 18 => FREE, _ => SHARED };
            let dense = r.below(4);
            let n = r.range(1, 6);
            let mut prog = vec![mode];
            prog.extend((0..n).map(|_| match dense { 0 => r.u32() & r.u32() & r.u32() & r.u32(), 1 => r.u32() & r.u32() & r.u32(), 2 => r.u32() & r.u32(), _ => 1 << r.below(32) }));
            Case { t, t2: Some(t2), groups: gs, prog }
        }),
        check: Box::new(check),
        single: true,
    }
}

fn check(c: &Case) -> Report {
    let mut rep = Report::default();
    let Some(t2) = &c.t2 else { return rep };
    let Some((mode, schedule)) = c.prog.split_first() else { return rep };
    if c.groups.is_empty() { return rep; }
    let ts = [c.t.clone(), t2.clone()];
    match mode % 3 {
        TURNS => turns(&mut rep, &ts, &c.groups, schedule),
        FREE => free(&mut rep, &ts, &c.groups),
        _ => shared(&mut rep, &ts, 6),
    }
    rep
}
