//! The generated input: the complete answer table of a simulated processor.

use raw_cpuid::{CpuIdReader, CpuIdResult};
use alloc::{collections::BTreeMap, rc::Rc};
use core::cell::{Cell, RefCell};
#[cfg(not(feature = "bare"))]
use serde_json::{json, Value};

pub const EAX: usize = 0;
pub const EBX: usize = 1;
pub const ECX: usize = 2;
pub const EDX: usize = 3;
pub const REGN: [&str; 4] = ["eax", "ebx", "ecx", "edx"];

pub type Regs = [u32; 4];

/// (leaf, subleaf) -> registers. What is not listed answers zeros, or, when
/// `noise` is set, arbitrary (but reproducible) garbage: real processors answer
/// garbage for leaves they do not define.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Table {
    pub m: BTreeMap<(u32, u32), Regs>,
    pub noise: Option<u64>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Table {
    pub fn new() -> Table {
        Table::default()
    }
    pub fn get(&self, leaf: u32, sub: u32) -> Regs {
        if let Some(r) = self.m.get(&(leaf, sub)) {
            return *r;
        }
        match self.noise {
            None => [0; 4],
            Some(s) => {
                let a = mix(s ^ mix(((leaf as u64) << 32) | sub as u64));
                let b = mix(a);
                [a as u32, (a >> 32) as u32, b as u32, (b >> 32) as u32]
            }
        }
    }
    pub fn set(&mut self, leaf: u32, sub: u32, r: Regs) {
        self.m.insert((leaf, sub), r);
    }
    pub fn reg_mut(&mut self, leaf: u32, sub: u32, reg: usize) -> &mut u32 {
        let cur = self.get(leaf, sub);
        &mut self.m.entry((leaf, sub)).or_insert(cur)[reg]
    }
    pub fn set_reg(&mut self, leaf: u32, sub: u32, reg: usize, v: u32) {
        *self.reg_mut(leaf, sub, reg) = v;
    }
    pub fn hash64(&self) -> u64 {
        let mut h = self.noise.unwrap_or(1);
        for (k, v) in &self.m {
            h = mix(h ^ (((k.0 as u64) << 32) | k.1 as u64));
            h = mix(h ^ (((v[0] as u64) << 32) | v[1] as u64));
            h = mix(h ^ (((v[2] as u64) << 32) | v[3] as u64));
        }
        h
    }
    #[cfg(not(feature = "bare"))]
    pub fn to_json(&self) -> Value {
        let rows: Vec<Value> = self
            .m
            .iter()
            .map(|(k, v)| {
                json!(format!(
                    "{:#010x}.{:#x}: eax={:#010x} ebx={:#010x} ecx={:#010x} edx={:#010x}",
                    k.0, k.1, v[0], v[1], v[2], v[3]
                ))
            })
            .collect();
        json!({ "leaves": rows, "noise": self.noise })
    }
    #[cfg(not(feature = "bare"))]
    pub fn from_json(v: &Value) -> Option<Table> {
        let mut t = Table::new();
        t.noise = v.get("noise").and_then(|n| n.as_u64());
        for row in v.get("leaves")?.as_array()? {
            let s = row.as_str()?.replace(": ", " ").replace('.', " ").replace('=', " ");
            let w: Vec<&str> = s.split_whitespace().collect();
            let p = |x: &str| u32::from_str_radix(x.trim_start_matches("0x"), 16).ok();
            t.set(p(w[0])?, p(w[1])?, [p(w[3])?, p(w[5])?, p(w[7])?, p(w[9])?]);
        }
        Some(t)
    }
}

pub fn res(r: Regs) -> CpuIdResult {
    CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
}

/// Reads a table; counts reads; refuses to go on for ever.
#[derive(Clone)]
pub struct TableReader {
    t: Rc<RefCell<Rc<Table>>>,
    pub fuel: Rc<Cell<u64>>,
    /// What happens at each read, apart from it.
    step: Option<Rc<dyn Fn()>>,
}

pub const FUEL: u64 = 300_000;
pub const FUEL_MSG: &str = "query did not finish within 300000 reads";

impl TableReader {
    pub fn new(t: &Table) -> TableReader {
        TableReader::stepping(t, None)
    }
    pub fn stepping(t: &Table, step: Option<Rc<dyn Fn()>>) -> TableReader {
        TableReader { t: Rc::new(RefCell::new(Rc::new(t.clone()))), fuel: Rc::new(Cell::new(FUEL)), step }
    }
    /// From now on this reader, and its copies, answer from another table.
    pub fn become_(&self, t: &Rc<Table>) { *self.t.borrow_mut() = t.clone(); }
    pub fn refuel(&self) {
        self.fuel.set(FUEL);
    }
}

/// Structures that keep their reader are compared by what else they hold.
impl PartialEq for TableReader { fn eq(&self, _: &TableReader) -> bool { true } }

impl CpuIdReader for TableReader {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let f = self.fuel.get();
        if f == 0 {
            panic!("{}", FUEL_MSG);
        }
        self.fuel.set(f - 1);
        if let Some(step) = &self.step { step(); }
        res(self.t.borrow().get(eax, ecx))
    }
}
