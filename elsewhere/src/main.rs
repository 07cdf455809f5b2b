//! Answers everything about the processors it is sent, on a processor that is no x86 one.
#![allow(dead_code)]
extern crate alloc;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/table.rs"]
mod table;

use std::io::{Read, Write};

fn main() {
    obs::install_panic_hook();
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    loop {
        let mut n = [0u8; 4];
        if inp.read_exact(&mut n).is_err() { return; }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if inp.read_exact(&mut b).is_err() { return; }
        // the names of structures, a newline, rows of leaf, sub-leaf and four registers
        let end = b.iter().position(|x| *x == b'\n').expect("names");
        let names: Vec<&str> = std::str::from_utf8(&b[..end]).expect("names").split(' ').filter(|x| !x.is_empty()).collect();
        let words: Vec<u32> = b[end + 1..].chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let mut t = table::Table::new();
        if words[0] == 1 { t.noise = Some(words[1] as u64 | (words[2] as u64) << 32); }
        for r in words[3..].chunks_exact(6) { t.set(r[0], r[1], [r[2], r[3], r[4], r[5]]); }
        let text = obs::dump_of(&t, &names[1..], names[0] == "all");
        if write!(out, "{}\n\u{1}END ok\n", text).and_then(|_| out.flush()).is_err() { return; }
    }
}
