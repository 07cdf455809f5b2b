//! Answers everything about the processors it is sent, built without features and checks.
#![allow(dead_code)]
extern crate alloc;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/table.rs"]
mod table;

use std::io::{Read, Write};

fn main() {
    obs::install_panic_hook();
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    loop {
        let mut n = [0u8; 4];
        if inp.read_exact(&mut n).is_err() { return; }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if inp.read_exact(&mut b).is_err() { return; }
        let v: serde_json::Value = serde_json::from_slice(&b).expect("json");
        let t = table::Table::from_json(&v["processor"]).expect("table");
        let names: Vec<&str> = v["groups"].as_array().expect("groups").iter().filter_map(|x| x.as_str()).collect();
        let text = obs::dump(&t, &names);
        if write!(out, "{}\n\u{1}END ok\n", text).and_then(|_| out.flush()).is_err() { return; }
    }
}
