//! Answers with the digest of what the library says about the processors it is sent.
mod look;
use raw_cpuid::{CpuId, CpuIdResult};
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    loop {
        let mut n = [0u8; 4];
        if inp.read_exact(&mut n).is_err() { return; }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if inp.read_exact(&mut b).is_err() { return; }
        // the structure's name, a newline, rows of leaf, sub-leaf and four registers
        let end = b.iter().position(|x| *x == b'\n').expect("a name");
        let name = std::str::from_utf8(&b[..end]).expect("a name").to_string();
        let words: Vec<u32> = b[end + 1..].chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let rows: std::rc::Rc<Vec<[u32; 6]>> = std::rc::Rc::new(words.chunks_exact(6).map(|c| [c[0], c[1], c[2], c[3], c[4], c[5]]).collect());
        let r = move |l: u32, s: u32| {
            let r = rows.iter().find(|r| r[0] == l && r[1] == s).map(|r| [r[2], r[3], r[4], r[5]]).unwrap_or([0; 4]);
            CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
        };
        let mut d = look::Digest::default();
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| look::look(&CpuId::with_cpuid_reader(r), &name, 6, &mut d)));
        let how = match done { Ok(x) => x.to_string(), Err(_) => "panic".to_string() };
        let (sum, long) = d.sum();
        if write!(out, "{} {:016x} {}\n\u{1}END ok\n", how, sum, long).and_then(|_| out.flush()).is_err() { return; }
    }
}
