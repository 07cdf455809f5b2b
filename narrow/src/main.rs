//! Answers everything about the processors it is sent, built for a 32-bit processor. There is no standard library for
//! one here, so it makes do without: Linux is asked directly, and a panic ends the process.
#![no_std]
#![no_main]
#![allow(dead_code)]
extern crate alloc;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/table.rs"]
mod table;

use alloc::{string::String, vec, vec::Vec};
use core::alloc::{GlobalAlloc, Layout};
use core::fmt::Write;

/// One case's memory, in pieces of powers of two, given back as a whole afterwards.
struct Heap;
const SIZE: usize = 1 << 29;
#[repr(align(4096))]
struct Space([u8; SIZE]);
static mut HEAP: Space = Space([0; SIZE]);
static mut USED: usize = 0;
static mut FREE: [*mut u8; 32] = [core::ptr::null_mut(); 32];
/// The number of bits of the size of the piece that holds this.
fn class(l: Layout) -> usize { l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize }
unsafe fn forget() { USED = 0; FREE = [core::ptr::null_mut(); 32]; }
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = class(l);
        let p = FREE[k];
        if !p.is_null() { FREE[k] = *(p as *mut *mut u8); return p; }
        let size = 1usize << k;
        let at = (USED + size.min(4096) - 1) & !(size.min(4096) - 1);
        if SIZE - at < size { return core::ptr::null_mut(); }
        USED = at + size;
        (&raw mut HEAP as *mut u8).add(at)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = class(l);
        *(p as *mut *mut u8) = FREE[k];
        FREE[k] = p;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = Layout::from_size_align_unchecked(n, l.align());
        if class(l) == class(m) { return p; }
        let q = self.alloc(m);
        if !q.is_null() { core::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
#[global_allocator]
static GLOBAL: Heap = Heap;

unsafe fn call(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    core::arch::asm!("push ebx", "mov ebx, {a}", "int 0x80", "pop ebx", a = in(reg) a, inlateout("eax") n as isize => r, in("ecx") b, in("edx") c);
    r
}
fn exit(code: usize) -> ! { loop { unsafe { call(1, code, 0, 0); } } }
fn write(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { call(4, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 { exit(4) }
        b = &b[n as usize..];
    }
}
fn read(b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { call(3, 0, b[at..].as_mut_ptr() as usize, b.len() - at) };
        if n <= 0 { return false; }
        at += n as usize;
    }
    true
}

struct Out;
impl Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { write(s.as_bytes()); Ok(()) } }

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    let _ = write!(Out, "\n\u{1}END ");
    // on one line
    struct Flat;
    impl Write for Flat { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { write(&[if b == b'\n' { b' ' } else { b }]); } Ok(()) } }
    let _ = write!(Flat, "panic: {}", i);
    write(b"\n");
    exit(101)
}

core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call {main}", "ud2", main = sym main);

/// What the processor at hand says, by the compiler's intrinsic.
fn real(l: u32, s: u32) -> [u32; 4] {
    #[allow(unused_unsafe)]
    let r = unsafe { core::arch::x86::__cpuid_count(l, s) };
    [r.eax, r.ebx, r.ecx, r.edx]
}
/// What `f` yields between two equal readings of the truth.
fn steady<T: PartialEq>(truth: impl Fn() -> T, f: impl Fn() -> T) -> Option<(T, T)> {
    for _ in 0..20 {
        let a = truth();
        let x = f();
        if truth() == a { return Some((a, x)); }
    }
    None
}
/// Keeps this process on the core it is on: cores differ in what they answer.
fn stay() {
    static mut DONE: bool = false;
    unsafe {
        if DONE { return; }
        DONE = true;
        let mut cpu = 0u32;
        if call(318, &raw mut cpu as usize, 0, 0) == 0 && cpu < 1024 {
            let mut set = [0u32; 32];
            set[cpu as usize / 32] |= 1 << (cpu % 32);
            call(241, 0, 128, set.as_ptr() as usize);
        }
    }
}
/// Readings of the processor at hand in every way the library offers, against the intrinsic's.
fn native(rows: &[u32]) {
    use raw_cpuid::{cpuid, native_cpuid, CpuId, CpuIdReader, CpuIdReaderNative, CpuIdResult};
    stay();
    let regs = |r: CpuIdResult| [r.eax, r.ebx, r.ecx, r.edx];
    for r in rows.chunks_exact(6) {
        let (how, l, s) = (r[2] % 5, r[0], r[1]);
        let s = if how == 0 || how == 3 { 0 } else { s };
        let ask = || regs(match how { 0 => cpuid!(l), 1 => cpuid!(l, s), 2 => native_cpuid::cpuid_count(l, s), 3 => CpuIdReaderNative.cpuid1(l), _ => CpuIdReaderNative.cpuid2(l, s) });
        let Some((want, got)) = steady(|| real(l, s), ask) else { continue };
        let bad = want != got && (0..3).all(|_| steady(|| real(l, s), ask).map_or(true, |(w, g)| w != g));
        let _ = write!(Out, "{} {} {} {:#x} {:#x} {:x?} {:x?}\n", if bad { "differs" } else { "same" }, u8::from(want != [0; 4]), how, l, s, got, want);
    }
    let truth = || alloc::format!("{:?}", CpuId::with_cpuid_reader(|l, s| { let r = real(l, s); CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] } }));
    for k in 0..3 {
        let ask = || match k { 0 => alloc::format!("{:?}", CpuId::new()), 1 => alloc::format!("{:?}", CpuId::default()), _ => alloc::format!("{:?}", CpuId::with_cpuid_reader(CpuIdReaderNative)) };
        let Some((want, got)) = steady(truth, ask) else { continue };
        let at = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        let bad = want != got && (0..3).all(|_| steady(truth, ask).map_or(true, |(w, g)| w != g));
        let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(120).filter(|c| *c != '\n').collect::<String>();
        let _ = write!(Out, "{} 1 handle {} {} {}\n", if bad { "differs" } else { "same" }, k, cut(&got), cut(&want));
    }
    write("\u{1}END ok\n".as_bytes());
}

extern "C" fn main() -> ! {
    loop {
        unsafe { forget(); }
        let mut n = [0u8; 4];
        if !read(&mut n) { exit(0) }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if !read(&mut b) { exit(0) }
        // the names of structures, a newline, rows of leaf, sub-leaf and four registers
        let end = b.iter().position(|x| *x == b'\n').expect("names");
        let names: Vec<&str> = core::str::from_utf8(&b[..end]).expect("names").split(' ').filter(|x| !x.is_empty()).collect();
        let words: Vec<u32> = b[end + 1..].chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let mut t = table::Table::new();
        if words[0] == 1 { t.noise = Some(words[1] as u64 | (words[2] as u64) << 32); }
        for r in words[3..].chunks_exact(6) { t.set(r[0], r[1], [r[2], r[3], r[4], r[5]]); }
        if names == ["native"] { native(&words[3..]); continue; }
        let text: String = obs::dump(&t, &names);
        write(text.as_bytes());
        write("\n\u{1}END ok\n".as_bytes());
    }
}
