//! Child processes that print: what the library prints goes to standard output, which a process has
//! only one of, so each checking thread keeps a child of its own and reads what it prints.

use crate::table::Table;
use raw_cpuid::CpuId;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

const END: &str = "\u{1}END ";

pub struct Worker { child: Child, out: File, inp: Option<std::process::ChildStdin> }

impl Drop for Worker {
    fn drop(&mut self) { self.inp = None; let _ = self.child.kill(); let _ = self.child.wait(); }
}

/// A terminal 500 columns wide: (master, slave).
fn terminal() -> (File, File) {
    let (mut m, mut s) = (0, 0);
    let mut size: libc::winsize = unsafe { std::mem::zeroed() };
    size.ws_row = 50;
    size.ws_col = 500;
    unsafe {
        let mut raw: libc::termios = std::mem::zeroed();
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size) != 0 { panic!("no pseudo-terminal: {}", std::io::Error::last_os_error()); }
        if libc::tcgetattr(s, &mut raw) == 0 { libc::cfmakeraw(&mut raw); libc::tcsetattr(s, libc::TCSANOW, &raw); }
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        (File::from_raw_fd(m), File::from_raw_fd(s))
    }
}

/// Runs a command to its end: what it printed and the code it ended with. On a terminal, or into a pipe.
pub fn run_once(exe: &std::path::Path, args: &[String], tty: bool) -> (String, Option<i32>) {
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null()).stderr(Stdio::null());
    let mut master = None;
    if tty { let (m, s) = terminal(); c.stdout(s); master = Some(m); } else { c.stdout(Stdio::piped()); }
    unsafe { c.pre_exec(move || { if tty { libc::setsid(); } libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::alarm(20); Ok(()) }); }
    let mut child = c.spawn().expect("cannot start the command");
    drop(c);
    let mut out = match master { Some(m) => m, None => { use std::os::fd::OwnedFd; File::from(OwnedFd::from(child.stdout.take().unwrap())) } };
    let mut all = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop { match out.read(&mut buf) { Ok(0) | Err(_) => break, Ok(n) => all.extend_from_slice(&buf[..n]) } }
    let code = child.wait().ok().and_then(|s| s.code());
    (String::from_utf8_lossy(&all).into_owned(), code)
}

impl Worker {
    /// `exe args...` as a child; `tty`: with a terminal as its standard output.
    pub fn start(exe: &std::path::Path, args: &[&str], tty: bool) -> Worker { Worker::with(exe, args, tty, |_| {}) }
    pub fn with(exe: impl AsRef<std::ffi::OsStr>, args: &[&str], tty: bool, more: impl FnOnce(&mut Command)) -> Worker {
        let mut c = Command::new(exe);
        c.args(args).stdin(Stdio::piped()).stderr(Stdio::inherit());
        more(&mut c);
        let mut master = None;
        if tty { let (m, s) = terminal(); c.stdout(s); master = Some(m); } else { c.stdout(Stdio::piped()); }
        unsafe { c.pre_exec(move || { if tty { libc::setsid(); } libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        let mut child = c.spawn().expect("cannot start the printing process");
        drop(c);
        let inp = child.stdin.take();
        let out = match master { Some(m) => m, None => { use std::os::fd::OwnedFd; File::from(OwnedFd::from(child.stdout.take().unwrap())) } };
        Worker { child, out, inp }
    }
    pub fn own(kind: &str, tty: bool) -> Worker {
        Worker::start(&std::env::current_exe().expect("exe"), &["worker", kind], tty)
    }
    /// What the child printed, and how it ended: Ok, a panic message, or the death of the child.
    pub fn ask(&mut self, msg: &str) -> (String, Result<(), String>) { self.ask_bytes(msg.as_bytes()) }
    pub fn ask_bytes(&mut self, msg: &[u8]) -> (String, Result<(), String>) {
        let mut all: Vec<u8> = Vec::new();
        let sent = {
            let w = self.inp.as_mut().unwrap();
            w.write_all(&(msg.len() as u32).to_le_bytes()).and_then(|_| w.write_all(msg)).and_then(|_| w.flush())
        };
        let mut buf = vec![0u8; 1 << 16];
        let mut dead = sent.is_err();
        while !dead {
            match self.out.read(&mut buf) {
                Ok(0) | Err(_) => dead = true,
                Ok(n) => {
                    all.extend_from_slice(&buf[..n]);
                    if all.ends_with(b"\n") {
                        let from = all[..all.len() - 1].iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
                        if let Some(p) = all[from..].iter().position(|b| *b == 1) { // the end mark is on the last line
                            let text = String::from_utf8_lossy(&all[..from + p]).into_owned();
                            let tail = String::from_utf8_lossy(&all[from + p..]).into_owned();
                            if let Some(t) = tail.trim_end().strip_prefix(END.trim_end()) {
                                let t = t.trim();
                                return (text, if t == "ok" { Ok(()) } else { Err(t.to_string()) });
                            }
                        }
                    }
                }
            }
        }
        let st = self.child.wait();
        (String::from_utf8_lossy(&all).into_owned(), Err(format!("the printing process died: {:?}", st)))
    }
}

/// The child's side.
pub fn serve(kind: &str) -> i32 {
    let mut inp = std::io::stdin().lock();
    loop {
        let mut n = [0u8; 4];
        if inp.read_exact(&mut n).is_err() { return 0; }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if inp.read_exact(&mut b).is_err() { return 0; }
        let Some(t) = serde_json::from_slice(&b).ok().and_then(|v| Table::from_json(&v)) else { return 3 };
        let r = crate::table::TableReader::new(&t);
        r.fuel.set(u64::MAX);
        let res = crate::obs::caught(|| match kind {
            "report" => raw_cpuid::display::markdown(CpuId::with_cpuid_reader(r.clone())),
            "native" => raw_cpuid::display::markdown(CpuId::with_cpuid_reader(|l, s| crate::table::res(crate::props3::real(l, s)))),
            "raw" => raw_cpuid::display::raw(r.clone()),
            _ => panic!("no such worker: {}", kind),
        });
        match res { Ok(()) => print!("\n{}ok\n", END), Err(e) => print!("\n{}{}\n", END, e.replace('\n', " ")) }
        if std::io::stdout().flush().is_err() { return 0; }
    }
}
