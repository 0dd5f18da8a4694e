//! What this process is doing, readable by its parent if it dies or hangs.
use crate::prog::{Fault, Step};
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
/// [0] run index + 1, [1] step + 1, [2] op, [3] beats, [4] faults seen, [5] labels violated, [6] event hash, [7] done,
/// [8] (written by the parent) do not start runs beyond this index
pub const WORDS: usize = 16;
pub const LABELS: usize = 5;
pub const HASH: usize = 6;
pub const DONE: usize = 7;
pub const LIMIT: usize = 8;
static mut DUMMY: [u64; WORDS] = [0; WORDS];
static AT: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

fn p() -> *mut u64 {
    let p = AT.load(SeqCst);
    if p.is_null() {
        &raw mut DUMMY as *mut u64
    } else {
        p
    }
}
pub fn map(path: &str) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
    f.set_len(4096)?;
    let m = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    if m as isize == -1 {
        return Err(std::io::Error::last_os_error());
    }
    AT.store(m as *mut u64, SeqCst);
    Ok(())
}
/// Shared with forked children.
pub fn map_anon() {
    let m = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    assert!(m as isize != -1);
    AT.store(m as *mut u64, SeqCst);
}
pub fn at(step: usize, st: &Step) {
    unsafe {
        let p = p();
        p.add(1).write_volatile(step as u64 + 1);
        p.add(2).write_volatile(st.op as u64);
        let f = match st.fault {
            Fault::Panic(_) => 1,
            Fault::Oom(..) | Fault::Deny => 2,
            _ => 0,
        };
        let old = p.add(4).read_volatile();
        p.add(4).write_volatile(old | f);
        let b = p.add(3).read_volatile();
        p.add(3).write_volatile(b + 1);
    }
}
pub fn run(i: u64) {
    unsafe {
        let p = p();
        p.write_volatile(i + 1);
        p.add(1).write_volatile(0);
        p.add(2).write_volatile(u64::MAX);
        p.add(4).write_volatile(0);
        let b = p.add(3).read_volatile();
        p.add(3).write_volatile(b + 1);
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct At2 {
    pub step: u64,
    pub op: u64,
    pub faults: u64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct At {
    pub run: u64,
    pub step: u64,
    pub op: u64,
    pub beats: u64,
    pub faults: u64,
}
pub fn read_own() -> At {
    unsafe {
        let p = p();
        At { run: *p, step: *p.add(1), op: *p.add(2), beats: *p.add(3), faults: *p.add(4) }
    }
}
pub fn read(path: &str) -> At {
    let b = std::fs::read(path).unwrap_or_default();
    let w = |i: usize| b.get(i * 8..i * 8 + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()));
    At { run: w(0), step: w(1), op: w(2), beats: w(3), faults: w(4) }
}

pub fn set(i: usize, v: u64) {
    unsafe { p().add(i).write_volatile(v) }
}
pub fn get(i: usize) -> u64 {
    unsafe { p().add(i).read_volatile() }
}
/// Write one word of another process' record.
pub fn poke(path: &str, i: usize, v: u64) {
    use std::os::unix::fs::FileExt;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(path) {
        let _ = f.write_at(&v.to_le_bytes(), i as u64 * 8);
    }
}
