//! The simulated memory: an arena with redzones, poisoning, quarantine, seeded contents, refusals and budgets.
//! Only requests made while the code under test is armed come here; everything else goes to the system allocator.
use crate::rng::mix;
use crate::sched;
use crate::seam::{self, Pt, CTX};
use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const ARENA: usize = 1 << 30;
const MAX_ENTRIES: usize = 1 << 18;
const RED: usize = 32;
const PAGE: usize = 4096;
const SLOT: usize = 4 * PAGE; // usable bytes of a guarded slot
const NSLOT: usize = 512;
/// No single request above this is ever granted ("the machine's memory").
pub const MAX_REQUEST: usize = 16 << 20;

#[derive(Copy, Clone)]
struct Entry {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
    slot: u32, // u32::MAX: in the arena
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fill {
    Zero,
    Ones,
    Random,
    Const(u8),
}

pub struct Arena {
    base: usize,
    guard_base: usize,
    entries: *mut Entry,
    n: usize,
    bump: usize,
    slots_used: usize,
    pub fill: Fill,
    pub fill_seed: u64,
    pub guard: bool,
    pub inplace: bool,
    pub budget: u64,
    pub live: u64,
    pub peak: u64,
    pub live_count: u64,
    pub requests: u64,
    pub refusals_fault: u64,
    pub refusals_deny: u64,
    pub refusals_budget: u64,
    pub refusals_huge: u64,
    pub violation: Option<&'static str>,
    pub vinfo: (usize, usize),
}
struct Holder(std::cell::UnsafeCell<Arena>);
unsafe impl Sync for Holder {}
static HOLDER: Holder = Holder(std::cell::UnsafeCell::new(Arena {
    base: 0, guard_base: 0, entries: std::ptr::null_mut(), n: 0, bump: 0, slots_used: 0, fill: Fill::Zero,
    fill_seed: 0, guard: false, inplace: false, budget: u64::MAX, live: 0, peak: 0, live_count: 0,
    requests: 0, refusals_fault: 0, refusals_deny: 0, refusals_budget: 0, refusals_huge: 0, violation: None,
    vinfo: (0, 0),
}));
#[allow(clippy::mut_from_ref)]
pub fn a() -> &'static mut Arena {
    unsafe { &mut *HOLDER.0.get() }
}

pub fn init() {
    unsafe {
        let ar = a();
        let p = mmap(std::ptr::null_mut(), ARENA, 3, 0x22 | 0x4000, -1, 0); // PRIVATE|ANON|NORESERVE
        let gsz = NSLOT * (SLOT + PAGE) + PAGE;
        let q = mmap(std::ptr::null_mut(), gsz, 3, 0x22 | 0x4000, -1, 0);
        let e = mmap(std::ptr::null_mut(), MAX_ENTRIES * std::mem::size_of::<Entry>(), 3, 0x22 | 0x4000, -1, 0);
        assert!(p as isize != -1 && q as isize != -1 && e as isize != -1, "mmap failed");
        ar.base = p as usize;
        ar.guard_base = q as usize;
        ar.entries = e as *mut Entry;
        for i in 0..=NSLOT {
            mprotect((ar.guard_base + i * (SLOT + PAGE)) as *mut u8, PAGE, 0);
        }
    }
}

impl Arena {
    pub fn reset(&mut self) {
        unsafe {
            for i in 0..self.n {
                let e = *self.entries.add(i);
                if e.slot != u32::MAX && !e.live {
                    mprotect(self.slot_addr(e.slot as usize) as *mut u8, SLOT, 3);
                }
            }
        }
        self.n = 0;
        self.bump = 0;
        self.slots_used = 0;
        self.live = 0;
        self.peak = 0;
        self.live_count = 0;
        self.violation = None;
        self.budget = u64::MAX;
    }
    /// Blocks handed out so far in this run.
    pub fn blocks(&self) -> usize {
        self.n
    }
    /// Size of the live block at `p`.
    pub fn size_at(&self, p: usize) -> Option<usize> {
        unsafe { self.find(p).map(|i| *self.entries.add(i)).filter(|e| e.live).map(|e| e.size) }
    }
    fn slot_addr(&self, i: usize) -> usize {
        self.guard_base + i * (SLOT + PAGE) + PAGE
    }
    fn ours(&self, p: usize) -> bool {
        p.wrapping_sub(self.base) < ARENA || p.wrapping_sub(self.guard_base) < NSLOT * (SLOT + PAGE) + PAGE
    }
    fn flag(&mut self, what: &'static str, x: usize, y: usize) {
        if self.violation.is_none() {
            self.violation = Some(what);
            self.vinfo = (x, y);
        }
    }
    fn red_byte(&self, idx: usize, k: usize) -> u8 {
        match self.fill {
            Fill::Zero => 0xE7,
            Fill::Ones => 0xFF,
            Fill::Random => mix(self.fill_seed, (idx * 64 + k) as u64 ^ 0xABCD) as u8,
            Fill::Const(c) => c ^ 0x3C,
        }
    }
    unsafe fn fill(&self, p: usize, n: usize, salt: u64) {
        match self.fill {
            Fill::Zero => std::ptr::write_bytes(p as *mut u8, 0, n),
            Fill::Ones => std::ptr::write_bytes(p as *mut u8, 0xFF, n),
            Fill::Const(c) => std::ptr::write_bytes(p as *mut u8, c, n),
            Fill::Random => {
                let mut s = mix(self.fill_seed, salt);
                let mut i = 0;
                while i < n {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (s ^ (s >> 29)).to_le_bytes();
                    let k = (n - i).min(8);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), (p + i) as *mut u8, k);
                    i += k;
                }
            }
        }
    }
    unsafe fn take(&mut self, size: usize, align: usize) -> *mut u8 {
        if self.n >= MAX_ENTRIES {
            eprintln!("simulated arena: too many blocks");
            std::process::exit(3);
        }
        let idx = self.n;
        let align = align.max(1);
        let ptr;
        let mut slot = u32::MAX;
        if self.guard && size > 0 && size <= SLOT && self.slots_used < NSLOT {
            let s = self.slots_used;
            self.slots_used += 1;
            slot = s as u32;
            ptr = (self.slot_addr(s) + SLOT - size) & !(align - 1);
        } else {
            let al = align.max(16);
            let start = (self.base + self.bump + RED + al - 1) & !(al - 1);
            if start + size + RED > self.base + ARENA {
                return std::ptr::null_mut();
            }
            self.bump = start + size + RED - self.base;
            ptr = start;
            for k in 0..RED {
                *((ptr - RED + k) as *mut u8) = self.red_byte(idx, k);
                *((ptr + size + k) as *mut u8) = self.red_byte(idx, RED + k);
            }
        }
        self.fill(ptr, size, idx as u64);
        *self.entries.add(idx) = Entry { ptr, size, align, live: true, slot };
        self.n += 1;
        self.live += size as u64;
        self.live_count += 1;
        self.peak = self.peak.max(self.live);
        ptr as *mut u8
    }
    unsafe fn find(&self, p: usize) -> Option<usize> {
        // the newest entries are the likeliest
        let mut i = self.n;
        while i > 0 {
            i -= 1;
            if (*self.entries.add(i)).ptr == p {
                return Some(i);
            }
        }
        None
    }
    unsafe fn check_red(&mut self, i: usize) {
        let e = *self.entries.add(i);
        if e.slot != u32::MAX {
            return;
        }
        for k in 0..RED {
            if *((e.ptr - RED + k) as *const u8) != self.red_byte(i, k)
                || *((e.ptr + e.size + k) as *const u8) != self.red_byte(i, RED + k)
            {
                self.flag("write outside a live block", e.size, k);
                return;
            }
        }
    }
    unsafe fn release(&mut self, p: usize, l: Layout) {
        match self.find(p) {
            None => self.flag("free of a pointer that was never handed out", 0, 0),
            Some(i) => {
                let e = *self.entries.add(i);
                if !e.live {
                    return self.flag("double free", e.size, 0);
                }
                if e.size != l.size() || e.align != l.align() {
                    self.flag("free with a different size or alignment", e.size, l.size());
                }
                self.check_red(i);
                (*self.entries.add(i)).live = false;
                self.live -= e.size as u64;
                self.live_count -= 1;
                if e.slot != u32::MAX {
                    mprotect(self.slot_addr(e.slot as usize) as *mut u8, SLOT, 0);
                } else {
                    self.fill(e.ptr, e.size, 0xF4EE ^ i as u64);
                }
            }
        }
    }
    /// End-of-run (and periodic) integrity check.
    pub fn check_all(&mut self) {
        unsafe {
            for i in 0..self.n {
                if (*self.entries.add(i)).live {
                    self.check_red(i);
                }
            }
        }
    }
    /// Writes into freed blocks (only meaningful when freed blocks are filled with a known pattern).
    pub fn check_freed(&mut self) {
        unsafe {
            let c = match self.fill {
                Fill::Zero => 0,
                Fill::Ones => 0xFF,
                Fill::Const(c) => c,
                Fill::Random => return,
            };
            for i in 0..self.n {
                let e = *self.entries.add(i);
                if !e.live && e.slot == u32::MAX {
                    for k in 0..e.size {
                        if *((e.ptr + k) as *const u8) != c {
                            self.flag("write into a freed block", e.size, k);
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Decide whether an armed request is refused.
fn refuse(add: usize, size: usize) -> bool {
    let ar = a();
    CTX.with(|c| {
        let n = c.al.get() + 1;
        c.al.set(n);
        ar.requests += 1;
        let f = c.fail_at.get();
        let r = if n >= f && n - f < c.fail_run.get() {
            ar.refusals_fault += 1;
            true
        } else if c.deny.get() {
            ar.refusals_deny += 1;
            true
        } else if size > MAX_REQUEST {
            ar.refusals_huge += 1;
            true
        } else if ar.live.saturating_add(add as u64) > ar.budget {
            ar.refusals_budget += 1;
            true
        } else {
            false
        };
        if r {
            c.refused.set(true);
            seam::g().refusals += 1;
            seam::note(101, size as u64);
        }
        r
    })
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // (the message of a panic is not the code under test's memory)
        if CTX.try_with(|c| c.armed.get()) != Ok(true) || std::thread::panicking() {
            return System.alloc(l);
        }
        CTX.with(|c| c.armed.set(false));
        crate::preempt::pause();
        seam::g().points[Pt::Alloc as usize] += 1;
        seam::note(Pt::Alloc as u64 + 1, l.size() as u64);
        sched::alloc_point();
        let p = if refuse(l.size(), l.size()) { std::ptr::null_mut() } else { a().take(l.size(), l.align()) };
        CTX.with(|c| {
            if p.is_null() {
                c.refused.set(true)
            }
            c.armed.set(true)
        });
        crate::preempt::resume();
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if CTX.try_with(|c| c.armed.get()) != Ok(true) || std::thread::panicking() {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let ar = a();
        if ar.ours(p as usize) {
            ar.release(p as usize, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let ar = a();
        if !ar.ours(p as usize) {
            return System.realloc(p, l, new);
        }
        let armed = CTX.with(|c| c.armed.replace(false));
        crate::preempt::pause();
        let mut q = std::ptr::null_mut();
        let mut refused = false;
        if armed && !std::thread::panicking() {
            seam::g().points[Pt::Realloc as usize] += 1;
            seam::note(Pt::Realloc as u64 + 1, new as u64);
            sched::alloc_point();
            // moving needs old and new at once
            let extra = if ar.inplace { new.saturating_sub(l.size()) } else { new };
            refused = refuse(extra, new);
        }
        if !refused {
            q = ar.take(new, l.align());
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                ar.release(p as usize, l);
            }
        }
        CTX.with(|c| {
            if q.is_null() {
                c.refused.set(true)
            }
            c.armed.set(armed)
        });
        if armed {
            crate::preempt::resume();
        }
        q
    }
}
