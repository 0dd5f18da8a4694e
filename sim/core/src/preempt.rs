//! Instruction-level preemption of a caller: the processor's single-step flag makes every instruction of the code
//! under test a possible switching point, and the simulator names the one (by count) at which it happens.
use crate::sched;
use crate::seam::CTX;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

thread_local! {
    static ST: St = const { St { on: Cell::new(false), left: Cell::new(0), total: Cell::new(0) } };
}
struct St {
    on: Cell<bool>,
    left: Cell<u32>,
    total: Cell<u32>,
}
static WORKS: AtomicBool = AtomicBool::new(false);
static SEEN: AtomicBool = AtomicBool::new(false);
pub static FIRED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const CAP: u32 = 6_000;

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod imp {
    use super::*;
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    const EFL: usize = 40 + 17 * 8;
    const RIP: usize = 40 + 16 * 8;
    unsafe extern "C" fn trap(_s: i32, _i: *mut u8, uc: *mut u8) {
        let efl = uc.add(EFL) as *mut u64;
        let rip = *(uc.add(RIP) as *const u64) as usize;
        SEEN.store(true, SeqCst);
        ST.with(|s| {
            if !s.on.get() {
                *efl &= !0x100;
                return;
            }
            let t = s.total.get() + 1;
            s.total.set(t);
            if t > CAP {
                s.on.set(false);
                *efl &= !0x100;
                return;
            }
            let lo = &__executable_start as *const u8 as usize;
            let hi = &etext as *const u8 as usize;
            if rip < lo || rip >= hi {
                return;
            }
            CTX.with(|c| {
                if !c.armed.get() {
                    return;
                }
                let l = s.left.get();
                if l > 1 {
                    s.left.set(l - 1);
                    return;
                }
                s.on.set(false);
                *efl &= !0x100;
                c.armed.set(false);
                FIRED.fetch_add(1, SeqCst);
                crate::seam::note(104, c.tid.get() as u64);
                sched::preempt_point();
                c.armed.set(true);
            })
        })
    }
    pub fn install() {
        unsafe {
            // SA_SIGINFO
            let a = SigAction { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
            if sigaction(5, &a, std::ptr::null_mut()) != 0 {
                return;
            }
            flag(true);
            flag(false);
        }
        WORKS.store(SEEN.load(SeqCst), SeqCst);
    }
    #[inline(never)]
    pub fn flag(on: bool) {
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            }
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod imp {
    pub fn install() {}
    pub fn flag(_: bool) {}
}

pub fn install() {
    imp::install()
}
pub fn works() -> bool {
    WORKS.load(SeqCst)
}
/// Preempt the caller at the `n`-th instruction of the next call into the code under test.
pub fn arm(n: u32) {
    if n == 0 || !works() || !sched::active() {
        return;
    }
    ST.with(|s| {
        s.left.set(n);
        s.total.set(0);
        s.on.set(true);
    });
}
pub fn disarm() {
    ST.with(|s| {
        if s.on.replace(false) {
            imp::flag(false);
        }
    });
}

/// No stepping while the simulator itself runs.
#[inline]
pub fn pause() {
    ST.with(|s| {
        if s.on.get() {
            imp::flag(false);
        }
    });
}
#[inline]
pub fn resume() {
    ST.with(|s| {
        if s.on.get() {
            imp::flag(true);
        }
    });
}
