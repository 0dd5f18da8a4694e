//! The seams: every call from the code under test into its environment (caller code, allocator) passes here.
//! Nothing here allocates or draws randomness while the code under test is on the stack, except where marked.
use crate::alloc;
use crate::rng::mix;
use crate::sched;
use std::any::Any;
use std::cell::Cell;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Points at which the code under test calls its environment.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Pt {
    ToDiscr,
    FromDiscr,
    Closure,
    Next,
    Hint,
    IntoIter,
    Hash,
    Sink,
    ElemFmt,
    Alloc,
    Realloc,
    ElemClone,
    SourceDrop,
}
pub const NPT: usize = 13;
pub const PT_NAMES: [&str; NPT] = [
    "to_discr", "from_discr", "closure", "source_next", "source_hint", "source_into_iter", "hasher", "sink",
    "elem_fmt", "alloc", "realloc", "elem_clone", "source_drop",
];

pub struct Ctx {
    pub armed: Cell<bool>,
    pub tid: Cell<u32>,
    // injected caller panic
    pub cb: Cell<u32>,
    pub panic_at: Cell<u32>,
    pub panic_fired: Cell<bool>,
    pub panic_pt: Cell<u8>,
    // injected allocation refusal
    pub al: Cell<u32>,
    pub fail_at: Cell<u32>,
    pub fail_run: Cell<u32>,
    pub refused: Cell<bool>,
    pub deny: Cell<bool>,
    // runaway guard
    pub fuel: Cell<u64>,
    /// What caller code does inside its call-backs besides being called.
    pub nest: Cell<Option<(fn(*mut u8, u32), *mut u8)>>,
    /// Caller code called while a panic was on its way out.
    pub late: Cell<u32>,
    /// An injected panic is on its way through the code under test.
    pub out: Cell<bool>,
}
thread_local! {
    pub static CTX: Ctx = const { Ctx {
        armed: Cell::new(false), tid: Cell::new(0),
        cb: Cell::new(0), panic_at: Cell::new(u32::MAX), panic_fired: Cell::new(false), panic_pt: Cell::new(0),
        al: Cell::new(0), fail_at: Cell::new(u32::MAX), fail_run: Cell::new(0), refused: Cell::new(false), deny: Cell::new(false),
        fuel: Cell::new(0), nest: Cell::new(None), late: Cell::new(0), out: Cell::new(false),
    } };
    static MSG: Cell<Option<String>> = const { Cell::new(None) };
}

pub struct Injected;
pub struct Refused;
pub struct Fuel;

/// State shared by all simulated callers; only the holder of the baton touches it.
pub struct Global {
    pub ev_hash: u64,
    pub events: u64,
    pub points: [u64; NPT],
    pub panics_fired: [u64; NPT],
    pub refusals: u64,
    pub invalid_discr: u64,
    pub invalid_info: (u64, u64),
}
struct G(std::cell::UnsafeCell<Global>);
unsafe impl Sync for G {}
static GLOBAL: G = G(std::cell::UnsafeCell::new(Global {
    ev_hash: 0, events: 0, points: [0; NPT], panics_fired: [0; NPT], refusals: 0, invalid_discr: 0,
    invalid_info: (0, 0),
}));
#[allow(clippy::mut_from_ref)]
pub fn g() -> &'static mut Global {
    unsafe { &mut *GLOBAL.0.get() }
}
pub fn note(kind: u64, v: u64) {
    let g = g();
    g.ev_hash = mix(g.ev_hash, kind.wrapping_mul(0x1_0001).wrapping_add(v));
    g.events += 1;
}
pub fn reset_run() {
    let g = g();
    g.ev_hash = 0x1234;
    g.invalid_discr = 0;
}

/// Called by caller-side code (element conversions, closures, iterators, hashers, sinks).  `body` is harness code
/// and runs disarmed.
#[inline]
pub fn hook<R>(pt: Pt, body: impl FnOnce() -> R) -> R {
    let was = enter(pt);
    let r = body();
    if was {
        leave();
    }
    r
}
#[inline(never)]
fn enter(pt: Pt) -> bool {
    CTX.with(|c| {
        if !c.armed.get() {
            if c.out.get() {
                c.late.set(c.late.get() + 1);
            }
            return false;
        }
        c.armed.set(false);
        crate::preempt::pause();
        let n = c.cb.get() + 1;
        c.cb.set(n);
        let gl = g();
        gl.points[pt as usize] += 1;
        note(pt as u64 + 1, c.tid.get() as u64);
        if c.fuel.get() == 0 {
            if !std::thread::panicking() {
                resume_unwind(Box::new(Fuel));
            }
        } else {
            c.fuel.set(c.fuel.get() - 1);
        }
        sched::yield_point();
        if c.nest.get().is_some() {
            nested(c, n);
        }
        if n == c.panic_at.get() && !std::thread::panicking() {
            c.panic_fired.set(true);
            c.panic_pt.set(pt as u8);
            g().panics_fired[pt as usize] += 1;
            note(100, pt as u64);
            let b = Box::new(Injected);
            c.out.set(true);
            resume_unwind(b);
        }
        true
    })
}
/// Run what this call-back does with other objects, with fault plan and counters of its own.
#[cold]
#[inline(never)]
fn nested(c: &Ctx, n: u32) {
    let (f, p) = match c.nest.take() {
        Some(x) if !std::thread::panicking() => x,
        x => return c.nest.set(x),
    };
    let u = [&c.cb, &c.panic_at, &c.al, &c.fail_at, &c.fail_run, &c.late];
    let b = [&c.panic_fired, &c.refused, &c.deny];
    let (su, sb) = (u.map(|x| x.get()), b.map(|x| x.get()));
    let (pt, fuel, budget) = (c.panic_pt.get(), c.fuel.get(), alloc::a().budget);
    f(p, n);
    for (x, v) in u.iter().zip(su) {
        x.set(v);
    }
    for (x, v) in b.iter().zip(sb) {
        x.set(v);
    }
    c.panic_pt.set(pt);
    c.fuel.set(fuel);
    alloc::a().budget = budget;
    c.nest.set(Some((f, p)));
}
#[inline(never)]
fn leave() {
    CTX.with(|c| c.armed.set(true));
    crate::preempt::resume();
}

/// Outcome of one call into the code under test.
#[derive(Debug)]
pub enum Out<R> {
    Ok(R),
    Inj,
    Oom,
    /// More call-backs than any sane execution of this call needs.
    Fuel,
    Panic(String),
}
impl<R> Out<R> {
    pub fn map<S>(self, f: impl FnOnce(R) -> S) -> Out<S> {
        match self {
            Out::Ok(r) => Out::Ok(f(r)),
            Out::Inj => Out::Inj,
            Out::Oom => Out::Oom,
            Out::Fuel => Out::Fuel,
            Out::Panic(m) => Out::Panic(m),
        }
    }
}

#[inline(never)]
fn sut_raw(f: unsafe fn(*mut u8), d: *mut u8) -> Out<()> {
    CTX.with(|c| c.armed.set(true));
    crate::preempt::resume();
    let r = catch_unwind(|| unsafe { f(d) });
    crate::preempt::pause();
    CTX.with(|c| {
        c.armed.set(false);
        c.out.set(false);
    });
    match r {
        Ok(()) => Out::Ok(()),
        Err(p) => classify(p),
    }
}
#[inline(never)]
fn conv<R>(o: Out<()>, r: MaybeUninit<R>) -> Out<R> {
    match o {
        Out::Ok(()) => Out::Ok(unsafe { r.assume_init() }),
        Out::Inj => Out::Inj,
        Out::Oom => Out::Oom,
        Out::Fuel => Out::Fuel,
        Out::Panic(m) => Out::Panic(m),
    }
}
/// Run a piece of the code under test with the seams armed.  (Written to instantiate as little code as possible.)
#[inline(always)]
pub fn sut<R, F: FnOnce() -> R>(f: F) -> Out<R> {
    struct D<F, R>(MaybeUninit<F>, MaybeUninit<R>);
    unsafe fn go<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = &mut *(p as *mut D<F, R>);
        d.1.write((d.0.assume_init_read())());
    }
    let mut d = D(MaybeUninit::new(f), MaybeUninit::uninit());
    let o = sut_raw(go::<R, F>, &mut d as *mut D<F, R> as *mut u8);
    conv(o, d.1)
}
pub fn with<R>(o: Out<()>, r: R) -> Out<R> {
    o.map(|_| r)
}
/// Harness code inside a `sut` closure.
#[inline]
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let was = disarm();
    let r = f();
    rearm(was);
    r
}
#[inline(never)]
fn disarm() -> bool {
    let was = CTX.with(|c| c.armed.replace(false));
    if was {
        crate::preempt::pause();
    }
    was
}
#[inline(never)]
fn rearm(was: bool) {
    CTX.with(|c| c.armed.set(was));
    if was {
        crate::preempt::resume();
    }
}
/// Run code under test with all faults and scheduling off (used to observe state).
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = disarm();
    let r = catch_unwind(AssertUnwindSafe(f));
    rearm(was);
    r.map_err(quiet_err)
}
#[inline(never)]
fn quiet_err(p: Box<dyn Any + Send>) -> String {
    match classify(p) {
        Out::Panic(m) => m,
        _ => "unexpected injected unwind".into(),
    }
}
fn classify(p: Box<dyn Any + Send>) -> Out<()> {
    if p.is::<Injected>() {
        Out::Inj
    } else if p.is::<Refused>() {
        Out::Oom
    } else if p.is::<Fuel>() {
        Out::Fuel
    } else {
        let m = MSG.with(|m| m.take()).unwrap_or_else(|| "panic".into());
        Out::Panic(m)
    }
}

/// Set the faults for the next call.
pub fn arm_faults(panic_at: Option<u32>, fail_at: Option<(u32, u32)>) {
    CTX.with(|c| {
        c.cb.set(0);
        c.panic_at.set(panic_at.unwrap_or(u32::MAX));
        c.panic_fired.set(false);
        c.al.set(0);
        let (a, n) = fail_at.unwrap_or((u32::MAX, 0));
        c.fail_at.set(a);
        c.fail_run.set(n);
        c.refused.set(false);
        c.late.set(0);
        c.fuel.set(2_000_000);
    })
}
pub fn clear_faults() {
    CTX.with(|c| {
        c.panic_at.set(u32::MAX);
        c.fail_at.set(u32::MAX);
        c.deny.set(false);
    });
    alloc::a().budget = u64::MAX;
}
pub fn fired() -> (bool, bool) {
    CTX.with(|c| (c.panic_fired.get(), c.refused.get()))
}

fn oom_hook(_l: std::alloc::Layout) {
    let armed = CTX.with(|c| c.armed.replace(false));
    let refused = CTX.with(|c| c.refused.get());
    if armed && refused && !std::thread::panicking() {
        resume_unwind(Box::new(Refused));
    }
    eprintln!("real allocation failure");
}

pub fn install() {
    std::alloc::set_alloc_error_hook(oom_hook);
    std::panic::set_hook(Box::new(|info| {
        CTX.with(|c| c.armed.set(false));
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        MSG.with(|c| c.set(Some(m)));
    }));
}
