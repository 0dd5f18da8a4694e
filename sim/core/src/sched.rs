//! Baton scheduler: real caller threads, exactly one of which runs; who runs is decided here at every seam.
use crate::rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::thread::Thread;

pub const MAXT: usize = 4;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicU32 = AtomicU32::new(u32::MAX);

pub struct Sched {
    pub n: usize,
    pub alive: [bool; MAXT],
    pub threads: [Option<Thread>; MAXT],
    /// Choices to follow; when exhausted, drawn from `rng` (if any), else "stay".
    pub forced: Vec<u8>,
    pub pos: usize,
    pub rng: Option<Rng>,
    pub den: u64,
    pub log: Vec<u8>,
    pub stall: [u32; MAXT],
    pub stall_rate: u64,
    /// Callers are suspended in caller code only.
    pub calm: bool,
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub decisions: u64,
}
struct H(std::cell::UnsafeCell<Option<Sched>>);
unsafe impl Sync for H {}
static S: H = H(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn s() -> &'static mut Option<Sched> {
    unsafe { &mut *S.0.get() }
}

fn me() -> usize {
    crate::seam::CTX.with(|c| c.tid.get() as usize)
}

/// Choice encoding: 0 = stay with the current caller, k = the k-th other live caller.
fn choose(sc: &mut Sched, cur: usize, can_stay: bool) -> usize {
    let mut others = [0usize; MAXT];
    let mut n = 0;
    for k in 1..=sc.n {
        let t = (cur + k) % sc.n;
        if t != cur && sc.alive[t] {
            others[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        return cur;
    }
    sc.decisions += 1;
    let c = if sc.pos < sc.forced.len() {
        sc.forced[sc.pos] as usize
    } else if let Some(r) = sc.rng.as_mut() {
        // a stalled caller is passed over while any other can run
        for t in 0..sc.n {
            if sc.stall[t] > 0 {
                sc.stall[t] -= 1;
            }
        }
        if sc.stall_rate > 0 && r.chance(1, sc.stall_rate) {
            let v = r.below(sc.n as u64) as usize;
            sc.stall[v] = 5 + r.below(200) as u32;
            sc.stalls += 1;
        }
        let mut c = if can_stay && !r.chance(1, sc.den) { 0 } else { 1 + r.below(n as u64) as usize };
        let target = if c == 0 { cur } else { others[c - 1] };
        if sc.stall[target] > 0 {
            if c != 0 && can_stay && sc.stall[cur] == 0 {
                c = 0;
            } else if let Some(k) = (0..n).find(|&k| sc.stall[others[k]] == 0) {
                c = k + 1;
            }
        }
        c
    } else {
        0
    };
    sc.pos += 1;
    let c = if c == 0 && !can_stay { 1 } else { c };
    if sc.log.len() < sc.log.capacity() {
        sc.log.push(c as u8);
    }
    if c == 0 {
        cur
    } else {
        others[(c - 1) % n]
    }
}

/// May hand the baton to another caller.
pub fn yield_point() {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let cur = me();
    let sc = s().as_mut().unwrap();
    let next = choose(sc, cur, true);
    if next != cur {
        sc.switches += 1;
        crate::seam::note(102, next as u64);
        pass(next);
        wait(cur);
    }
}
/// At a request for memory.
pub fn alloc_point() {
    if ACTIVE.load(SeqCst) && s().as_ref().is_some_and(|s| !s.calm) {
        yield_point()
    }
}
pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
/// Hands the baton to another caller if there is one.
pub fn preempt_point() {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let cur = me();
    let sc = s().as_mut().unwrap();
    let next = choose(sc, cur, false);
    if next != cur {
        sc.preempts += 1;
        crate::seam::note(105, next as u64);
        pass(next);
        wait(cur);
    }
}
fn pass(next: usize) {
    let t = s().as_ref().unwrap().threads[next].clone().unwrap();
    CURRENT.store(next as u32, SeqCst);
    t.unpark();
}
fn wait(me: usize) {
    while CURRENT.load(SeqCst) != me as u32 {
        std::thread::park();
    }
}

/// Run the given callers to completion under the scheduler.
pub fn run(mut sc: Sched, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Sched {
    let n = bodies.len();
    sc.n = n;
    sc.alive = [false; MAXT];
    for i in 0..n {
        sc.alive[i] = true;
    }
    *s() = Some(sc);
    CURRENT.store(u32::MAX, SeqCst);
    let mut handles = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                crate::seam::CTX.with(|c| c.tid.set(i as u32));
                wait(i);
                b();
                // leave: hand the baton on
                let sc = s().as_mut().unwrap();
                sc.alive[i] = false;
                let next = choose(sc, i, false);
                if next != i {
                    crate::seam::note(103, next as u64);
                    pass(next);
                } else {
                    ACTIVE.store(false, SeqCst);
                }
            })
            .expect("spawn");
        s().as_mut().unwrap().threads[i] = Some(h.thread().clone());
        handles.push(h);
    }
    ACTIVE.store(true, SeqCst);
    pass(0);
    for h in handles {
        h.join().expect("caller thread died outside a seam");
    }
    ACTIVE.store(false, SeqCst);
    s().take().unwrap()
}
