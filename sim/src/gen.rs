//! Seeded generation of programs: histories, faults, memory and schedules, swarm style (every run draws its own
//! subset of operations, sizes, values and fault rates).
use crate::alloc::Fill;
use crate::kinds::{kinds, sets, slim};
use crate::prog::{Fault, Op, Prog, Step, SETUP, SHARED};
use crate::rng::{mix, Rng};
use crate::vecobj::Kind;

type W = (Op, u32);
const MUT: &[W] = &[
    (Op::Push, 8), (Op::Pop, 4), (Op::Insert, 8), (Op::Remove, 8), (Op::SwapRemove, 4), (Op::Swap, 3), (Op::Set, 5),
    (Op::Truncate, 3), (Op::Clear, 1), (Op::Resize, 5), (Op::Retain, 4), (Op::ForEach, 3), (Op::Extend, 6),
    (Op::Reserve, 2), (Op::Shrink, 2), (Op::RawFill, 2), (Op::Revive, 1),
];
const NEW: &[W] = &[(Op::New, 1), (Op::WithCap, 1), (Op::FromElem, 2), (Op::FromKeys, 2), (Op::Collect, 2), (Op::Drop, 1)];
const BULK: &[W] = &[
    (Op::Append, 6), (Op::SplitOff, 6), (Op::Clone, 3), (Op::CloneFrom, 4), (Op::ToVec, 1), (Op::IntoVec, 1), (Op::Feed, 3),
];
/// What the instances that only differ in width can do.
const SLIM_OPS: &[Op] = &[
    Op::Push, Op::Pop, Op::Insert, Op::Remove, Op::SwapRemove, Op::Swap, Op::Set, Op::Truncate, Op::Clear, Op::Resize, Op::Reserve,
    Op::Shrink, Op::New, Op::WithCap, Op::FromElem, Op::FromKeys, Op::Drop, Op::Append, Op::Len, Op::Get, Op::Any, Op::All, Op::Every, Op::Eq,
];
const READ: &[W] = &[
    (Op::Len, 1), (Op::Get, 3), (Op::Any, 2), (Op::All, 2), (Op::Every, 2), (Op::Eq, 2), (Op::Hash, 1), (Op::IterAll, 2),
];
const OOB: &[W] = &[
    (Op::GetOob, 3), (Op::SetOob, 3), (Op::SwapOob, 3), (Op::RemoveOob, 3), (Op::SwapRemoveOob, 3), (Op::SplitOob, 3),
    (Op::InsertOob, 3), (Op::TruncOob, 3), (Op::PopEmpty, 1), (Op::SBad, 1), (Op::SIns, 1),
];
const HUGE: &[W] = &[(Op::HugeReserve, 2), (Op::HugeWithCap, 1), (Op::HugeResize, 1), (Op::HugeFromElem, 1)];
const CURS: &[W] = &[(Op::CurIter, 3), (Op::CurInto, 2), (Op::CurValues, 2), (Op::CurCall, 40), (Op::CurDup, 1), (Op::SCurValues, 1), (Op::CurClose, 1)];
const SCURS: &[W] = &[(Op::SCur, 8), (Op::CurCall, 20)];
const SETS_MUT: &[W] = &[
    (Op::SNew, 1), (Op::SCollect, 2), (Op::SIns, 10), (Op::SRem, 7), (Op::SClear, 1), (Op::SExtend, 5),
    (Op::SShrink, 2), (Op::SAlgWith, 6), (Op::SClone, 2), (Op::SCloneFrom, 2), (Op::SRound, 2), (Op::SDrop, 1),
];
const SETS_READ: &[W] = &[
    (Op::SHas, 4), (Op::SLen, 3), (Op::SAlg, 6), (Op::STests, 5), (Op::SEq, 4), (Op::SHash, 1), (Op::SIter, 3),
];

#[derive(Clone, Copy, PartialEq, Eq)]
enum Faults {
    No,
    Panics,
    Refusals,
    Both,
}
struct Gen {
    r: Rng,
    card: u64,
    scard: u64,
    epb: u64,
    alphabet: Vec<u64>,
    salphabet: Vec<u64>,
    /// Upper bound of ordinary sizes in this run.
    span: u64,
    /// Positions worth trying in a very long vector.
    marks: Vec<u64>,
    nslots: u64,
    lying: u64,
    cnt: u64,
    read_shared: bool,
}

impl Gen {
    fn key(&mut self) -> u64 {
        if self.r.chance(1, 12) {
            self.r.below(self.card)
        } else {
            let i = self.r.below(self.alphabet.len() as u64) as usize;
            self.alphabet[i]
        }
    }
    fn skey(&mut self) -> u64 {
        if self.r.chance(1, 8) {
            self.r.below(self.scard)
        } else {
            let i = self.r.below(self.salphabet.len() as u64) as usize;
            self.salphabet[i]
        }
    }
    /// A size: small, or around a multiple of the block size, or anything up to the span.
    fn size(&mut self) -> u64 {
        let e = self.epb;
        match self.r.below(10) {
            0 => 0,
            1 | 2 => 1 + self.r.below(4),
            3..=6 => {
                let m = (self.span / e).max(1);
                let b = e * (1 + self.r.below(m.min(8)));
                match self.r.below(4) {
                    0 => b,
                    1 => b + 1,
                    2 => b - 1,
                    _ => b.saturating_sub(self.r.below(e) + 1),
                }
            }
            _ => self.r.below(self.span + 1),
        }
        .min(self.span + e)
    }
    fn index(&mut self) -> u64 {
        if !self.marks.is_empty() && self.r.chance(1, 2) {
            return (*self.r.clone().pick(&self.marks) + self.r.below(4)).saturating_sub(2);
        }
        match self.r.below(8) {
            0 => 0,
            1 | 2 => (1 << 32) + self.r.below(3),
            3 => (1 << 32) + self.r.below(self.epb + 2),
            4 | 5 => {
                let b = self.epb * self.r.below(4);
                (b + self.r.below(3)).saturating_sub(1)
            }
            _ => self.r.below(1 << 16),
        }
    }
    fn far(&mut self) -> u64 {
        match self.r.below(8) {
            0..=3 => self.r.below(3),
            4 => self.r.below(self.epb + 1),
            5 => self.r.below(2000),
            6 => u64::MAX - self.r.below(3),
            _ => *self.r.pick(&[1u64 << 31, 1 << 32, 1 << 58, 1 << 59, 1 << 60, 1 << 61, 1 << 62, 1 << 63]),
        }
    }
    fn keys(&mut self, n: u64) -> Vec<u64> {
        // sometimes all the same: the answers of all() and of masked searches depend on it
        if self.r.chance(1, 4) {
            let k = self.key();
            let mut v = vec![k; n as usize];
            if n > 0 && self.r.chance(1, 2) {
                let i = self.r.below(n) as usize;
                v[i] = self.key();
            }
            v
        } else {
            (0..n).map(|_| self.key()).collect()
        }
    }
    fn slot(&mut self) -> u64 {
        self.r.below(self.nslots)
    }
    fn rslot(&mut self) -> u64 {
        if self.read_shared && self.r.chance(2, 3) {
            SHARED + self.r.below(3)
        } else {
            self.slot()
        }
    }
    fn sslot(&mut self) -> u64 {
        self.r.below(3)
    }
    fn srslot(&mut self) -> u64 {
        if self.read_shared && self.r.chance(2, 3) {
            SHARED + self.r.below(2)
        } else {
            self.sslot()
        }
    }
    fn hint(&mut self) -> (u64, u64) {
        if self.lying > 0 && self.r.chance(self.lying, 4) {
            let m = self.r.below(crate::ends::HINT_MODES);
            (m, match self.r.below(4) {
                0 => self.r.below(3),
                1 => self.epb * self.r.below(3) + self.r.below(2),
                _ => self.r.below(self.span + 2),
            })
        } else {
            (*self.r.pick(&[0, 1, 2, 3, 11, 12]), self.r.below(3))
        }
    }
    fn make(&mut self, op: Op) -> Step {
        self.cnt += 1;
        let mut a = [0u64; 4];
        let mut keys = vec![];
        a[0] = self.slot();
        match op {
            Op::New => a[1] = self.r.below(4),
            Op::WithCap | Op::Reserve => a[1] = self.size(),
            Op::FromElem | Op::Resize => {
                a[1] = self.size();
                a[2] = self.key();
                a[3] = self.r.below(2);
            }
            Op::FromKeys => {
                a[1] = self.r.below(4);
                let n = self.size();
                keys = self.keys(n);
            }
            Op::Collect | Op::Extend => {
                let (m, n) = self.hint();
                (a[1], a[2]) = (m, n);
                let c = if op == Op::Extend && self.r.chance(1, 3) { self.r.below(5) } else { self.size() };
                keys = self.keys(c);
                if self.lying > 0 && self.r.chance(1, 4) {
                    let e = 1 + self.r.below(4);
                    let mut x = self.keys(e);
                    keys.append(&mut x);
                    a[3] = e;
                }
            }
            Op::RawFill => {
                let n = self.size();
                keys = self.keys(n);
            }
            Op::Set | Op::Insert => {
                a[1] = self.index();
                a[2] = self.key();
            }
            Op::Push => a[2] = self.key(),
            Op::Remove | Op::SwapRemove => a[1] = self.index(),
            Op::Truncate => a[1] = if self.r.chance(1, 2) { self.size() } else { self.index() },
            Op::Swap => {
                a[1] = self.index();
                a[2] = self.index();
            }
            Op::Retain | Op::ForEach => {
                a[1] = self.r.below(6);
                a[2] = self.r.next() >> 8;
            }
            Op::Append | Op::CloneFrom => a[1] = (a[0] + 1 + self.r.below(3)) % 4,
            Op::SplitOff => {
                a[1] = self.index();
                a[2] = self.slot();
            }
            Op::Clone => {
                a[0] = self.rslot();
                a[1] = self.slot();
            }
            Op::Len | Op::ToVec | Op::IterAll | Op::Every => {
                a[0] = self.rslot();
                a[1] = self.r.below(3);
                a[2] = self.key();
            }
            Op::Get => {
                a[0] = self.rslot();
                a[1] = self.index();
            }
            Op::Any | Op::All => {
                a[0] = self.rslot();
                a[2] = self.key();
            }
            Op::Eq | Op::Hash => {
                a[0] = self.rslot();
                a[1] = self.rslot();
            }
            Op::Debug => {
                a[0] = self.rslot();
                a[1] = if self.r.chance(1, 2) { self.r.below(2) } else { self.r.below(crate::ends::STYLES) };
                let most = if self.r.chance(1, 2) { 4 } else { 60 };
                a[2] = if self.r.chance(1, 3) { 0 } else { 1 + self.r.below(most) };
                a[3] = self.r.below(2);
            }
            Op::GetOob => {
                a[0] = self.rslot();
                a[1] = self.far();
            }
            Op::SetOob | Op::SwapOob | Op::RemoveOob | Op::SwapRemoveOob | Op::SplitOob | Op::InsertOob | Op::TruncOob => {
                a[1] = self.far();
                a[2] = self.key();
                a[3] = self.r.below(2);
            }
            Op::HugeReserve | Op::HugeWithCap | Op::HugeResize | Op::HugeFromElem => {
                a[1] = self.r.below(1500);
                a[2] = self.key();
            }
            Op::FillCap => {
                a[1] = self.r.below(6);
                a[2] = self.key();
                a[3] = self.r.below(4);
            }
            Op::Grow => {
                a[1] = self.r.below(14);
                a[2] = self.r.next() >> 8;
                let n = match self.r.below(4) {
                    0 => 1 + self.r.below(8 * self.epb),
                    1 | 2 => 10 * self.epb + self.r.below(50 * self.epb),
                    _ => 200 + self.r.below(6000),
                }
                .min(10_000);
                a[3] = n | self.r.below(1 << 12) << 16;
            }
            Op::Replica => {
                a[0] = self.rslot();
                a[1] = self.slot();
                a[2] = self.r.below(12);
                a[3] = self.r.below(1 << 30) << 20;
            }
            Op::CurIter => {
                a[0] = self.rslot();
                a[1] = self.r.below(3);
            }
            Op::CurInto => a[1] = self.r.below(3),
            Op::CurValues | Op::SCurValues => {
                a[1] = self.r.below(3);
                a[2] = self.r.below(8);
            }
            Op::SCur => {
                a[0] = self.srslot();
                a[1] = self.r.below(3);
                a[2] = self.r.below(5);
                a[3] = self.srslot();
            }
            Op::CurDup => {
                a[1] = self.r.below(3);
                a[2] = self.r.below(3);
            }
            Op::Feed => {
                a[1] = self.rslot();
                a[2] = self.r.below(8);
                a[3] = if self.r.chance(1, 12) { 0x8000 } else { self.size() & 0x7FFF };
            }
            Op::Revive => a[1] = self.index(),
            Op::CurClose => a[1] = self.r.below(3),
            Op::CurCall => {
                a[1] = self.r.below(3);
                a[2] = if self.r.chance(1, 5) {
                    self.r.below(crate::vecobj::CUR_OPS.len() as u64)
                } else if self.r.chance(1, 3) {
                    self.r.below(crate::vecobj::CUR_KEEP)
                } else {
                    self.r.below(11)
                };
                a[3] = match self.r.below(10) {
                    0..=4 => self.r.below(3),
                    5 | 6 => self.r.below(12),
                    7 => self.size(),
                    8 => u64::MAX - self.r.below(3),
                    _ => 1 << (20 + self.r.below(44)),
                };
            }
            Op::SNew => {
                a[0] = self.sslot();
                a[1] = self.r.below(4)
            }
            Op::SCollect | Op::SExtend => {
                a[0] = self.sslot();
                let (m, n) = self.hint();
                (a[1], a[2]) = (m, n);
                let c = self.r.below(40);
                keys = (0..c).map(|_| self.skey()).collect();
                if self.lying > 0 && self.r.chance(1, 4) {
                    let e = 1 + self.r.below(4);
                    keys.extend((0..e).map(|_| mix(self.cnt, 3) % self.scard));
                    a[3] = e;
                }
            }
            Op::SIns | Op::SRem => {
                a[0] = self.sslot();
                a[2] = self.skey();
            }
            Op::SHas | Op::SLen | Op::SIter | Op::SHash => {
                a[0] = self.srslot();
                a[1] = self.r.below(6);
                a[2] = self.skey();
            }
            Op::SAlg | Op::STests | Op::SEq => {
                a[0] = self.srslot();
                a[1] = self.srslot();
                a[2] = self.r.below(4);
            }
            Op::SAlgWith | Op::SCloneFrom => {
                a[0] = self.sslot();
                a[1] = self.srslot();
                a[2] = self.r.below(4);
            }
            Op::SClear | Op::SShrink | Op::SDrop => a[0] = self.sslot(),
            Op::SClone => {
                a[0] = self.sslot();
                a[1] = self.sslot();
            }
            Op::SBad => {
                a[0] = self.sslot();
                a[1] = match self.r.below(4) {
                    0 => 0,
                    1 => self.r.below(3),
                    2 => self.r.below(70),
                    _ => self.r.below(4000),
                };
                a[2] = self.r.below(2);
            }
            Op::SRound => {
                a[0] = self.sslot();
                a[1] = self.r.below(3);
                a[2] = self.r.below(600);
            }
            Op::SDebug => {
                a[0] = self.srslot();
                a[1] = if self.r.chance(1, 2) { self.r.below(2) } else { self.r.below(crate::ends::STYLES) };
                let most = if self.r.chance(1, 2) { 4 } else { 60 };
                a[2] = if self.r.chance(1, 3) { 0 } else { 1 + self.r.below(most) };
                a[3] = self.r.below(2);
            }
            Op::Pop | Op::Clear | Op::Shrink | Op::ShrinkAll | Op::Drop | Op::IntoVec | Op::PopEmpty | Op::Probe => {}
        }
        Step { client: 0, at: 0, lev: 0, op, a, keys, fault: Fault::None }
    }
    fn panic_at(&mut self) -> u32 {
        // early, or anywhere: log-uniform
        let b = self.r.below(9);
        1 + self.r.below(1 << b) as u32
    }
}

struct Plan {
    table: Vec<W>,
    faults: Faults,
    /// Chance (in 100) that a step carries a fault.
    rate: u64,
    lying: u64,
    scripted: u64,
    steps: (u64, u64),
    follow: &'static [W],
}

fn add(t: &mut Vec<W>, g: &[W], f: u32) {
    for &(o, w) in g {
        t.push((o, w * f));
    }
}

/// One run in so many is over a vector too long for 16-bit arithmetic.
const GIANTS: u64 = 2000;
const LONG: &[W] = &[
    (Op::Push, 4), (Op::Pop, 2), (Op::Insert, 6), (Op::Remove, 6), (Op::SwapRemove, 3), (Op::Swap, 6), (Op::Set, 10), (Op::Truncate, 2),
    (Op::Resize, 6), (Op::Retain, 2), (Op::ForEach, 1), (Op::Extend, 4), (Op::Reserve, 1), (Op::Shrink, 1), (Op::RawFill, 2),
    (Op::Append, 4), (Op::SplitOff, 4), (Op::Clone, 2), (Op::Get, 10), (Op::Any, 4), (Op::All, 4), (Op::Eq, 2), (Op::Hash, 1),
    (Op::CurIter, 2), (Op::CurInto, 1), (Op::CurCall, 4),
];
fn giant(g: &mut Gen, pr: &mut Prog, faults: Faults, rate: u64) {
    let n = match g.r.below(4) {
        0 => 65_536,
        1 => 131_072,
        2 => 65_536 * g.epb,
        _ => g.r.below(200_000),
    };
    let n = if n > 270_000 { 65_536 + g.r.below(100_000) } else { n } + g.r.below(2 * g.epb + 2);
    g.marks = vec![65_536, 65_536 * g.epb, n, n / 2, 131_072, 32_768];
    g.span = 3 * g.epb;
    g.nslots = 2;
    let k = g.key();
    pr.steps.push(Step { client: 0, at: 0, lev: 0, op: Op::FromElem, a: [0, n, k, 0], keys: vec![], fault: Fault::None });
    if g.r.chance(1, 2) {
        let m = *g.r.clone().pick(&[g.epb, 3, 70_000]) + g.r.below(3);
        let k = g.key();
        pr.steps.push(Step { client: 0, at: 0, lev: 0, op: Op::FromElem, a: [1, m, k, 0], keys: vec![], fault: Fault::None });
    }
    let total: u64 = LONG.iter().map(|w| w.1 as u64).sum();
    for _ in 0..3 + g.r.below(5) {
        let mut x = g.r.below(total);
        let op = LONG.iter().find(|w| {
            let hit = x < w.1 as u64;
            x = x.wrapping_sub(w.1 as u64);
            hit
        });
        let mut st = g.make(op.unwrap().0);
        match st.op {
            Op::Resize | Op::Truncate => st.a[1] = (n + g.r.below(3 * g.epb + 40)).saturating_sub(g.r.below(g.epb + 5) * g.r.below(2)),
            Op::Append | Op::Eq => {
                st.a[0] = g.r.below(2);
                st.a[1] = 1 - st.a[0];
            }
            _ => {}
        }
        if faults != Faults::No && g.r.below(100) < rate {
            st.fault = match faults {
                Faults::Panics => Fault::Panic(g.panic_at()),
                Faults::Refusals => Fault::Oom(1, 1),
                _ if g.r.chance(1, 2) => Fault::Panic(g.panic_at()),
                _ => Fault::Deny,
            };
        }
        pr.steps.push(st);
    }
}
/// How deep operations are nested into call-backs of each other.
pub const NEST: u8 = 4;
/// Program number `i` of the batch for `prop`.
/// Whether no caller is to be suspended inside the library.
fn calm() -> bool {
    CALM.load(Relaxed) || {
        static ENV: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        *ENV.get_or_init(|| std::env::var("SIM_CALM").is_ok())
    }
}
static CALM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
use std::sync::atomic::Ordering::Relaxed;
/// For this process and those it starts.
pub fn set_calm() {
    CALM.store(true, Relaxed);
    std::env::set_var("SIM_CALM", "1");
}
pub fn program(prop: &str, seed: u64, i: u64) -> Prog {
    let pn = crate::prog::PROPS.iter().position(|p| *p == prop).unwrap_or(0) as u64;
    let mut r = Rng::new(mix(mix(seed, pn), i));
    let mut t: Vec<W> = vec![];
    let mut p = Plan { table: vec![], faults: Faults::No, rate: 0, lying: 0, scripted: 50, steps: (4, 40), follow: &[] };
    let mix_faults = |r: &mut Rng, a: u64, b: u64, c: u64| match r.below(100) {
        x if x < a => Faults::No,
        x if x < a + b => Faults::Panics,
        x if x < a + b + c => Faults::Refusals,
        _ => Faults::Both,
    };
    let (mut clients, mut budget, mut sets_only) = (1u8, false, false);
    match prop {
        "C01" => {
            add(&mut t, MUT, 4);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 1);
            add(&mut t, READ, 1);
            p.faults = mix_faults(&mut r, 65, 15, 10);
            p.rate = 12;
        }
        "C02" => {
            add(&mut t, MUT, 4);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 2);
            add(&mut t, READ, 2);
            t.push((Op::Retain, 30));
            t.push((Op::ForEach, 14));
            t.push((Op::Extend, 14));
            p.faults = Faults::Panics;
            p.rate = 35;
            p.scripted = 85;
            p.follow = &[(Op::Every, 3), (Op::Push, 2), (Op::Pop, 1), (Op::Resize, 2), (Op::Insert, 2), (Op::Eq, 1), (Op::Extend, 1), (Op::Replica, 2)];
        }
        "C03" => {
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 4);
            add(&mut t, BULK, 4);
            add(&mut t, HUGE, 4);
            t.push((Op::Push, 16));
            t.push((Op::Insert, 16));
            t.push((Op::Resize, 16));
            t.push((Op::Reserve, 14));
            t.push((Op::Extend, 16));
            t.push((Op::Shrink, 8));
            t.push((Op::RawFill, 6));
            add(&mut t, READ, 1);
            p.faults = Faults::Refusals;
            p.rate = 55;
            p.follow = &[(Op::Every, 2), (Op::Push, 2), (Op::Resize, 2), (Op::Insert, 2), (Op::Extend, 1), (Op::Shrink, 1), (Op::FillCap, 1)];
        }
        "C04" => {
            add(&mut t, BULK, 8);
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 5);
            add(&mut t, READ, 1);
            p.faults = mix_faults(&mut r, 60, 18, 12);
            p.rate = 15;
            p.steps = (3, 30);
        }
        "C05" => {
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 3);
            add(&mut t, READ, 1);
            add(&mut t, OOB, 1);
            add(&mut t, HUGE, 1);
            add(&mut t, CURS, 1);
            t.push((Op::Debug, 2));
            t.push((Op::FillCap, 4));
            if r.chance(1, 4) {
                add(&mut t, SETS_MUT, 2);
                add(&mut t, SETS_READ, 1);
                add(&mut t, &SCURS[..1], 1);
            }
            p.faults = mix_faults(&mut r, 35, 25, 25);
            p.rate = 18;
            p.lying = r.below(3);
            p.scripted = 60;
        }
        "C06" => {
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 1);
            add(&mut t, READ, 1);
            t.push((Op::FillCap, 50));
            t.push((Op::Reserve, 40));
            t.push((Op::WithCap, 25));
            t.push((Op::Shrink, 12));
            t.push((Op::HugeReserve, 3));
            p.faults = mix_faults(&mut r, 75, 8, 12);
            p.rate = 10;
        }
        "C07" => {
            add(&mut t, MUT, 3);
            add(&mut t, &NEW[..5], 3);
            add(&mut t, &BULK[..4], 2);
            t.push((Op::Resize, 25));
            t.push((Op::FromElem, 15));
            t.push((Op::ShrinkAll, 12));
            t.push((Op::Shrink, 10));
            t.push((Op::Drop, 4));
            budget = true;
            p.faults = mix_faults(&mut r, 85, 15, 0);
            p.rate = 6;
        }
        "C08" => {
            add(&mut t, MUT, 3);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 1);
            t.push((Op::Replica, 60));
            t.push((Op::Every, 40));
            t.push((Op::Eq, 40));
            t.push((Op::Hash, 25));
            t.push((Op::Any, 15));
            t.push((Op::All, 15));
            p.faults = mix_faults(&mut r, 65, 20, 10);
            p.rate = 10;
        }
        "C09" => {
            clients = 2 + r.below(3) as u8;
            add(&mut t, READ, 12);
            add(&mut t, MUT, 1);
            add(&mut t, &NEW[2..5], 2);
            add(&mut t, BULK, 1);
            add(&mut t, CURS, 1);
            t.push((Op::Every, 20));
            t.push((Op::Debug, 12));
            t.push((Op::Clone, 12));
            t.push((Op::Probe, 1));
            add(&mut t, SETS_READ, 5);
            add(&mut t, SETS_MUT, 1);
            add(&mut t, &SCURS[..1], 1);
            t.push((Op::SDebug, 4));
            p.faults = mix_faults(&mut r, 45, 35, 10);
            p.rate = 12;
            p.scripted = 70;
            p.steps = (2, 12);
        }
        "C10" => {
            add(&mut t, CURS, 12);
            add(&mut t, MUT, 1);
            add(&mut t, &NEW[2..5], 3);
            t.push((Op::IterAll, 20));
            p.faults = mix_faults(&mut r, 60, 38, 2);
            p.rate = 12;
            p.scripted = 65;
            p.steps = (6, 60);
        }
        "C11" => {
            add(&mut t, SETS_MUT, 4);
            add(&mut t, SETS_READ, 4);
            add(&mut t, SCURS, 3);
            p.faults = mix_faults(&mut r, 55, 35, 5);
            p.rate = 12;
            p.lying = r.below(2);
            p.steps = (4, 60);
            sets_only = true;
        }
        "C12" => {
            add(&mut t, MUT, 1);
            add(&mut t, NEW, 2);
            add(&mut t, SETS_MUT, 1);
            t.push((Op::Debug, 70));
            t.push((Op::SDebug, 60));
            t.push((Op::Hash, 30));
            t.push((Op::SHash, 15));
            t.push((Op::Replica, 10));
            p.faults = mix_faults(&mut r, 60, 38, 0);
            p.rate = 20;
            p.steps = (3, 25);
        }
        "C13" => {
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 2);
            t.push((Op::Extend, 70));
            t.push((Op::Feed, 10));
            t.push((Op::Collect, 40));
            t.push((Op::SExtend, 25));
            t.push((Op::SCollect, 12));
            add(&mut t, SETS_MUT, 1);
            p.lying = 1 + r.below(3);
            p.faults = mix_faults(&mut r, 70, 15, 10);
            p.rate = 8;
            p.steps = (3, 25);
        }
        "C19" => {
            add(&mut t, READ, 3);
            add(&mut t, MUT, 2);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 2);
            add(&mut t, CURS, 1);
            for (o, w) in [(Op::Retain, 20), (Op::ForEach, 14), (Op::Extend, 24), (Op::Collect, 10), (Op::Debug, 24), (Op::Hash, 8), (Op::Eq, 4), (Op::IterAll, 6), (Op::SDebug, 6)] {
                t.push((o, w));
            }
            add(&mut t, SETS_READ, 1);
            add(&mut t, SETS_MUT, 1);
            p.faults = mix_faults(&mut r, 60, 25, 10);
            p.rate = 12;
            p.scripted = 75;
            p.steps = (2, 10);
        }
        "C20" => {
            add(&mut t, MUT, 1);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 1);
            add(&mut t, SETS_MUT, 1);
            for (o, w) in [(Op::Retain, 40), (Op::ForEach, 40), (Op::Extend, 40), (Op::Collect, 20), (Op::SExtend, 10), (Op::SCollect, 5), (Op::Debug, 10), (Op::SDebug, 5), (Op::Hash, 5), (Op::IterAll, 5)] {
                t.push((o, w));
            }
            p.faults = mix_faults(&mut r, 40, 50, 5);
            p.rate = 20;
            p.lying = r.below(2);
            p.scripted = 60;
            p.steps = (3, 25);
        }
        "C21" => {
            add(&mut t, MUT, 1);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 1);
            t.push((Op::Grow, 80));
            t.push((Op::Truncate, 6));
            t.push((Op::Clear, 10));
            t.push((Op::Shrink, 8));
            p.faults = mix_faults(&mut r, 80, 20, 0);
            p.rate = 10;
            p.steps = (2, 12);
        }
        _ => {
            add(&mut t, OOB, 9);
            add(&mut t, MUT, 3);
            add(&mut t, NEW, 2);
            add(&mut t, BULK, 2);
            t.push((Op::Get, 3));
            p.faults = mix_faults(&mut r, 75, 12, 8);
            p.rate = 10;
        }
    }
    // swarm: this run uses a subset of its operations
    let keep = 30 + r.below(71);
    for w in t {
        if r.below(100) < keep {
            p.table.push(w);
        }
    }
    if p.table.is_empty() {
        p.table.push((Op::Push, 1));
        p.table.push((Op::SIns, 1));
    }
    let want_scripted = r.below(100) < p.scripted;
    let set = if want_scripted || r.chance(1, 2) {
        let c: Vec<_> = sets().iter().filter(|k| k.name().contains("P<")).collect();
        **r.pick(&c)
    } else {
        *r.pick(sets())
    };
    let kinds: Vec<&&dyn Kind> = kinds()
        .iter()
        .filter(|k| !want_scripted || k.scripted())
        .filter(|k| prop != "C10" || k.card() <= 3000 || i % 2 == 0)
        .collect();
    let mut k = **r.pick(&kinds);
    if !slim().is_empty() && matches!(prop, "C01" | "C08") && r.chance(1, 4) {
        k = *r.pick(slim());
        p.table.retain(|w| SLIM_OPS.contains(&w.0));
        p.table.extend([(Op::Push, 4), (Op::Set, 4), (Op::Every, 3)]);
        p.follow = &[];
    }
    let (card, epb) = (k.card(), k.epb() as u64);
    let mut alphabet = vec![];
    for _ in 0..1 + r.below(6) {
        alphabet.push(match r.below(4) {
            0 => 0,
            1 => card - 1,
            _ => r.below(card),
        });
    }
    let scard = set.card();
    let salphabet: Vec<u64> = (0..1 + r.below(12)).map(|_| r.below(scard)).collect();
    let span = match r.below(20) {
        0..=5 => 3 + epb,
        6..=11 => 3 * epb + 8,
        12..=16 => 9 * epb + 20,
        17 | 18 => 200 + r.below(400),
        _ => match prop {
            "C07" | "C06" | "C03" | "C01" => 1000 + r.below(12_000),
            _ if r.chance(1, 4) => 1000 + r.below(12_000),
            _ => 400 + r.below(1200),
        },
    }
    .min(12_000);
    let (lo, hi) = p.steps;
    let mut n = lo + r.below(hi - lo + 1);
    if r.chance(1, 12) {
        n *= 3;
    }
    if span > 300 {
        n = n.min(14);
    }
    let mut pr = Prog {
        prop: prop.into(),
        kind: k.name().into(),
        set: set.name().into(),
        fill: match r.below(4) {
            0 => Fill::Zero,
            1 => Fill::Ones,
            _ => Fill::Random,
        },
        fill_seed: r.next(),
        guard: prop == "C05" && r.chance(1, 3),
        inplace: r.chance(1, 3),
        budget,
        clients,
        sched_seed: r.next(),
        den: *r.pick(&[1, 2, 3, 5, 10, 40]),
        stall: *r.pick(&[0, 0, 10, 40]),
        calm: (r.chance(1, 3) || calm()) && clients > 1,
        forced: None,
        steps: vec![],
    };
    if clients > 1 || prop == "C19" {
        pr.fill = Fill::Const(r.below(256) as u8);
    }
    let mut g = Gen {
        r, card, scard, epb, alphabet, salphabet, span, marks: vec![], nslots: 1, lying: p.lying, cnt: 0, read_shared: false,
    };
    g.nslots = 1 + g.r.below(if prop == "C01" { 2 } else { 4 });
    if matches!(prop, "C04" | "C08") {
        g.nslots = 2 + g.r.below(3);
    }
    let total: u64 = p.table.iter().map(|w| w.1 as u64).sum();
    let draw = |g: &mut Gen, table: &[W], total: u64| -> Op {
        let mut x = g.r.below(total);
        for &(o, w) in table {
            if x < w as u64 {
                return o;
            }
            x -= w as u64;
        }
        table[0].0
    };
    if i % GIANTS == GIANTS - 1 && !k.slim() && !sets_only && clients == 1 && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06" | "C07" | "C08" | "C10" | "C14") {
        giant(&mut g, &mut pr, p.faults, p.rate);
        return pr;
    }
    let nests = prop == "C19";
    if clients > 1 || nests {
        // shared objects: two or three vectors, two sets
        for s in 0..3u64 {
            let n = g.size().min(150);
            let mut st = Step { client: SETUP, at: 0, lev: 0, op: Op::FromKeys, a: [s, s, 0, 0], keys: g.keys(n), fault: Fault::None };
            if s == 2 && g.r.chance(1, 2) {
                // equal contents to the first
                st.op = Op::Replica;
                st.a = [0, 2, g.r.below(10), g.r.below(1000) << 20];
                st.keys.clear();
            }
            pr.steps.push(st);
        }
        for s in 0..2u64 {
            let n = g.r.below(30);
            let keys = (0..n).map(|_| g.skey()).collect();
            pr.steps.push(Step { client: SETUP, at: 0, lev: 0, op: Op::SCollect, a: [s, 0, 0, 0], keys, fault: Fault::None });
        }
        g.read_shared = true;
    }
    // something to work on
    if !sets_only && clients == 1 && g.r.chance(3, 4) {
        for s in 0..g.nslots {
            let mut st = g.make(if g.r.clone().chance(1, 2) { Op::FromKeys } else { Op::FromElem });
            st.a[0] = s;
            pr.steps.push(st);
        }
    }
    if prop == "C10" {
        let mut st = g.make(*Rng::new(i ^ seed).pick(&[Op::CurIter, Op::CurInto, Op::CurValues]));
        st.a[0] = 0;
        pr.steps.push(st);
    }
    let mut hot: Option<u64> = None;
    for c in 0..clients {
        let mut left = n;
        while left > 0 {
            left -= 1;
            // right after an interruption, work on what it touched
            let op = match hot.take() {
                Some(_) if !p.follow.is_empty() && g.r.chance(1, 2) => {
                    let tot = p.follow.iter().map(|w| w.1 as u64).sum();
                    draw(&mut g, p.follow, tot)
                }
                _ => draw(&mut g, &p.table, total),
            };
            let mut st = g.make(op);
            st.client = c;
            if p.faults != Faults::No && g.r.below(100) < p.rate {
                let panic = match p.faults {
                    Faults::Panics => true,
                    Faults::Refusals => false,
                    _ => g.r.chance(1, 2),
                };
                st.fault = if panic {
                    Fault::Panic(g.panic_at())
                } else {
                    match g.r.below(6) {
                        0 => Fault::Deny,
                        1 => Fault::Oom(1 + g.r.below(3) as u32, 1 + g.r.below(4) as u32),
                        _ => Fault::Oom(1 + g.r.below(2) as u32, 1),
                    }
                };
                if !panic && g.r.chance(1, 2) && st.op != Op::Replica {
                    st.a[3] |= 1 << 16;
                }
                hot = Some(st.a[0]);
            } else if clients > 1 && !pr.calm && g.r.chance(1, 4) {
                let b = if g.r.chance(1, 8) { 8 + g.r.below(4) } else { 2 + g.r.below(7) };
                st.fault = Fault::Preempt(1 + g.r.below(1 << b) as u32);
            }
            pr.steps.push(st);
            if nests && g.r.chance(3, 4) {
                // what caller code does meanwhile
                let mut at = g.panic_at();
                let mut lev = 1;
                for j in 0..1 + g.r.below(5) {
                    // inside what the step before does, or beside it
                    if j > 0 && g.r.chance(1, 2) && lev < NEST {
                        lev += 1;
                        at = if g.r.chance(2, 3) { 1 + g.r.below(4) as u32 } else { g.panic_at() };
                    } else if lev > 1 && g.r.chance(1, 3) {
                        lev -= 1;
                    }
                    let op = draw(&mut g, &p.table, total);
                    let mut st = g.make(op);
                    st.client = c;
                    st.at = at;
                    st.lev = lev;
                    if g.r.chance(1, 10) {
                        st.fault = if g.r.chance(2, 3) { Fault::Panic(g.panic_at()) } else { Fault::Oom(1, 1) };
                    }
                    pr.steps.push(st);
                    at += g.r.below(3) as u32;
                }
            }
        }
    }
    if clients > 1 {
        pr.steps.push(Step { client: 0, at: 0, lev: 0, op: Op::Probe, a: [0; 4], keys: vec![], fault: Fault::None });
    }
    pr
}
