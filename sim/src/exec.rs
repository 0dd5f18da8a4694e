//! Executes the steps of one caller against the code under test and decides every observation.
use crate::alloc;
use crate::ends::{Script, Sink};
use crate::prog::{l, Fault, Op, Step, SHARED};
use crate::rng::mix;
use crate::seam::{self, Out};
use crate::setobj::{SetKind, SetObj, S};
use crate::vecobj::{packed_bytes, CurOp, CurRes, Cursor, Kind, VecObj, B, CUR_OPS};
use std::cell::UnsafeCell;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;

pub const NV: usize = 4;
pub const NS: usize = 3;
pub const NC: usize = 3;
/// Vectors are not grown beyond this many elements.
/// No vector grows beyond this in a run, except in the few runs that start out with more.
static LIM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(20_000);
pub fn set_lim(steps: &[Step]) {
    let most = steps.iter().filter(|s| s.op == Op::FromElem).map(|s| s.a[1] as usize).max().unwrap_or(0);
    LIM.store(if most > 20_000 { (3 * most).min(1_000_000) } else { 20_000 }, std::sync::atomic::Ordering::Relaxed);
}
fn lim() -> usize {
    LIM.load(std::sync::atomic::Ordering::Relaxed)
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub client: u8,
    pub step: usize,
    pub labels: u32,
    pub msg: String,
}
#[derive(Default)]
pub struct Slot {
    pub v: Option<B>,
    pub m: Vec<u64>,
    /// Most elements this vector had to hold or was asked to reserve.
    hw: usize,
    /// Capacity it was promised.
    g: usize,
    /// Capacity last seen, and how often it grew since it was last created or shrunk.
    cap: usize,
    grown: u32,
    taint: u8,
}
#[derive(Default)]
pub struct SetSlot {
    pub s: Option<S>,
    pub m: BTreeSet<u64>,
}
#[derive(Default)]
struct CurSlot {
    c: Option<Box<dyn Cursor>>,
    rest: VecDeque<u64>,
    /// Items after those of `rest` (of cursors too long to list).
    more: usize,
    /// The vector and the sets it looks at.
    pin: Option<u64>,
    spin: Vec<usize>,
    lab: u32,
    /// The biggest vector it took over, whose memory it still holds.
    hw: Option<usize>,
}
#[derive(Default)]
pub struct Shared {
    pub vecs: Vec<(B, Vec<u64>)>,
    pub sets: Vec<(S, BTreeSet<u64>)>,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub ops: std::collections::BTreeMap<&'static str, u64>,
    pub cut_panic: u64,
    pub cut_refused: u64,
    pub retries: u64,
    pub oob: u64,
    pub sink_fails: u64,
    pub lying: u64,
    pub deny_ops: u64,
    pub budget_ops: u64,
    pub foreign: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}
/// What caller code does inside the call-backs of the step in progress.
#[derive(Default)]
pub struct Nest<'a> {
    pub inner: Option<Exec<'a>>,
    todo: Vec<(usize, Step)>,
    pub ran: Vec<Step>,
}
pub struct Exec<'a> {
    pub nest: Option<Rc<UnsafeCell<Nest<'a>>>>,
    pub kind: &'a dyn Kind,
    pub setk: &'a dyn SetKind,
    pub slots: [Slot; NV],
    pub sets: [SetSlot; NS],
    curs: [CurSlot; NC],
    pub shared: *const Shared,
    pub client: u8,
    pub at: usize,
    pub budget: bool,
    pub target: u32,
    extra: u32,
    pub viols: Vec<Viol>,
    pub stop: bool,
    pub discard: bool,
    /// Something was deliberately leaked or lost track of: no leak check.
    pub dirty: bool,
    pub log: Vec<u64>,
    pub stats: Stats,
    /// Fingerprints of the states passed through.
    pub states: Vec<u64>,
    twin: bool,
    late: u32,
    pre: Vec<Vec<u64>>,
    step_id: usize,
}

fn h64(v: &[u64]) -> u64 {
    let mut h = v.len() as u64;
    for &x in v {
        h = mix(h, x);
    }
    h
}
fn ix(a: u64, n: usize) -> usize {
    if a >= 1 << 32 {
        n - 1 - ((a - (1 << 32)) as usize % n)
    } else {
        a as usize % n
    }
}
fn out_code<R>(o: &Out<R>) -> u64 {
    match o {
        Out::Ok(_) => 1,
        Out::Inj => 2,
        Out::Oom => 3,
        Out::Fuel => 4,
        Out::Panic(_) => 5,
    }
}
fn short(v: &[u64]) -> String {
    if v.len() <= 24 {
        format!("{:?}", v)
    } else {
        format!("[{} elements, first {:?}, last {:?}]", v.len(), &v[..8], &v[v.len() - 8..])
    }
}
fn diff(want: &[u64], got: &[u64]) -> String {
    let p = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    format!("expected {} got {} (first difference at {})", short(want), short(got), p)
}
fn subseq(a: &[u64], of: &[u64]) -> bool {
    let mut i = 0;
    for x in of {
        if i < a.len() && a[i] == *x {
            i += 1;
        }
    }
    i == a.len()
}
fn pred(mode: u64, seed: u64, k: u64, pos: usize) -> bool {
    match mode % 6 {
        0 => true,
        1 => false,
        2 => mix(seed, k) % 2 == 0,
        3 => mix(seed, pos as u64) % 2 == 0,
        4 => mix(seed, pos as u64) % 8 != 0,
        _ => pos as u64 % 7 == seed % 7,
    }
}
fn fun(mode: u64, seed: u64, k: u64, pos: usize, card: u64) -> u64 {
    match mode % 4 {
        0 => k,
        1 => ((k as u128 + 1 + seed as u128) % card as u128) as u64,
        2 => mix(seed, pos as u64) % card,
        _ => if pos % 3 == 0 { seed % card } else { k },
    }
}

/// How one call on one vector is judged.
struct J<'x> {
    slot: usize,
    new: &'x [u64],
    labels: u32,
    /// A bulk load: an interrupted call may leave old + a leading part.
    bulk: bool,
    inj: Option<&'x dyn Fn(&[u64]) -> bool>,
    want_panic: bool,
    may_fail: bool,
    noalloc: bool,
}
impl<'x> J<'x> {
    fn new(slot: usize, new: &'x [u64], labels: u32) -> Self {
        J { slot, new, labels, bulk: false, inj: None, want_panic: false, may_fail: false, noalloc: false }
    }
    fn bulk(mut self) -> Self {
        self.bulk = true;
        self
    }
    fn inj(mut self, f: &'x dyn Fn(&[u64]) -> bool) -> Self {
        self.inj = Some(f);
        self
    }
    fn noalloc(mut self, x: bool) -> Self {
        self.noalloc = x;
        self
    }
    fn may_fail(mut self, x: bool) -> Self {
        self.may_fail = x;
        self
    }
}

struct Fired {
    panic: bool,
    refused: bool,
    reqs: u32,
}

impl<'a> Exec<'a> {
    pub fn new(kind: &'a dyn Kind, setk: &'a dyn SetKind, target: u32) -> Self {
        Exec {
            nest: None, kind, setk, slots: Default::default(), sets: Default::default(), curs: Default::default(),
            shared: std::ptr::null(), client: 0, at: 0, budget: false, target, extra: 0, viols: vec![], stop: false,
            discard: false, dirty: false, log: vec![], stats: Stats::default(), states: vec![], twin: false, late: 0, pre: vec![],
            step_id: 0,
        }
    }
    fn sh(&self) -> Option<&'a Shared> {
        unsafe { self.shared.as_ref() }
    }
    fn viol(&mut self, st: &Step, labels: u32, msg: String) {
        let labels = labels | self.extra;
        if labels & self.target != 0 {
            self.stop = true;
        } else {
            self.stats.foreign += 1;
        }
        let _ = st;
        // (memory use is not a result: library-wide buffers may be filled by any operation)
        if labels & !(l::C06 | l::C07 | l::C21) != 0 {
            self.log.push(mix(0xBAD, labels as u64));
        }
        self.viols.push(Viol { client: self.client, step: self.step_id, labels, msg: format!("{}: {}", st.op.name(), msg) });
        if self.viols.len() > 50 {
            self.stop = true;
        }
    }
    /// A wrong result on a vector some of whose history was cut short: would a fresh vector with the same contents
    /// have got it right?  Then the interruption is what broke it.
    fn vviol(&mut self, st: &Step, slot: usize, labels: u32, msg: String) {
        let t = self.slots[slot].taint | self.slots.iter().fold(0, |a, s| a | s.taint);
        let mut labels = labels;
        if t != 0 && !self.twin && labels & self.target == 0 {
            let ok = {
                let mut e = Exec::new(self.kind, self.setk, 0);
                e.twin = true;
                let saved = alloc::a().violation;
                for (i, m) in self.pre.iter().enumerate() {
                    if let Out::Ok(v) = self.kind.from_keys(m, 0) {
                        e.slots[i].v = Some(v);
                        e.slots[i].m = m.clone();
                    }
                }
                let mut s2 = st.clone();
                s2.fault = Fault::None;
                s2.a[3] &= 0xFFFF;
                e.step(&s2);
                let ok = e.viols.is_empty();
                e.finish();
                alloc::a().violation = saved;
                ok
            };
            if ok {
                if t & 1 != 0 {
                    labels |= l::C02;
                }
                if t & 2 != 0 {
                    labels |= l::C03;
                }
            }
        }
        self.viol(st, labels, msg);
    }

    fn begin(&mut self, st: &Step) {
        let (p, f) = match st.fault {
            Fault::Panic(n) => (Some(n), None),
            Fault::Oom(n, m) => (None, Some((n, m))),
            Fault::Deny => (None, Some((1, u32::MAX))),
            Fault::None | Fault::Preempt(_) => (None, None),
        };
        seam::arm_faults(p, f);
        if let Fault::Preempt(n) = st.fault {
            crate::preempt::arm(n);
        }
        if let Some(n) = &self.nest {
            if unsafe { !(*n.get()).todo.is_empty() } {
                seam::CTX.with(|c| c.nest.set(Some((Self::nested, n.get() as *mut u8))));
            }
        }
    }
    /// Called from inside a call-back of the call in progress.
    fn nested(p: *mut u8, n: u32) {
        let nest = unsafe { &mut *(p as *mut Nest) };
        let mut i = 0;
        while i < nest.todo.len() {
            if nest.todo[i].1.at != n {
                let l = nest.todo[i].1.lev;
                i += 1;
                while i < nest.todo.len() && nest.todo[i].1.lev > l {
                    i += 1;
                }
                continue;
            }
            let (id, mut st) = nest.todo.remove(i);
            let n = nest.todo[i..].iter().take_while(|s| s.1.lev > st.lev).count();
            let below: Vec<_> = nest.todo.drain(i..i + n).collect();
            if let Some(e) = nest.inner.as_mut().filter(|e| !e.stop) {
                e.step_id = id;
                if let Some(deeper) = &e.nest {
                    unsafe { &mut *deeper.get() }.todo = below;
                }
                e.step(&st);
                if st.lev > 1 {
                    *e.stats.probes.entry("operations_nested_two_or_more_deep").or_insert(0) += 1;
                }
                *e.stats.probes.entry("operations_nested_in_caller_code").or_insert(0) += 1;
                st.at = 0;
                st.lev = 0;
                nest.ran.push(st);
            }
        }
    }
    fn end(&mut self) -> Fired {
        crate::preempt::disarm();
        let late = seam::CTX.with(|c| {
            c.nest.set(None);
            c.late.replace(0)
        });
        self.late += late;
        let (panic, refused) = seam::fired();
        let reqs = seam::CTX.with(|c| c.al.get());
        seam::clear_faults();
        Fired { panic, refused, reqs }
    }
    /// Allow this step the memory the promise gives it; `fresh`: elements of a vector the step creates.
    fn set_budget(&mut self, fresh: Option<usize>) {
        if !self.budget {
            return;
        }
        let mut b = 0;
        for s in &self.slots {
            if s.v.is_some() {
                b += 4 * packed_bytes(self.kind, s.hw) + 256;
            }
        }
        for c in &self.curs {
            if let Some(n) = c.hw {
                b += 4 * packed_bytes(self.kind, n) + 256;
            }
        }
        if let Some(n) = fresh {
            b += 4 * packed_bytes(self.kind, n) + 256;
        }
        alloc::a().budget = b;
        self.stats.budget_ops += 1;
    }
    fn need(&mut self, slot: usize, n: usize) {
        let s = &mut self.slots[slot];
        s.hw = s.hw.max(n);
    }
    fn ensure(&mut self, slot: usize) {
        if self.slots[slot].v.is_none() {
            seam::arm_faults(None, None);
            if let Out::Ok(v) = self.kind.new(slot as u64) {
                self.slots[slot] = Slot { v: Some(v), ..Slot::default() };
            } else {
                self.stop = true;
                self.discard = true;
            }
        }
    }
    fn unpin(&mut self, slot: u64) {
        for c in self.curs.iter_mut() {
            if c.pin == Some(slot) {
                *c = CurSlot::default();
            }
        }
    }
    fn sunpin(&mut self, set: usize) {
        for c in self.curs.iter_mut() {
            if c.spin.contains(&set) {
                *c = CurSlot::default();
            }
        }
    }
    fn put(&mut self, slot: usize, v: B, m: Vec<u64>) {
        self.unpin(slot as u64);
        if let Some(o) = self.slots[slot].v.take() {
            seam::arm_faults(None, None);
            let _ = o.drop_it();
        }
        let n = m.len();
        self.slots[slot] = Slot { v: Some(v), m, hw: n, ..Slot::default() };
        self.slots[slot].cap = self.cap(slot);
    }
    fn forget(&mut self, slot: usize) {
        self.unpin(slot as u64);
        if let Some(o) = self.slots[slot].v.take() {
            std::mem::forget(o);
        }
        self.slots[slot] = Slot::default();
        self.dirty = true;
    }
    /// Contents of a slot, or a violation.
    fn snap(&mut self, st: &Step, slot: usize, labels: u32) -> Option<Vec<u64>> {
        match self.slots[slot].v.as_ref().unwrap().snapshot() {
            Ok(s) => Some(s),
            Err(e) => {
                self.vviol(st, slot, labels, format!("vector unreadable afterwards: {}", e));
                self.forget(slot);
                None
            }
        }
    }
    /// The observed contents become the model.
    fn resync(&mut self, slot: usize, s: Vec<u64>) {
        if s.len() > 4 * lim() {
            self.forget(slot);
            return;
        }
        self.slots[slot].m = s;
    }

    fn judge<R>(&mut self, st: &Step, out: Out<R>, ret: impl FnOnce(&R) -> Option<String>, j: J) -> bool {
        let f = self.end();
        let slot = j.slot;
        let old = std::mem::take(&mut self.slots[slot].m);
        let lab = j.labels;
        self.log.push(mix(out_code(&out), st.op as u64));
        let snap = match self.snap(st, slot, lab | if matches!(out, Out::Inj) { l::C02 } else { 0 } | if f.refused { l::C03 } else { 0 }) {
            Some(s) => s,
            None => return false,
        };
        self.log.push(h64(&snap));
        if j.noalloc && f.reqs > 0 && !f.panic {
            self.vviol(st, slot, l::C06, format!("requested memory {} time(s)", f.reqs));
        }
        if f.refused && self.budget && st.fault == Fault::None {
            let a = alloc::a();
            self.vviol(st, slot, l::C07, format!("needed more memory than the budget (held {} bytes, biggest vector had {} elements)", a.live, self.slots[slot].hw));
        }
        let prefix = |s: &[u64]| s.len() >= old.len() && s.len() <= j.new.len() && s == &j.new[..s.len()];
        let mut ok = false;
        match out {
            Out::Ok(r) => {
                let bad = ret(&r);
                let lab = if f.refused { lab | l::C03 } else if f.panic { lab | l::C02 } else { lab };
                if f.panic {
                    self.vviol(st, slot, l::C02, "a panic in caller code did not reach the caller".into());
                }
                if j.want_panic {
                    self.vviol(st, slot, l::C14, "an out-of-range request was accepted".into());
                } else if let Some(m) = bad {
                    self.vviol(st, slot, lab, m);
                }
                if snap != j.new {
                    let lab = if j.want_panic { l::C14 } else { lab };
                    self.vviol(st, slot, lab, diff(j.new, &snap));
                }
                ok = true;
                self.resync(slot, snap);
            }
            Out::Inj => {
                self.stats.cut_panic += 1;
                let good = match j.inj {
                    Some(f) => f(&snap),
                    None => snap == old || snap == j.new || (j.bulk && prefix(&snap)),
                };
                if !good {
                    let extra = lab & (l::C04 | l::C13);
                    self.vviol(st, slot, l::C02 | extra, format!("state after a panic in caller code: was {} now {}", short(&old), short(&snap)));
                }
                self.slots[slot].taint |= 1;
                self.resync(slot, snap);
            }
            Out::Fuel => {
                if j.may_fail {
                    self.discard = true;
                    self.stop = true;
                } else {
                    self.vviol(st, slot, lab, "does not finish".into());
                }
                self.resync(slot, snap);
            }
            Out::Oom | Out::Panic(_) => {
                let msg = if let Out::Panic(m) = &out { m.clone() } else { "allocation failure".into() };
                if f.refused || j.may_fail {
                    self.stats.cut_refused += f.refused as u64;
                    let good = snap == old || (j.bulk && prefix(&snap));
                    if !good {
                        let extra = lab & (l::C04 | l::C13);
                        self.vviol(st, slot, l::C03 | extra, format!("state after a failed request ({}): was {} now {}", msg, short(&old), short(&snap)));
                    }
                    self.slots[slot].taint |= 2;
                } else if j.want_panic {
                    self.stats.oob += 1;
                    if snap != old {
                        self.vviol(st, slot, l::C14, format!("an out-of-range request changed the vector: {}", diff(&old, &snap)));
                    }
                } else {
                    let lab = if f.panic { lab | l::C02 } else { lab };
                    self.vviol(st, slot, lab, format!("unexpected panic: {}", msg));
                }
                self.resync(slot, snap);
            }
        }
        self.common(st);
        ok
    }
    /// Checks after every call.
    fn common(&mut self, st: &Step) {
        if std::mem::take(&mut self.late) > 0 {
            self.viol(st, l::C20, "called caller code although a panic of caller code was already on its way out".into());
        }
        let gl = seam::g();
        if gl.invalid_discr > 0 {
            let (x, n) = gl.invalid_info;
            gl.invalid_discr = 0;
            self.viol(st, l::C05, format!("caller's from_discr was handed {} (of {} values)", x, n));
        }
        let a = alloc::a();
        if a.blocks() < 400 {
            a.check_all();
        }
        if let Some(v) = a.violation.take() {
            let i = a.vinfo;
            self.viol(st, l::C05, format!("{} {:?}", v, i));
            self.stop = true;
            self.dirty = true;
        }
    }
    /// Slots the step did not name must not change.
    fn others(&mut self, st: &Step, touched: &[usize]) {
        for i in 0..NV {
            if touched.contains(&i) || self.slots[i].v.is_none() || self.slots[i].m.len() > 400 {
                continue;
            }
            match self.slots[i].v.as_ref().unwrap().snapshot() {
                Ok(s) if s == self.slots[i].m => {}
                Ok(s) => {
                    let d = diff(&self.slots[i].m, &s);
                    self.vviol(st, i, l::C01 | l::C04, format!("another vector (v{}) changed: {}", i, d));
                    self.resync(i, s);
                }
                Err(e) => {
                    self.vviol(st, i, l::C01 | l::C04, format!("another vector (v{}) became unreadable: {}", i, e));
                    self.forget(i);
                }
            }
        }
    }

    fn cap(&self, slot: usize) -> usize {
        self.slots[slot].v.as_ref().unwrap().capacity().unwrap_or(0)
    }
    /// May this growth to `n` elements not request memory?
    fn fits(&self, slot: usize, n: usize) -> bool {
        n <= self.cap(slot).max(self.slots[slot].g)
    }
    fn check_cap(&mut self, st: &Step, slot: usize) {
        if self.slots[slot].v.is_none() {
            return;
        }
        let (c, g, len) = (self.cap(slot), self.slots[slot].g, self.slots[slot].m.len());
        self.log.push(c as u64);
        self.note_growth(slot, c);
        let (n, most) = (self.slots[slot].grown, self.few(self.slots[slot].hw));
        if n > most {
            self.vviol(st, slot, l::C21, format!("the capacity grew {} times on the way to {} elements (at most {} expected)", n, self.slots[slot].hw, most));
            self.slots[slot].grown = 0;
        }
        if c < g {
            self.vviol(st, slot, l::C06, format!("capacity {} although {} was promised", c, g));
            self.slots[slot].g = 0;
        }
        if c < len {
            self.vviol(st, slot, l::C06, format!("capacity {} below the length {}", c, len));
        }
    }
    fn script(&self, st: &Step) -> Script {
        let card = self.kind.card();
        let na = (st.a[3] & 0xFFFF).min(st.keys.len() as u64) as usize;
        let n = st.keys.len() - na;
        let k: Vec<u64> = st.keys.iter().map(|k| k % card).collect();
        Script { items: k[..n].to_vec(), after: k[n..].to_vec(), mode: st.a[1] % crate::ends::HINT_MODES, n: st.a[2] }
    }

    /// How the source of a bulk load was used.
    fn source(&mut self, st: &Step, s: &Script, log: &std::rc::Rc<crate::ends::SrcLog>, ok: bool) {
        if std::rc::Rc::strong_count(log) != 1 {
            self.viol(st, l::C05, "the source was not dropped".into());
        }
        if log.polled_after.get() > 0 {
            self.viol(st, l::C20, format!("the source was asked {} more time(s) after it had ended", log.polled_after.get()));
        }
        if ok && (!log.ended.get() || log.yielded.get() != s.items.len()) {
            self.viol(st, l::C20, format!("{} of {} items were taken from the source", log.yielded.get(), s.items.len()));
        }
    }
    pub fn step(&mut self, st: &Step) {
        self.stats.steps += 1;
        *self.stats.ops.entry(st.op.name()).or_insert(0) += 1;
        if !self.twin && self.slots.iter().any(|s| s.taint != 0) {
            self.pre = self.slots.iter().map(|s| s.m.clone()).collect();
        }
        let before = self.viols.len();
        let cut = self.stats.cut_refused;
        self.dispatch(st);
        if !self.stop && st.a[3] >> 16 & 1 == 1 && matches!(st.fault, Fault::Oom(..) | Fault::Deny) && self.stats.cut_refused > cut && self.viols.len() == before {
            // memory is back: the same call must now succeed
            let mut s2 = st.clone();
            s2.fault = Fault::None;
            s2.a[3] &= 0xFFFF;
            self.stats.retries += 1;
            self.extra |= l::C03;
            self.dispatch(&s2);
            self.extra &= !l::C03;
        }
        let mut fp = st.op as u64;
        for s in &self.slots {
            fp = mix(fp, if s.v.is_some() { h64(&s.m) ^ s.taint as u64 } else { 1 });
        }
        for s in &self.sets {
            fp = mix(fp, s.m.iter().fold(s.m.len() as u64, |a, &b| mix(a, b)));
        }
        for c in &self.curs {
            fp = mix(fp, c.rest.len() as u64);
        }
        self.states.push(fp);
    }

    fn dispatch(&mut self, st: &Step) {
        let a = st.a;
        let card = self.kind.card();
        if st.op as u8 >= Op::SNew as u8 && (st.op as u8) < Op::Probe as u8 {
            return self.set_step(st);
        }
        match st.op {
            Op::Probe => return self.probe(st),
            Op::CurIter | Op::CurInto | Op::CurValues | Op::SCur | Op::SCurValues | Op::CurDup | Op::CurCall | Op::CurClose => {
                return self.cur_step(st)
            }
            Op::Len | Op::Get | Op::Any | Op::All | Op::Every | Op::Eq | Op::Hash | Op::Debug | Op::IterAll | Op::ToVec
            | Op::GetOob | Op::Clone => return self.read_step(st),
            Op::Replica => return self.replica(st),
            _ => {}
        }
        let v = a[0] as usize % NV;
        // constructors replace the slot
        match st.op {
            Op::New | Op::WithCap | Op::FromElem | Op::FromKeys | Op::Collect | Op::HugeWithCap | Op::HugeFromElem => {
                return self.construct(st, v)
            }
            Op::Drop => {
                self.unpin(v as u64);
                if let Some(o) = self.slots[v].v.take() {
                    self.begin(st);
                    let r = o.drop_it();
                    self.end();
                    if !matches!(r, Out::Ok(())) {
                        self.vviol(st, v, l::C05, format!("dropping failed: {:?}", r));
                    }
                }
                self.slots[v] = Slot::default();
                self.common(st);
                return self.others(st, &[v]);
            }
            _ => {}
        }
        self.ensure(v);
        if self.stop {
            return;
        }
        self.unpin(v as u64);
        let old = self.slots[v].m.clone();
        let len = old.len();
        let k = a[2] % card;
        macro_rules! o {
            () => {
                self.slots[v].v.as_mut().unwrap()
            };
        }
        let mut touched = vec![v];
        let one = l::C01;
        match st.op {
            Op::Set if len > 0 => {
                let i = ix(a[1], len);
                let mut new = old;
                new[i] = k;
                self.set_budget(None);
                self.begin(st);
                let r = o!().set(i, k);
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(true));
            }
            Op::Push => {
                let mut new = old;
                new.push(k);
                self.need(v, len + 1);
                let na = self.fits(v, len + 1);
                self.set_budget(None);
                self.begin(st);
                let r = o!().push(k);
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(na));
            }
            Op::Pop | Op::PopEmpty => {
                let mut new = old;
                if st.op == Op::PopEmpty {
                    // empty it first
                    seam::arm_faults(None, None);
                    let _ = o!().clear();
                    new.clear();
                    self.slots[v].m.clear();
                }
                let want = new.pop();
                self.begin(st);
                let r = o!().pop();
                let lab = if want.is_none() { one | l::C14 } else { one };
                self.judge(st, r, |r| if *r == want { None } else { Some(format!("returned {:?}, expected {:?}", r, want)) },
                    J::new(v, &new, lab).noalloc(true));
            }
            Op::Insert => {
                let i = ix(a[1], len + 1);
                let mut new = old;
                new.insert(i, k);
                self.need(v, len + 1);
                let na = self.fits(v, len + 1);
                self.set_budget(None);
                self.begin(st);
                let r = o!().insert(i, k);
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(na));
            }
            Op::Remove if len > 0 => {
                let i = ix(a[1], len);
                let mut new = old;
                let want = new.remove(i);
                self.begin(st);
                let r = o!().remove(i);
                self.judge(st, r, |r| if *r == want { None } else { Some(format!("remove({}) returned {} expected {}", i, r, want)) },
                    J::new(v, &new, one).noalloc(true));
            }
            Op::SwapRemove if len > 0 => {
                let i = ix(a[1], len);
                let mut sw = old.clone();
                sw.swap(i, len - 1);
                let mut new = old.clone();
                let want = new.swap_remove(i);
                self.begin(st);
                let r = o!().swap_remove(i);
                self.judge(st, r, |r| if *r == want { None } else { Some(format!("swap_remove({}) returned {} expected {}", i, r, want)) },
                    J::new(v, &new, one).noalloc(true).inj(&|s| s == old || s == new || s == sw));
            }
            Op::Swap if len > 0 => {
                let (i, j) = (ix(a[1], len), ix(a[2], len));
                let mut new = old;
                new.swap(i, j);
                self.begin(st);
                let r = o!().swap(i, j);
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(true));
            }
            Op::Truncate | Op::TruncOob => {
                let n = if st.op == Op::TruncOob { len.saturating_add(a[1] as usize) } else { ix(a[1], len + 1) };
                let mut new = old;
                new.truncate(n);
                self.begin(st);
                let r = o!().truncate(n);
                let lab = if n >= len { one | l::C14 } else { one };
                self.judge(st, r, |_| None, J::new(v, &new, lab).noalloc(true));
            }
            Op::Clear => {
                self.begin(st);
                let r = o!().clear();
                self.judge(st, r, |_| None, J::new(v, &[], one).noalloc(true));
            }
            Op::Resize => {
                let n = (a[1] as usize).min(lim());
                let mut new = old;
                new.resize(n, k);
                self.need(v, n);
                let na = n <= len || self.fits(v, n);
                self.set_budget(None);
                self.begin(st);
                let r = o!().resize(n, k);
                self.judge(st, r, |_| None, J::new(v, &new, one).bulk().noalloc(na));
            }
            Op::HugeResize => {
                let n = huge(a[1]);
                // what a leading part may look like
                let mut new = old;
                new.resize(len + 4 * lim(), k);
                self.begin(st);
                let r = o!().resize(n, k);
                self.judge(st, r, |_| Some("claims to hold more elements than memory can".into()), J::new(v, &new, one | l::C03).bulk().may_fail(true));
            }
            Op::HugeReserve => {
                let n = huge(a[1]);
                self.begin(st);
                let r = o!().reserve(n);
                let c = self.cap(v);
                let want = len.saturating_add(n);
                self.judge(st, r, |_| if c >= want { None } else { Some(format!("reserve({}) succeeded but the capacity is {}", n, c)) },
                    J::new(v, &old, l::C03 | l::C06).may_fail(true));
            }
            Op::Retain => {
                let mut visits: Vec<(u64, bool)> = Vec::with_capacity(len);
                self.begin(st);
                let r = o!().retain(&mut |x| {
                    let b = pred(a[1], a[2], x, visits.len());
                    visits.push((x, b));
                    b
                });
                let keep: Vec<u64> = old.iter().enumerate().filter(|(p, x)| pred(a[1], a[2], **x, *p)).map(|x| *x.1).collect();
                let seen: Vec<u64> = visits.iter().map(|x| x.0).collect();
                let done = visits.len().min(len);
                let acc: Vec<u64> = visits.iter().filter(|x| x.1).map(|x| x.0).collect();
                let inj = |s: &[u64]| {
                    let unj = &old[done..];
                    s.len() >= unj.len() && s.len() <= len && s[s.len() - unj.len()..] == *unj && {
                        let head = &s[..s.len() - unj.len()];
                        subseq(&acc, head) && head.iter().all(|x| old[..done].contains(x))
                    }
                };
                let inj_visits = !old.starts_with(&seen);
                let cut = matches!(r, Out::Inj);
                let bad = if cut { inj_visits } else { matches!(r, Out::Ok(_)) && seen != old };
                self.judge(st, r, |_| None, J::new(v, &keep, one).noalloc(true).inj(&inj));
                if bad {
                    self.vviol(st, v, l::C01 | l::C20, format!("predicate saw {}", diff(&old, &seen)));
                }
            }
            Op::ForEach => {
                let mut seen: Vec<u64> = Vec::with_capacity(len);
                self.begin(st);
                let r = o!().for_each(&mut |x| {
                    seen.push(x);
                    fun(a[1], a[2], x, seen.len() - 1, card)
                });
                let new: Vec<u64> = old.iter().enumerate().map(|(p, x)| fun(a[1], a[2], *x, p, card)).collect();
                let done = seen.len();
                // the closure had returned from `done` calls; only the last of these may still have been on its way back
                // into the vector, and only if the panic was not that of the next call of the closure
                let at_closure = seam::CTX.with(|c| c.panic_pt.get()) == seam::Pt::Closure as u8;
                let sure = if at_closure { done } else { done.saturating_sub(1) };
                let inj = |s: &[u64]| {
                    s.len() == len && (0..len).all(|p| if p < sure { s[p] == new[p] } else { s[p] == old[p] || (p < done && s[p] == new[p]) })
                };
                let bad = if matches!(r, Out::Inj) { !old.starts_with(&seen) } else { matches!(r, Out::Ok(_)) && seen != old };
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(true).inj(&inj));
                if bad {
                    self.vviol(st, v, l::C01 | l::C20, format!("closure saw {}", diff(&old, &seen)));
                }
            }
            Op::Extend => {
                let s = self.script(st);
                if len + s.items.len() > lim() {
                    return;
                }
                let mut new = old;
                new.extend_from_slice(&s.items);
                let na = !s.lies() && self.fits(v, new.len());
                self.need(v, new.len());
                self.stats.lying += s.lies() as u64;
                self.set_budget(None);
                self.begin(st);
                let (r, log) = o!().extend(&s);
                let lab = if s.lies() { l::C13 } else { one | l::C13 };
                self.source(st, &s, &log, matches!(r, Out::Ok(_)));
                self.judge(st, r, |_| None, J::new(v, &new, lab).bulk().noalloc(na).may_fail(s.too_big()));
            }
            Op::Revive if len > 0 => {
                // documented for clear(): the old elements come back with the length
                let n = ix(a[1], len + 1);
                let new = old[..n].to_vec();
                self.begin(st);
                let r = o!().revive(n);
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(true));
            }
            Op::Feed => {
                let how = a[2] % 8;
                let n = if a[3] & 0x8000 != 0 { usize::MAX } else { (a[3] & 0x7FFF) as usize };
                let mut w = None;
                let add: Vec<u64> = if how >= 6 {
                    if card > 600 {
                        return;
                    }
                    match seam::quiet(|| self.kind.value_order(usize::MAX)) {
                        Ok(o) => o.into_iter().skip(n).collect(),
                        Err(_) => return,
                    }
                } else {
                    if self.budget && (how == 2 || how == 4) {
                        return;
                    }
                    let (obj, m, slot) = match self.rd(a[1]) {
                        Some(x) => x,
                        None => return,
                    };
                    if slot == Some(v) {
                        return;
                    }
                    w = Some((obj, m.clone(), slot));
                    match how {
                        0 | 2 => m,
                        1 => m.into_iter().rev().collect(),
                        3 => m.into_iter().skip(n).collect(),
                        4 => m.into_iter().take(n).rev().collect(),
                        _ => m.into_iter().filter(|k| crate::vecobj::hit(*k, n)).collect(),
                    }
                };
                if len + add.len() > lim() {
                    return;
                }
                let mut new = old;
                new.extend_from_slice(&add);
                self.need(v, new.len());
                let na = how != 2 && how != 4 && self.fits(v, new.len());
                self.set_budget(None);
                self.begin(st);
                let r = o!().feed(w.as_ref().map(|w| unsafe { &*w.0 }), how, n);
                self.judge(st, r, |_| None, J::new(v, &new, l::C13 | l::C04).bulk().noalloc(na));
                if let Some((obj, m, None)) = w {
                    if unsafe { &*obj }.snapshot().map_or(true, |s| s != m) {
                        self.vviol(st, v, l::C04 | l::C09, "the shared vector it was loaded from changed".into());
                        self.stop = true;
                    }
                }
            }
            Op::Reserve => {
                let n = (a[1] as usize).min(lim());
                self.need(v, len + n);
                let na = self.fits(v, len + n);
                self.set_budget(None);
                self.begin(st);
                let r = o!().reserve(n);
                let ok = self.judge(st, r, |_| None, J::new(v, &old, one).noalloc(na));
                if ok && self.slots[v].v.is_some() {
                    let s = &mut self.slots[v];
                    s.g = s.g.max(len + n);
                }
            }
            Op::Shrink => {
                self.shrink(st, v);
            }
            Op::ShrinkAll => {
                for i in 0..NV {
                    if self.slots[i].v.is_some() && !self.stop {
                        self.unpin(i as u64);
                        self.shrink(st, i);
                        touched.push(i);
                    }
                }
                let want: u64 = self.slots.iter().filter(|s| s.v.is_some()).map(|s| self.foot(s.m.len())).sum();
                let live = alloc::a().live;
                if !self.dirty && self.budget && !self.stop && live != want {
                    self.viol(st, l::C07, format!("all vectors shrunk, {} bytes held, packed size is {}", live, want));
                }
            }
            Op::RawFill => {
                if len + st.keys.len() > lim() {
                    return;
                }
                let ks: Vec<u64> = st.keys.iter().map(|k| k % card).collect();
                let mut new = old;
                new.extend_from_slice(&ks);
                self.need(v, new.len());
                let na = self.fits(v, new.len());
                let kind = self.kind;
                self.set_budget(None);
                self.begin(st);
                let r = o!().raw_fill(&ks, &|k| kind.discr(k));
                self.judge(st, r, |_| None, J::new(v, &new, one).noalloc(na));
            }
            Op::Append => {
                let w = a[1] as usize % NV;
                if w == v {
                    return;
                }
                self.ensure(w);
                self.unpin(w as u64);
                if self.stop || len + self.slots[w].m.len() > lim() {
                    return;
                }
                touched.push(w);
                let src = self.slots[w].m.clone();
                let mut new = old.clone();
                new.extend_from_slice(&src);
                self.need(v, new.len());
                let na = self.fits(v, new.len());
                self.set_budget(None);
                let mut wo = self.slots[w].v.take().unwrap();
                self.begin(st);
                let r = o!().append(wo.as_mut());
                self.slots[w].v = Some(wo);
                // both sides
                let cut = !matches!(r, Out::Ok(()));
                let inj_cut = matches!(r, Out::Inj);
                let ok = self.judge(st, r, |_| None, J::new(v, &new, l::C04).noalloc(na).inj(&|s: &[u64]| {
                    s.len() >= len && s.len() <= new.len() && s == &new[..s.len()]
                }));
                self.slots[w].g = 0;
                let lab = l::C04 | if cut && inj_cut { l::C02 } else if cut { l::C03 } else { 0 };
                if let Some(s) = self.snap(st, w, lab) {
                    self.log.push(h64(&s));
                    let moved = if self.slots[v].v.is_some() { self.slots[v].m.len().saturating_sub(len).min(src.len()) } else { 0 };
                    let good = if ok {
                        s.is_empty()
                    } else if inj_cut {
                        s == src[moved..] || s == src
                    } else {
                        s == src
                    };
                    if !good {
                        let want: &[u64] = if ok { &[] } else { &src };
                        self.vviol(st, w, lab, format!("the source: {}", diff(want, &s)));
                    }
                    if cut {
                        self.slots[w].taint |= 1 + inj_cut as u8;
                    }
                    self.resync(w, s);
                }
                self.check_cap(st, w);
            }
            Op::SplitOff => {
                let w = a[2] as usize % NV;
                let at = ix(a[1], len + 1);
                let first = old[..at].to_vec();
                let rest = old[at..].to_vec();
                if w != v {
                    touched.push(w);
                }
                self.set_budget(Some(rest.len()));
                self.begin(st);
                let r = o!().split_off(at);
                let mut got = None;
                let r = r.map(|b| got = Some(b));
                self.slots[v].g = 0;
                let ok = self.judge(st, r, |_| None, J::new(v, &first, l::C04).inj(&|s: &[u64]| s == old));
                if let Some(b) = got {
                    if ok {
                        let t = self.slots[v].taint;
                        self.put(w, b, rest.clone());
                        self.slots[w].taint = t;
                        if let Some(s) = self.snap(st, w, l::C04) {
                            self.log.push(h64(&s));
                            if s != rest {
                                self.vviol(st, w, l::C04, format!("the returned part: {}", diff(&rest, &s)));
                            }
                            self.resync(w, s);
                        }
                    } else {
                        std::mem::forget(b);
                        self.dirty = true;
                    }
                }
            }
            Op::CloneFrom => {
                let w = a[1] as usize % NV;
                if w == v {
                    return;
                }
                self.ensure(w);
                if self.stop {
                    return;
                }
                let new = self.slots[w].m.clone();
                let h = self.slots[w].hw;
                self.need(v, h);
                // the old contents may be dropped before or after
                self.set_budget(Some(h));
                let wo = self.slots[w].v.take().unwrap();
                self.begin(st);
                let r = o!().clone_from(wo.as_ref());
                self.slots[w].v = Some(wo);
                self.slots[v].g = 0;
                let ok = self.judge(st, r, |_| None, J::new(v, &new, l::C04));
                if ok {
                    let t = self.slots[w].taint;
                    self.slots[v].taint = t;
                }
            }
            Op::IntoVec => {
                let b = self.slots[v].v.take().unwrap();
                self.begin(st);
                let r = b.into_vec();
                let f = self.end();
                self.log.push(out_code(&r));
                match r {
                    Out::Ok(x) => {
                        self.log.push(h64(&x));
                        if x != old {
                            // keep the slot's taint for the diagnosis
                            self.vviol(st, v, l::C04, diff(&old, &x));
                        }
                    }
                    Out::Inj => {}
                    Out::Oom if f.refused => {}
                    Out::Panic(m) if f.refused => drop(m),
                    o => self.vviol(st, v, l::C04, format!("failed: {:?}", o)),
                }
                self.slots[v] = Slot::default();
                self.common(st);
                return self.others(st, &touched);
            }
            Op::SetOob | Op::SwapOob | Op::RemoveOob | Op::SwapRemoveOob | Op::SplitOob | Op::InsertOob => {
                let off = a[1] as usize;
                let i = if st.op == Op::InsertOob || st.op == Op::SplitOob {
                    (len + 1).saturating_add(off)
                } else {
                    len.saturating_add(off)
                };
                self.begin(st);
                let mut lost = None;
                let r = match st.op {
                    Op::SetOob => o!().set(i, k),
                    Op::SwapOob => {
                        let j = if len > 0 { ix(a[2], len) } else { 0 };
                        if a[3] & 1 == 0 { o!().swap(i, j) } else { o!().swap(j, i) }
                    }
                    Op::RemoveOob => o!().remove(i).map(|_| ()),
                    Op::SwapRemoveOob => o!().swap_remove(i).map(|_| ()),
                    Op::SplitOob => o!().split_off(i).map(|b| lost = Some(b)),
                    _ => o!().insert(i, k),
                };
                if let Some(b) = lost {
                    std::mem::forget(b);
                    self.dirty = true;
                }
                let mut j = J::new(v, &old, l::C14).noalloc(false);
                j.want_panic = true;
                self.judge(st, r, |_| None, j);
            }
            Op::FillCap => {
                self.fill_cap(st, v);
            }
            Op::Grow => {
                self.grow(st, v);
            }
            // in-range requests that have no position to aim at
            _ => return,
        }
        if !self.stop {
            self.check_cap(st, v);
            self.others(st, &touched);
        }
    }

    fn foot(&self, n: usize) -> u64 {
        let b = n.div_ceil(self.kind.epb());
        if b <= self.kind.inline_blocks() { 0 } else { packed_bytes(self.kind, n) }
    }
    fn shrink(&mut self, st: &Step, v: usize) {
        let old = self.slots[v].m.clone();
        self.set_budget(None);
        self.begin(st);
        let r = self.slots[v].v.as_mut().unwrap().shrink();
        self.slots[v].g = 0;
        let ok = self.judge(st, r, |_| None, J::new(v, &old, l::C01));
        if ok && self.slots[v].v.is_some() && !self.stop {
            let (p, _) = self.slots[v].v.as_ref().unwrap().storage();
            let have = if p == 0 { Some(0) } else { alloc::a().size_at(p).map(|x| x as u64) };
            let want = self.foot(old.len());
            if let Some(h) = have {
                if h != want {
                    self.vviol(st, v, l::C07, format!("after shrinking {} elements occupy {} bytes, packed size is {}", old.len(), h, want));
                }
            }
            self.slots[v].hw = old.len();
        }
    }
    fn note_growth(&mut self, slot: usize, c: usize) {
        let s = &mut self.slots[slot];
        if c > s.cap {
            s.grown += 1;
        } else if c < s.cap {
            s.grown = 0;
        }
        s.cap = c;
    }
    /// How often storage for `n` elements may have to grow when every growth adds at least half of it again.
    fn few(&self, n: usize) -> u32 {
        let b = n.div_ceil(self.kind.epb()) as u64 + 1;
        4 + 2 * (64 - b.leading_zeros())
    }
    /// Grow a vector bit by bit.
    fn grow(&mut self, st: &Step, v: usize) {
        let card = self.kind.card();
        let epb = self.kind.epb();
        // interrupted insertions anywhere are judged elsewhere
        let how = if st.a[1] % 14 == 2 && st.fault != Fault::None { 1 } else { st.a[1] % 14 };
        let len = self.slots[v].m.len();
        let k = st.a[2];
        let mut n = ((st.a[3] & 0xFFFF) as usize).min(lim().saturating_sub(len));
        let chunk = match how {
            4 | 5 | 11 => 1 + (st.a[3] >> 16) as usize % (epb + 2),
            7 | 9 => epb,
            12 | 13 => n.max(1),
            _ => 1,
        };
        if how == 2 || how == 8 {
            n = n.min(600);
        }
        n -= n % chunk;
        if n == 0 || (how == 13 && len > 0) {
            return;
        }
        let add: Vec<u64> = (0..n).map(|i| if how == 6 || how == 7 { k % card } else { mix(k, i as u64) % card }).collect();
        let mut new = self.slots[v].m.clone();
        let mut at = vec![];
        if how == 2 {
            for (i, &x) in add.iter().enumerate() {
                let p = mix(k, i as u64 ^ 0x55) as usize % (new.len() + 1);
                at.push(p);
                new.insert(p, x);
            }
        } else {
            new.extend_from_slice(&add);
        }
        self.need(v, new.len());
        let kind = self.kind;
        let b0 = self.slots[v].grown;
        self.begin(st);
        let mut r = Out::Ok(());
        let mut i = 0;
        while i < n && matches!(r, Out::Ok(())) {
            let j = (i + chunk).min(n);
            let part = add[i..j].to_vec();
            let mut other = None;
            if how == 8 || how == 9 {
                let al = seam::CTX.with(|c| c.al.get());
                match kind.from_keys(&part, 0) {
                    Out::Ok(b) => other = Some(b),
                    e => {
                        r = e.map(|_| ());
                        break;
                    }
                }
                seam::CTX.with(|c| c.al.set(al));
            }
            let o = self.slots[v].v.as_mut().unwrap();
            r = match how {
                0 => o.push(add[i]),
                1 => o.insert(len + i, add[i]),
                2 => o.insert(at[i], add[i]),
                3 | 4 => o.extend(&Script::honest(part, 0)).0,
                5 => o.extend(&Script::honest(part, 1 + (i as u64 & 1))).0,
                6 | 7 => o.resize(len + j, k % card),
                8 | 9 => o.append(other.as_mut().unwrap().as_mut()),
                10 => match o.reserve(1) {
                    Out::Ok(()) => o.push(add[i]),
                    e => e,
                },
                11 => o.raw_fill(&part, &|k| kind.discr(k)),
                12 => o.extend(&Script::honest(part, 1)).0,
                _ => match kind.collect(&Script::honest(part, 2)).0 {
                    Out::Ok(b) => {
                        // a new vector: what was promised for the old one is void
                        self.slots[v].v = Some(b);
                        self.slots[v].g = 0;
                        Out::Ok(())
                    }
                    e => e.map(|_| ()),
                },
            };
            if let Some(b) = other {
                let _ = b.drop_it();
            }
            let c = self.cap(v);
            self.note_growth(v, c);
            i = j;
        }
        let reqs = seam::CTX.with(|c| c.al.get());
        let ok = matches!(r, Out::Ok(()));
        let most = self.few(new.len());
        let pool = new.clone();
        self.judge(st, r, |_| None, J::new(v, &new, l::C01 | l::C21).bulk().inj(&|s: &[u64]| {
            s.len() >= len && s.len() <= pool.len() && (how == 2 || s == &pool[..s.len()])
        }));
        if how == 2 && !ok && self.slots[v].v.is_some() {
            // which insertions happened is visible in the length
            let done = self.slots[v].m.len().saturating_sub(len);
            let mut m = pool;
            for p in at.iter().skip(done).rev() {
                m.remove(*p);
            }
            if m != self.slots[v].m {
                self.vviol(st, v, l::C02 | l::C03, format!("after an interrupted insertion: {}", diff(&m, &self.slots[v].m)));
            }
        }
        if ok && self.slots[v].v.is_some() {
            if reqs > most {
                self.vviol(st, v, l::C21, format!("adding {} elements ({}) took {} memory requests (at most {} expected)", n, how, reqs, most));
            }
            *self.stats.probes.entry("vector_grown_bit_by_bit").or_insert(0) += 1;
            if self.slots[v].grown > b0 + 1 {
                *self.stats.probes.entry("grown_through_several_sizes").or_insert(0) += 1;
            }
        }
    }
    fn fill_cap(&mut self, st: &Step, v: usize) {
        let (cap, len) = (self.cap(v), self.slots[v].m.len());
        if cap <= len {
            return;
        }
        let card = self.kind.card();
        let room = (cap - len).min(3000);
        let k = st.a[2] % card;
        let how = st.a[1] % 6;
        let n = match how {
            3 => room.min(40),
            _ => room,
        };
        let mut new = self.slots[v].m.clone();
        for i in 0..n {
            let x = mix(k, i as u64) % card;
            match how {
                2 => new.push(k),
                3 => new.insert(0, x),
                _ => new.push(x),
            }
        }
        let add: Vec<u64> = (0..n).map(|i| mix(k, i as u64) % card).collect();
        self.begin(st);
        seam::CTX.with(|c| c.deny.set(true));
        self.stats.deny_ops += 1;
        let o = self.slots[v].v.as_mut().unwrap();
        let mut r = Out::Ok(());
        let step = match how {
            1 | 2 => n,
            4 | 5 => n.div_ceil(2),
            _ => 1,
        };
        let mut i = 0;
        while i < n && matches!(r, Out::Ok(())) {
            let j = (i + step).min(n);
            r = match how {
                0 => o.push(add[i]),
                1 => o.extend(&Script::honest(add[i..j].to_vec(), 0)).0,
                2 => o.resize(len + n, k),
                3 => o.insert(0, add[i]),
                4 => o.extend(&Script::honest(add[i..j].to_vec(), st.a[3])).0,
                _ => {
                    let d: Vec<u64> = add[i..j].to_vec();
                    let kind = self.kind;
                    o.raw_fill(&d, &|k| kind.discr(k))
                }
            };
            i = j;
        }
        let cut = match &r {
            Out::Inj => true,
            Out::Ok(()) => false,
            o => {
                let m = format!("could not use the reported capacity {} (length {}) without memory: {:?}", cap, len, out_name(o));
                self.end();
                self.vviol(st, v, l::C06, m);
                if let Some(s) = self.snap(st, v, l::C03) {
                    self.slots[v].taint |= 2;
                    self.resync(v, s);
                }
                return;
            }
        };
        let _ = cut;
        let pool = new.clone();
        self.judge(st, r, |_| None, J::new(v, &new, l::C06).noalloc(true).inj(&|s: &[u64]| {
            // some of the additions are in
            s.len() >= len && s.len() <= pool.len() && if how == 3 { s == &pool[pool.len() - s.len()..] } else { s == &pool[..s.len()] }
        }));
        *self.stats.probes.entry("filled_to_capacity_without_memory").or_insert(0) += 1;
    }

    fn construct(&mut self, st: &Step, v: usize) {
        let a = st.a;
        let card = self.kind.card();
        let kind = self.kind;
        let mut lab = l::C04;
        let mut may_fail = false;
        let mut g = 0;
        let mut hw = 0;
        let (r, want): (Out<B>, Vec<u64>) = match st.op {
            Op::New => {
                self.set_budget(Some(0));
                self.begin(st);
                (kind.new(a[1]), vec![])
            }
            Op::WithCap => {
                let n = (a[1] as usize).min(lim());
                g = n;
                hw = n;
                lab = l::C01 | l::C06;
                self.set_budget(Some(n));
                self.begin(st);
                (kind.with_capacity(n), vec![])
            }
            Op::HugeWithCap => {
                g = huge(a[1]);
                may_fail = true;
                lab = l::C03 | l::C06;
                self.begin(st);
                (kind.with_capacity(g), vec![])
            }
            Op::FromElem => {
                let n = (a[1] as usize).min(lim());
                let k = a[2] % card;
                self.set_budget(Some(n));
                self.begin(st);
                (kind.from_elem(k, n, a[3] & 1 == 1), vec![k; n])
            }
            Op::HugeFromElem => {
                may_fail = true;
                self.begin(st);
                (kind.from_elem(a[2] % card, huge(a[1]), false), vec![])
            }
            Op::FromKeys => {
                let ks: Vec<u64> = st.keys.iter().map(|k| k % card).collect();
                self.set_budget(Some(ks.len()));
                self.begin(st);
                (kind.from_keys(&ks, a[1]), ks)
            }
            _ => {
                let s = self.script(st);
                lab |= l::C13;
                if s.lies() {
                    lab = l::C13;
                }
                may_fail = s.too_big();
                self.stats.lying += s.lies() as u64;
                self.set_budget(Some(s.items.len()));
                self.begin(st);
                let (r, log) = kind.collect(&s);
                self.source(st, &s, &log, matches!(r, Out::Ok(_)));
                (r, s.items)
            }
        };
        let f = self.end();
        self.log.push(out_code(&r));
        if f.refused && self.budget && st.fault == Fault::None {
            self.viol(st, l::C07, format!("needed more memory than the budget for {} elements", want.len()));
        }
        match r {
            Out::Ok(b) => {
                if f.panic {
                    self.viol(st, l::C02, "a panic in caller code did not reach the caller".into());
                }
                if may_fail && matches!(st.op, Op::HugeFromElem) {
                    self.viol(st, l::C03, "claims to hold more elements than memory can".into());
                }
                self.put(v, b, want.clone());
                self.slots[v].hw = hw.max(want.len());
                if let Some(s) = self.snap(st, v, lab) {
                    self.log.push(h64(&s));
                    if s != want {
                        self.vviol(st, v, lab & !l::C06, diff(&want, &s));
                    }
                    self.resync(v, s);
                }
                if g > 0 && self.slots[v].v.is_some() {
                    self.slots[v].g = g;
                }
                self.check_cap(st, v);
            }
            Out::Inj => self.stats.cut_panic += 1,
            Out::Fuel if may_fail => {
                self.discard = true;
                self.stop = true;
            }
            Out::Oom | Out::Panic(_) if f.refused || may_fail => self.stats.cut_refused += f.refused as u64,
            o => self.viol(st, lab & !l::C06, format!("failed: {:?}", out_name(&o))),
        }
        self.common(st);
        self.others(st, &[v]);
    }

    /// A vector to read: private or shared.
    fn rd(&mut self, a: u64) -> Option<(*const dyn VecObj, Vec<u64>, Option<usize>)> {
        if a >= SHARED {
            let sh = self.sh()?;
            if sh.vecs.is_empty() {
                return None;
            }
            let (b, m) = &sh.vecs[(a - SHARED) as usize % sh.vecs.len()];
            Some((b.as_ref() as *const dyn VecObj, m.clone(), None))
        } else {
            let v = a as usize % NV;
            self.ensure(v);
            let s = &self.slots[v];
            Some((s.v.as_ref()?.as_ref() as *const dyn VecObj, s.m.clone(), Some(v)))
        }
    }
    /// Judge a read-only call.
    fn rjudge<R>(&mut self, st: &Step, slot: Option<usize>, model: &[u64], obj: *const dyn VecObj, out: Out<R>, labels: u32, noalloc: bool, ret: impl FnOnce(R) -> Option<String>) {
        let f = self.end();
        self.log.push(mix(out_code(&out), st.op as u64));
        let sl = slot.unwrap_or(0);
        if noalloc && f.reqs > 0 && !f.panic {
            self.vviol(st, sl, l::C06, format!("requested memory {} time(s)", f.reqs));
        }
        match out {
            Out::Ok(r) => {
                if let Some(m) = ret(r) {
                    let lab = labels | if f.panic { l::C02 } else { 0 } | if f.refused { l::C03 } else { 0 };
                    self.vviol(st, sl, lab, m);
                }
                if f.panic {
                    self.vviol(st, sl, l::C02, "a panic in caller code did not reach the caller".into());
                }
            }
            Out::Inj => {
                self.stats.cut_panic += 1;
                if let Some(v) = slot {
                    self.slots[v].taint |= 1;
                }
            }
            Out::Oom | Out::Panic(_) if f.refused => {
                self.stats.cut_refused += 1;
                if let Some(v) = slot {
                    self.slots[v].taint |= 2;
                }
            }
            o => self.vviol(st, sl, labels, format!("failed: {:?}", out_name(&o))),
        }
        // reading changes nothing
        let s = unsafe { &*obj }.snapshot();
        match s {
            Ok(s) if s == model => {}
            Ok(s) => {
                self.vviol(st, sl, labels | l::C01 | if f.panic { l::C02 } else { 0 } | if f.refused { l::C03 } else { 0 }, format!("a read changed the vector: {}", diff(model, &s)));
                if let Some(v) = slot {
                    self.resync(v, s);
                }
            }
            Err(e) => {
                self.vviol(st, sl, labels | l::C01, format!("vector unreadable after a read: {}", e));
                match slot {
                    Some(v) => self.forget(v),
                    None => self.stop = true,
                }
            }
        }
        self.common(st);
    }
    fn read_step(&mut self, st: &Step) {
        let a = st.a;
        let card = self.kind.card();
        let (obj, m, slot) = match self.rd(a[0]) {
            Some(x) => x,
            None => return,
        };
        let o = unsafe { &*obj };
        let len = m.len();
        let k = a[2] % card;
        macro_rules! j {
            ($out:expr, $lab:expr, $na:expr, $f:expr) => {{
                let r = $out;
                self.rjudge(st, slot, &m, obj, r, $lab, $na, $f)
            }};
        }
        fn eqv<T: PartialEq + std::fmt::Debug>(want: T) -> impl FnOnce(T) -> Option<String> {
            move |r| if r == want { None } else { Some(format!("returned {:?}, expected {:?}", r, want)) }
        }
        match st.op {
            Op::Len => {
                self.begin(st);
                j!(o.len(), l::C01, true, eqv((len, len == 0)))
            }
            Op::Get | Op::GetOob => {
                let oob = st.op == Op::GetOob || len == 0;
                let i = if oob { len.saturating_add(if st.op == Op::GetOob { a[1] as usize } else { 0 }) } else { ix(a[1], len) };
                let want = m.get(i).copied();
                self.stats.oob += oob as u64;
                let raw = want.map(|k| seam::quiet(|| self.kind.discr(k)).unwrap_or(0));
                self.begin(st);
                let r = match (o.get(i), raw) {
                    // the unchecked read agrees
                    (Out::Ok(x), Some(d)) => o.get_raw(i).map(|y| (x, y == d)),
                    (r, _) => r.map(|x| (x, true)),
                };
                j!(r, if oob { l::C14 | l::C01 } else { l::C01 }, true, eqv((want, true)))
            }
            Op::Any => {
                self.begin(st);
                j!(o.any(k), l::C08, true, |r| eqv(m.contains(&k))(r).map(|e| format!("any({}) {}", k, e)))
            }
            Op::All => {
                self.begin(st);
                j!(o.all(k), l::C08, true, |r| eqv(m.iter().all(|x| *x == k))(r).map(|e| format!("all({}) {}", k, e)))
            }
            Op::Every => {
                // every value of a small type; otherwise the values present, their neighbours and a few more
                let ks: Vec<u64> = if card <= 20 {
                    (0..card).collect()
                } else {
                    let mut ks: Vec<u64> = m.iter().take(6).chain(m.iter().rev().take(3)).copied().collect();
                    for i in 0..ks.len() {
                        ks.push((ks[i] as u128 + 1).rem_euclid(card as u128) as u64);
                        ks.push(ks[i] ^ 1);
                    }
                    ks.extend([0, card - 1, card / 2, k, mix(k, 3) % card]);
                    ks.iter_mut().for_each(|k| *k %= card);
                    ks.sort_unstable();
                    ks.dedup();
                    ks
                };
                self.begin(st);
                let mut bad = None;
                let mut r = Out::Ok(());
                for &k in &ks {
                    let (x, y) = (m.contains(&k), m.iter().all(|x| *x == k));
                    match (o.any(k), o.all(k)) {
                        (Out::Ok(p), Out::Ok(q)) => {
                            if p != x || q != y {
                                bad = bad.or(Some(format!("any({})={} all({})={} on {}", k, p, k, q, short(&m))));
                            }
                        }
                        (Out::Ok(_), e) | (e, _) => {
                            r = e.map(|_| ());
                            break;
                        }
                    }
                }
                j!(r, l::C08, true, |_| bad)
            }
            Op::Eq | Op::Hash => {
                let (obj2, m2, _) = match self.rd(a[1]) {
                    Some(x) => x,
                    None => return,
                };
                // the pointer stays valid: rd does not move boxed vectors
                let p = unsafe { &*obj2 };
                let same = m == m2;
                self.begin(st);
                if st.op == Op::Eq {
                    if same {
                        *self.stats.probes.entry("equal_vectors_compared").or_insert(0) += 1;
                    }
                    j!(o.eq(p), l::C08, true, |r: (bool, bool)| if r == (same, !same) { None } else {
                        Some(format!("== gives {} and != gives {} on {} and {}", r.0, r.1, short(&m), short(&m2)))
                    })
                } else {
                    let r1 = o.hash();
                    let r2 = p.hash();
                    let r = match (r1, r2) {
                        (Out::Ok(x), Out::Ok(y)) => Out::Ok((x, y)),
                        (Out::Ok(_), e) | (e, _) => e.map(|_| (vec![], vec![])),
                    };
                    if same {
                        *self.stats.probes.entry("equal_vectors_hashed").or_insert(0) += 1;
                    }
                    let mut lg = 0;
                    j!(r, l::C08 | l::C12, true, |(x, y): (Vec<u8>, Vec<u8>)| {
                        lg = x.iter().fold(7u64, |h, b| mix(h, *b as u64));
                        if same && x != y { Some(format!("equal vectors hash differently: {}", short(&m))) } else { None }
                    });
                    self.log.push(lg);
                }
            }
            Op::Debug => {
                let text = self.kind.debug_text(&m, a[1]);
                let mut s = Sink::new(a[2], a[3] & 1 == 1);
                self.begin(st);
                let r = o.debug(&mut s, a[1]);
                self.stats.sink_fails += s.failed as u64;
                let cut = !matches!(r, Out::Ok(_));
                let (out, failed) = (std::mem::take(&mut s.out), s.failed);
                let bad = if !text.starts_with(&out) { Some(format!("wrote {:?}, expected (a prefix of) {:?}", out, text)) } else { None };
                if cut && bad.is_some() {
                    self.vviol(st, slot.unwrap_or(0), l::C12, bad.clone().unwrap());
                }
                self.log.push(out.len() as u64);
                j!(r, l::C12, false, |ok| {
                    if failed && ok {
                        Some("the sink failed but success was reported".into())
                    } else if !failed && !ok {
                        Some("failure reported although no write failed".into())
                    } else if bad.is_some() {
                        bad
                    } else if ok && out != text {
                        Some(format!("wrote {:?}, expected {:?}", out, text))
                    } else {
                        None
                    }
                })
            }
            Op::IterAll => {
                self.begin(st);
                j!(o.iter_all(a[1]), l::C10 | l::C01, true, |r| if r == m { None } else { Some(diff(&m, &r)) })
            }
            Op::ToVec => {
                self.begin(st);
                j!(o.to_vec(), l::C04, false, |r| if r == m { None } else { Some(diff(&m, &r)) })
            }
            Op::Clone => {
                let w = a[1] as usize % NV;
                if Some(w) == slot {
                    return;
                }
                let (hw, taint) = match slot {
                    Some(v) => (self.slots[v].hw, self.slots[v].taint),
                    None => (len, 0),
                };
                self.set_budget(Some(hw));
                self.begin(st);
                let r = o.clone_obj();
                let mut got = None;
                let r = r.map(|b| got = Some(b));
                if matches!(r, Out::Oom | Out::Panic(_)) && self.budget && st.fault == Fault::None && seam::fired().1 {
                    self.viol(st, l::C07, format!("clone needed more memory than the budget ({} elements)", hw));
                }
                j!(r, l::C04, false, |_| None);
                if let Some(b) = got {
                    self.put(w, b, m.clone());
                    self.slots[w].hw = hw;
                    self.slots[w].taint = taint;
                    if let Some(s) = self.snap(st, w, l::C04) {
                        self.log.push(h64(&s));
                        if s != m {
                            self.vviol(st, w, l::C04, format!("the clone: {}", diff(&m, &s)));
                        }
                        self.resync(w, s);
                    }
                    self.check_cap(st, w);
                }
            }
            _ => {}
        }
    }

    /// Bring `w` to the contents of `v` through a different history.
    fn replica(&mut self, st: &Step) {
        let a = st.a;
        let (_, m, slot) = match self.rd(a[0]) {
            Some(x) => x,
            None => return,
        };
        let w = a[1] as usize % NV;
        if slot == Some(w) || m.len() > 600 {
            return;
        }
        let n = m.len();
        let seed = a[3] >> 20;
        let card = self.kind.card();
        let junk = |i: u64| mix(seed, i) % card;
        let jk = |c: usize| -> Vec<u64> { (0..c as u64).map(junk).collect() };
        let w64 = w as u64;
        let mk = |op: Op, a1: u64, a2: u64, keys: Vec<u64>| Step { client: st.client, at: 0, lev: 0, op, a: [w64, a1, a2, 0], keys, fault: Fault::None };
        let extra = 1 + (seed % 40) as usize;
        let mut steps: Vec<Step> = vec![];
        match a[2] % 12 {
            0 => steps.push(mk(Op::FromKeys, 1, 0, m.clone())),
            1 => {
                steps.push(mk(Op::New, 0, 0, vec![]));
                steps.extend(m.iter().map(|&k| mk(Op::Push, 0, k, vec![])));
            }
            2 => {
                steps.push(mk(Op::WithCap, (n + extra) as u64, 0, vec![]));
                steps.push(mk(Op::Extend, 0, 0, m.clone()));
            }
            3 => {
                steps.push(mk(Op::New, 1, 0, vec![]));
                steps.extend(m.iter().rev().map(|&k| mk(Op::Insert, 0, k, vec![])));
            }
            4 => {
                steps.push(mk(Op::FromElem, (n + extra) as u64, junk(0), vec![]));
                steps.push(mk(Op::Clear, 0, 0, vec![]));
                steps.push(mk(Op::Extend, 1, 0, m.clone()));
            }
            5 => {
                steps.push(mk(Op::FromKeys, 0, 0, jk(n)));
                steps.extend(m.iter().enumerate().map(|(i, &k)| mk(Op::Set, i as u64, k, vec![])));
            }
            6 => {
                let mut x = m.clone();
                x.extend(jk(extra));
                steps.push(mk(Op::FromKeys, 0, 0, x));
                steps.push(mk(Op::Truncate, n as u64, 0, vec![]));
            }
            7 => {
                steps.push(mk(Op::New, 0, 0, vec![]));
                steps.push(mk(Op::RawFill, 0, 0, m.clone()));
            }
            8 => {
                let mut x = jk(1);
                x.extend(&m);
                steps.push(mk(Op::FromKeys, 0, 0, x));
                steps.push(mk(Op::Remove, 0, 0, vec![]));
            }
            9 => {
                let mut x = m.clone();
                x.extend(jk(extra));
                steps.push(mk(Op::FromKeys, 0, 0, x));
                for _ in 0..extra {
                    steps.push(mk(Op::Pop, 0, 0, vec![]));
                }
            }
            10 => {
                let x = (w64 + 1) % NV as u64;
                if slot == Some(x as usize) {
                    return;
                }
                let h = n / 2;
                steps.push(mk(Op::FromKeys, 0, 0, m[..h].to_vec()));
                let mut s = mk(Op::FromKeys, 0, 0, m[h..].to_vec());
                s.a[0] = x;
                steps.push(s);
                steps.push(mk(Op::Append, x, 0, vec![]));
            }
            _ => {
                // used, emptied, part refilled, shrunk
                steps.push(mk(Op::FromKeys, 0, 0, jk(n + extra)));
                steps.push(mk(Op::Truncate, 0, 0, vec![]));
                let h = n / 2;
                steps.push(mk(Op::Extend, 0, 0, m[..h].to_vec()));
                steps.push(mk(Op::Shrink, 0, 0, vec![]));
                steps.push(mk(Op::Extend, 3, 0, m[h..].to_vec()));
            }
        }
        // one of the building steps may be hit by the fault
        if st.fault != Fault::None && !steps.is_empty() {
            let i = seed as usize % steps.len();
            steps[i].fault = st.fault;
        }
        for s in &steps {
            if self.stop {
                return;
            }
            self.dispatch(s);
        }
    }

    fn cur_step(&mut self, st: &Step) {
        let a = st.a;
        match st.op {
            Op::CurIter => {
                let c = a[1] as usize % NC;
                let (obj, m, slot) = match self.rd(a[0]) {
                    Some(x) => x,
                    None => return,
                };
                let cur = unsafe { &*obj }.cursor();
                self.curs[c] = CurSlot { c: Some(cur), rest: m.into(), more: 0, pin: Some(slot.map_or(SHARED + a[0], |v| v as u64)), spin: vec![], lab: l::C10, hw: None };
            }
            Op::CurInto => {
                let c = a[1] as usize % NC;
                let v = a[0] as usize % NV;
                self.ensure(v);
                if self.stop {
                    return;
                }
                self.unpin(v as u64);
                let s = std::mem::take(&mut self.slots[v]);
                self.curs[c] = CurSlot { c: Some(s.v.unwrap().into_cursor()), rest: s.m.into(), more: 0, pin: None, spin: vec![], lab: l::C10, hw: Some(s.hw) };
            }
            Op::CurValues | Op::SCurValues => {
                let c = a[1] as usize % NC;
                let (kind, setk) = (self.kind, self.setk);
                let sets = st.op == Op::SCurValues;
                let card = if sets { setk.card() } else { kind.card() };
                // of types with very many values only the first are looked at
                let listed = if card <= 3000 || card <= 70_000 && a[2] == 0 { card } else { 200 };
                let more = (card - listed) as usize;
                let most = listed as usize;
                match seam::quiet(|| if sets { setk.value_order(most) } else { kind.value_order(most) }) {
                    Ok(o) => {
                        let mut s = o.clone();
                        s.sort_unstable();
                        s.dedup();
                        if s.len() != most || o.len() != s.len() {
                            self.viol(st, l::C10, format!("values() cannot yield each value once: {}", short(&o)));
                            return;
                        }
                        let cur = if sets { setk.values() } else { kind.values() };
                        self.curs[c] = CurSlot { c: Some(cur), rest: o.into(), more, pin: None, spin: vec![], lab: l::C10, hw: None };
                    }
                    Err(e) => self.viol(st, l::C10, format!("enumerating the values panicked: {}", e)),
                }
            }
            Op::SCur => {
                let c = a[1] as usize % NC;
                let w = a[2] % 5;
                let (obj, m, s1) = match self.srd(a[0]) {
                    Some(x) => x,
                    None => return,
                };
                let (obj2, m2, s2) = if w == 4 {
                    (obj, m.clone(), s1)
                } else {
                    match self.srd(a[3]) {
                        Some(x) => x,
                        None => return,
                    }
                };
                let (o, p) = unsafe { (&*obj, &*obj2) };
                let want = if w == 4 { m } else { algebra(&m, &m2, w) };
                match o.order(p, w) {
                    Ok(order) => {
                        let mut x = order.clone();
                        x.sort_unstable();
                        let y: Vec<u64> = want.into_iter().collect();
                        if x != y {
                            self.viol(st, l::C11, format!("lazy set algebra {} yields {}", w, diff(&y, &x)));
                            return;
                        }
                        self.curs[c] = CurSlot { c: Some(o.cursor(p, w)), rest: order.into(), more: 0, pin: None, spin: s1.into_iter().chain(s2).collect(), lab: l::C11, hw: None };
                    }
                    Err(e) => self.viol(st, l::C11, format!("walking lazy set algebra {} failed: {}", w, e)),
                }
            }
            Op::CurDup => {
                let (c, d) = (a[1] as usize % NC, a[2] as usize % NC);
                let Some(cur) = self.curs[c].c.as_ref().filter(|_| c != d) else { return };
                let (rest, more, lab) = (self.curs[c].rest.clone(), self.curs[c].more, self.curs[c].lab);
                match cur.dup() {
                    Some(Out::Ok(x)) => {
                        self.curs[d] = CurSlot { c: Some(x), rest, more, pin: None, spin: vec![], lab, hw: None };
                        *self.stats.probes.entry("cursor_duplicated").or_insert(0) += 1;
                    }
                    Some(o) => self.viol(st, lab, format!("copying a cursor failed: {}", out_name(&o))),
                    None => {}
                }
            }
            Op::CurClose => {
                let c = a[1] as usize % NC;
                self.curs[c] = CurSlot::default();
            }
            _ => self.cur_call(st),
        }
        self.common(st);
    }
    fn cur_call(&mut self, st: &Step) {
        let c = st.a[1] as usize % NC;
        let op = CUR_OPS[st.a[2] as usize % CUR_OPS.len()];
        let n = st.a[3] as usize;
        let mut cur = match self.curs[c].c.take() {
            Some(x) => x,
            None => return,
        };
        let CurSlot { rest, more, pin, spin, lab, hw, .. } = std::mem::take(&mut self.curs[c]);
        // the model
        let len = rest.len();
        let (mut front, mut back) = (0usize, 0usize);
        let hit = |k: u64| crate::vecobj::hit(k, n);
        let want = match op {
            CurOp::Next => {
                front = 1.min(len);
                CurRes::Item(rest.front().copied())
            }
            CurOp::NextBack => {
                back = 1.min(len);
                CurRes::Item(rest.back().copied())
            }
            CurOp::Nth | CurOp::SkipNext => {
                front = n.saturating_add(1).min(len);
                CurRes::Item(rest.get(n).copied())
            }
            CurOp::NthBack | CurOp::RevNth => {
                back = n.saturating_add(1).min(len);
                CurRes::Item(if n < len { rest.get(len - 1 - n).copied() } else { None })
            }
            CurOp::Len => CurRes::Num(len + more),
            CurOp::Hint => CurRes::Hint(len + more, Some(len + more)),
            CurOp::TakeCollect => {
                front = n.min(len);
                CurRes::Items(rest.iter().take(n).copied().collect())
            }
            CurOp::RevTake => {
                back = n.min(len);
                CurRes::Items(rest.iter().rev().take(n).copied().collect())
            }
            CurOp::Peek => {
                front = 1.min(len);
                CurRes::Item(rest.front().copied())
            }
            CurOp::TakeWhile => {
                let p = rest.iter().position(|k| hit(*k));
                front = p.map_or(len, |p| p + 1);
                CurRes::Items(rest.iter().take(p.unwrap_or(len)).copied().collect())
            }
            CurOp::Position | CurOp::Find | CurOp::AnyOf | CurOp::AllOf => {
                let p = rest.iter().position(|k| hit(*k));
                front = p.map_or(len, |p| p + 1);
                CurRes::Walk(
                    match op {
                        CurOp::Position => p.map(|p| p as u64),
                        CurOp::Find => p.map(|p| rest[p]),
                        CurOp::AnyOf => Some(p.is_some() as u64),
                        _ => Some(p.is_none() as u64),
                    },
                    rest.iter().take(front).copied().collect(),
                )
            }
            CurOp::RFind | CurOp::RPosition => {
                let p = rest.iter().rev().position(|k| hit(*k));
                back = p.map_or(len, |p| p + 1);
                CurRes::Walk(
                    p.map(|p| if op == CurOp::RFind { rest[len - 1 - p] } else { (len - 1 - p) as u64 }),
                    rest.iter().rev().take(back).copied().collect(),
                )
            }
            CurOp::Count => CurRes::Num(len),
            CurOp::Last => CurRes::Item(rest.back().copied()),
            CurOp::Max => CurRes::Item(rest.iter().copied().max_by_key(|k| k % 7)),
            CurOp::Min => CurRes::Item(rest.iter().copied().min_by_key(|k| k % 7)),
            CurOp::Partition => CurRes::Items(rest.iter().filter(|k| hit(**k)).chain(rest.iter().filter(|k| !hit(**k))).copied().collect()),
            CurOp::RevStep => CurRes::Items(rest.iter().rev().step_by(n.max(1)).copied().collect()),
            CurOp::Collect | CurOp::Fold | CurOp::ForEach | CurOp::MapCollect | CurOp::Enumerate => CurRes::Items(rest.iter().copied().collect()),
            CurOp::RevCollect | CurOp::RFold => CurRes::Items(rest.iter().rev().copied().collect()),
            CurOp::StepBy => CurRes::Items(rest.iter().step_by(n.max(1)).copied().collect()),
            CurOp::SkipCollect => CurRes::Items(rest.iter().skip(n).copied().collect()),
        };
        // only calls that end before the items which are not listed
        let far = more > 0 && (op.consumes() || op.backwards() || front >= len);
        if far || (!cur.double_ended() && op.backwards()) || (!cur.exact() && op == CurOp::Len) {
            self.curs[c] = CurSlot { c: Some(cur), rest, more, pin, spin, lab, hw };
            return;
        }
        let exact = cur.exact();
        self.begin(st);
        let r = cur.call(op, n);
        let f = self.end();
        self.log.push(out_code(&r));
        let mut rest = rest;
        let noalloc = !matches!(op, CurOp::Collect | CurOp::StepBy | CurOp::SkipCollect | CurOp::Partition | CurOp::MapCollect);
        if noalloc && f.reqs > 0 && !f.panic {
            self.viol(st, l::C06, format!("{:?} on a cursor requested memory", op));
        }
        let mut alive = !op.consumes();
        match r {
            Out::Ok(x) => {
                self.log.push(match &x {
                    CurRes::Item(i) => i.map_or(3, |i| i.wrapping_mul(5)),
                    CurRes::Items(v) => h64(v),
                    CurRes::Num(n) => *n as u64,
                    CurRes::Hint(n, m) => mix(*n as u64, m.unwrap_or(9) as u64),
                    CurRes::Walk(a, v) => mix(a.map_or(3, |i| i.wrapping_mul(5)), h64(v)),
                    CurRes::Unsupported => 0,
                });
                if f.panic {
                    self.viol(st, l::C02 | lab, "a panic in caller code did not reach the caller".into());
                }
                if x == CurRes::Unsupported {
                    alive = false;
                } else if !exact && op == CurOp::Hint {
                    match x {
                        CurRes::Hint(lo, hi) if lo > len || hi.map_or(false, |h| h < len) => {
                            self.viol(st, lab, format!("{} items left but size_hint reports {:?}", len, (lo, hi)));
                            alive = false;
                        }
                        _ => {}
                    }
                } else if x != want {
                    self.viol(st, lab, format!("{:?}({}) with {} items left gave {:?}, expected {:?}", op, n, len, x, want));
                    alive = false; // position unknown
                } else {
                    rest.drain(..front);
                    let e = rest.len() - back;
                    rest.truncate(e);
                }
            }
            Out::Inj => {
                self.stats.cut_panic += 1;
                if alive && !exact {
                    alive = false;
                } else if alive {
                    match cur.left() {
                        Ok((lo, hi)) => {
                            if hi != Some(lo) || lo > len + more || len + more - lo > front + back {
                                self.viol(st, lab | l::C02, format!("{:?}({}) panicked in caller code: {} items were left, now it reports {:?}", op, n, len, (lo, hi)));
                                alive = false;
                            } else {
                                let lost = len + more - lo;
                                if front > 0 {
                                    rest.drain(..lost);
                                } else {
                                    rest.truncate(len - lost);
                                }
                            }
                        }
                        Err(e) => {
                            self.viol(st, lab, format!("size_hint panicked: {}", e));
                            alive = false;
                        }
                    }
                }
            }
            Out::Oom | Out::Panic(_) if f.refused => {
                self.stats.cut_refused += 1;
                alive = false;
            }
            o => {
                self.viol(st, lab, format!("{:?}({}) with {} items left failed: {:?}", op, n, len, out_name(&o)));
                alive = false;
            }
        }
        if alive {
            match cur.left() {
                Ok(x) if x == (rest.len() + more, Some(rest.len() + more)) => {}
                Ok((lo, hi)) if !exact && lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()) => {}
                x => {
                    self.viol(st, lab, format!("after {:?}({}) it reports {:?} left, expected {}", op, n, x, rest.len() + more));
                    alive = false;
                }
            }
        }
        if alive {
            if more > 0 {
                *self.stats.probes.entry("cursor_over_very_many_values_driven_on").or_insert(0) += 1;
            } else if rest.is_empty() {
                *self.stats.probes.entry("cursor_exhausted_and_driven_on").or_insert(0) += 1;
            }
            if !exact {
                *self.stats.probes.entry("set_cursor_driven_on").or_insert(0) += 1;
            }
            self.curs[c] = CurSlot { c: Some(cur), rest, more, pin, spin, lab, hw };
        } else {
            self.curs[c] = CurSlot::default();
        }
    }

    fn probe(&mut self, st: &Step) {
        for (n, ok) in self.kind.send_sync().into_iter().chain(self.setk.send_sync()) {
            if !ok {
                self.viol(st, l::C09, format!("{} does not hold although the element type is Send and Sync ({} / {})", n, self.kind.name(), self.setk.name()));
            }
        }
    }

    // ---- sets ----
    fn srd(&mut self, a: u64) -> Option<(*const dyn SetObj, BTreeSet<u64>, Option<usize>)> {
        if a >= SHARED {
            let sh = self.sh()?;
            if sh.sets.is_empty() {
                return None;
            }
            let (b, m) = &sh.sets[(a - SHARED) as usize % sh.sets.len()];
            Some((b.as_ref() as *const dyn SetObj, m.clone(), None))
        } else {
            let v = a as usize % NS;
            self.sensure(v);
            let s = &self.sets[v];
            Some((s.s.as_ref()?.as_ref() as *const dyn SetObj, s.m.clone(), Some(v)))
        }
    }
    fn sensure(&mut self, v: usize) {
        if self.sets[v].s.is_none() {
            seam::arm_faults(None, None);
            if let Out::Ok(s) = self.setk.new(v as u64) {
                self.sets[v] = SetSlot { s: Some(s), m: BTreeSet::new() };
            } else {
                self.stop = true;
                self.discard = true;
            }
        }
    }
    /// Does the set hold exactly `m`?  None: yes.
    fn sdiff(&self, o: &dyn SetObj, m: &BTreeSet<u64>) -> Result<Option<String>, String> {
        let s = o.snapshot()?;
        let mut t = s.clone();
        t.sort_unstable();
        let want: Vec<u64> = m.iter().copied().collect();
        if t != want {
            return Ok(Some(format!("members: {}", diff(&want, &t))));
        }
        let card = self.setk.card();
        for i in 0..6u64 {
            let k = mix(i, m.len() as u64 ^ 77) % card;
            if o.contains_quiet(k)? != m.contains(&k) {
                return Ok(Some(format!("contains({}) is {}", k, !m.contains(&k))));
            }
        }
        Ok(None)
    }
    fn sdrop(&mut self, v: usize) {
        if let Some(o) = self.sets[v].s.take() {
            seam::arm_faults(None, None);
            let _ = o.drop_it();
        }
        self.sets[v] = SetSlot::default();
    }
    /// Judge a set mutation: `new` after success; `cut(model)` the states an injected panic may leave.
    fn sjudge<R>(&mut self, st: &Step, v: usize, out: Out<R>, new: BTreeSet<u64>, labels: u32, cuts: Vec<BTreeSet<u64>>, ret: impl FnOnce(R) -> Option<String>) {
        let f = self.end();
        self.log.push(mix(out_code(&out), st.op as u64));
        let mut want = vec![];
        match out {
            Out::Ok(r) => {
                if f.panic {
                    self.viol(st, labels | l::C02, "a panic in caller code did not reach the caller".into());
                }
                if let Some(m) = ret(r) {
                    self.viol(st, labels, m);
                }
                want.push(new);
            }
            Out::Inj => {
                self.stats.cut_panic += 1;
                want.push(self.sets[v].m.clone());
                want.extend(cuts);
                want.push(new);
            }
            Out::Oom | Out::Panic(_) if f.refused => {
                // what a half-grown bit set holds is not promised
                self.stats.cut_refused += 1;
                self.sdrop(v);
                return self.common(st);
            }
            o => {
                self.viol(st, labels, format!("failed: {:?}", out_name(&o)));
                want.push(new);
            }
        }
        let o = self.sets[v].s.take().unwrap();
        let mut ok = false;
        let mut msg = String::new();
        for w in want {
            match self.sdiff(o.as_ref(), &w) {
                Ok(None) => {
                    self.sets[v].m = w;
                    ok = true;
                    break;
                }
                Ok(Some(m)) => msg = m,
                Err(e) => msg = format!("unreadable: {}", e),
            }
        }
        if !ok {
            let lab = labels | if f.panic { l::C11 } else { 0 };
            self.viol(st, lab, format!("{}{}", if f.panic { "after a panic in caller code: " } else { "" }, msg));
            match o.snapshot() {
                Ok(s) => self.sets[v].m = s.into_iter().collect(),
                Err(_) => {
                    std::mem::forget(o);
                    self.dirty = true;
                    self.sets[v] = SetSlot::default();
                    return self.common(st);
                }
            }
        }
        self.sets[v].s = Some(o);
        let h = self.sets[v].m.iter().fold(1u64, |h, k| mix(h, *k));
        self.log.push(h);
        self.common(st);
    }
    fn sread<R>(&mut self, st: &Step, obj: *const dyn SetObj, m: &BTreeSet<u64>, slot: Option<usize>, out: Out<R>, labels: u32, ret: impl FnOnce(R) -> Option<String>) {
        let f = self.end();
        self.log.push(mix(out_code(&out), st.op as u64));
        match out {
            Out::Ok(r) => {
                if let Some(m) = ret(r) {
                    self.viol(st, labels, m);
                }
            }
            Out::Inj => self.stats.cut_panic += 1,
            Out::Oom | Out::Panic(_) if f.refused => self.stats.cut_refused += 1,
            o => self.viol(st, labels, format!("failed: {:?}", out_name(&o))),
        }
        match self.sdiff(unsafe { &*obj }, m) {
            Ok(None) => {}
            x => {
                self.viol(st, labels | l::C11, format!("a read changed the set: {:?}", x));
                if let Some(v) = slot {
                    if let Ok(s) = unsafe { &*obj }.snapshot() {
                        self.sets[v].m = s.into_iter().collect();
                    }
                } else {
                    self.stop = true;
                }
            }
        }
        self.common(st);
    }
    fn sscript(&self, st: &Step) -> Script {
        let card = self.setk.card();
        let na = (st.a[3] & 0xFFFF).min(st.keys.len() as u64) as usize;
        let n = st.keys.len() - na;
        let k: Vec<u64> = st.keys.iter().map(|k| k % card).collect();
        Script { items: k[..n].to_vec(), after: k[n..].to_vec(), mode: st.a[1] % crate::ends::HINT_MODES, n: st.a[2] }
    }
    fn set_step(&mut self, st: &Step) {
        let a = st.a;
        let card = self.setk.card();
        let k = a[2] % card;
        // reads
        macro_rules! read {
            ($body:expr) => {{
                let (obj, m, slot) = match self.srd(a[0]) {
                    Some(x) => x,
                    None => return,
                };
                let f: fn(&mut Self, &Step, *const dyn SetObj, BTreeSet<u64>, Option<usize>, [u64; 4], u64) = $body;
                return f(self, st, obj, m, slot, a, k);
            }};
        }
        match st.op {
            Op::SHas => read!(|e, st, obj, m, slot, _a, k| {
                e.begin(st);
                let r = unsafe { &*obj }.contains(k);
                let w = m.contains(&k);
                e.sread(st, obj, &m, slot, r, l::C11, |r| if r == w { None } else { Some(format!("contains({}) gave {}", k, r)) })
            }),
            Op::SLen => read!(|e, st, obj, m, slot, _a, _k| {
                e.begin(st);
                let r = unsafe { &*obj }.len();
                let r2 = unsafe { &*obj }.inner_len();
                let w = (m.len(), m.is_empty());
                let r = match (r, r2) {
                    (Out::Ok(x), Out::Ok(y)) => Out::Ok((x, y)),
                    (e, _) => e.map(|x| (x, 0)),
                };
                e.sread(st, obj, &m, slot, r, l::C11, |r| if r == (w, w.0) { None } else { Some(format!("len/is_empty/bit set len gave {:?}, expected {:?}", r, w)) })
            }),
            Op::SIter => read!(|e, st, obj, m, slot, a, _k| {
                e.begin(st);
                let r = unsafe { &*obj }.iter_all(a[1]);
                let want: Vec<u64> = m.iter().copied().collect();
                e.sread(st, obj, &m, slot, r, l::C11, |mut r| {
                    r.sort_unstable();
                    if r == want { None } else { Some(diff(&want, &r)) }
                })
            }),
            Op::SHash => read!(|e, st, obj, m, slot, _a, _k| {
                e.begin(st);
                let r = unsafe { &*obj }.hash();
                e.sread(st, obj, &m, slot, r, l::C12, |_| None)
            }),
            Op::SDebug => read!(|e, st, obj, m, slot, a, _k| {
                let order = match unsafe { &*obj }.snapshot() {
                    Ok(x) => x,
                    Err(_) => return,
                };
                let text = e.setk.debug_text(&order, a[1]);
                let mut s = Sink::new(a[2], a[3] & 1 == 1);
                e.begin(st);
                let r = unsafe { &*obj }.debug(&mut s, a[1]);
                e.stats.sink_fails += s.failed as u64;
                let (out, failed) = (std::mem::take(&mut s.out), s.failed);
                let cut = !matches!(r, Out::Ok(_));
                let bad = if !text.starts_with(&out) { Some(format!("wrote {:?}, expected (a prefix of) {:?}", out, text)) } else { None };
                if cut && bad.is_some() {
                    e.viol(st, l::C12, bad.clone().unwrap());
                }
                e.sread(st, obj, &m, slot, r, l::C12, |ok| {
                    if failed && ok {
                        Some("the sink failed but success was reported".into())
                    } else if !failed && !ok {
                        Some("failure reported although no write failed".into())
                    } else if bad.is_some() {
                        bad
                    } else if ok && out != text {
                        Some(format!("wrote {:?}, expected {:?}", out, text))
                    } else {
                        None
                    }
                })
            }),
            Op::SAlg | Op::STests | Op::SEq => {
                let (obj, m, slot) = match self.srd(a[0]) {
                    Some(x) => x,
                    None => return,
                };
                let (obj2, m2, _) = match self.srd(a[1]) {
                    Some(x) => x,
                    None => return,
                };
                let (o, p) = unsafe { (&*obj, &*obj2) };
                self.begin(st);
                match st.op {
                    Op::SAlg => {
                        let w = a[2] % 4;
                        let mut want: Vec<u64> = algebra(&m, &m2, w).into_iter().collect();
                        want.sort_unstable();
                        let r = o.algebra(p, w);
                        self.sread(st, obj, &m, slot, r, l::C11, |mut r| {
                            r.sort_unstable();
                            if r == want { None } else { Some(format!("lazy algebra {}: {}", w, diff(&want, &r))) }
                        });
                    }
                    Op::STests => {
                        let want = (m.is_disjoint(&m2), m.is_subset(&m2), m.is_superset(&m2));
                        let r = o.tests(p);
                        self.sread(st, obj, &m, slot, r, l::C11, |r| if r == want { None } else {
                            Some(format!("disjoint/subset/superset gave {:?}, expected {:?}", r, want))
                        });
                    }
                    _ => {
                        let same = m == m2;
                        let r = o.eq(p);
                        self.sread(st, obj, &m, slot, r, l::C11, |(e, n, c, pc)| {
                            let ceq = c == std::cmp::Ordering::Equal;
                            if e == same && n != same && ceq == same && pc == Some(c) { None } else {
                                Some(format!("== {} != {} cmp {:?} partial_cmp {:?} on {:?} and {:?}", e, n, c, pc, m, m2))
                            }
                        });
                    }
                }
                return;
            }
            _ => {}
        }
        let v = a[0] as usize % NS;
        self.sunpin(v);
        if st.op == Op::SClone {
            self.sunpin(a[1] as usize % NS);
        }
        match st.op {
            Op::SNew => {
                self.begin(st);
                let r = self.setk.new(a[1]);
                self.end();
                if let Out::Ok(s) = r {
                    self.sdrop(v);
                    self.sets[v] = SetSlot { s: Some(s), m: BTreeSet::new() };
                }
                return;
            }
            Op::SDrop => {
                self.sdrop(v);
                return self.common(st);
            }
            Op::SCollect => {
                let s = self.sscript(st);
                self.stats.lying += s.lies() as u64;
                self.begin(st);
                let (r, log) = self.setk.collect(&s);
                self.source(st, &s, &log, matches!(r, Out::Ok(_)));
                let f = self.end();
                self.log.push(out_code(&r));
                let lab = if s.lies() { l::C13 | l::C11 } else { l::C11 | l::C13 };
                match r {
                    Out::Ok(x) => {
                        self.sdrop(v);
                        let m: BTreeSet<u64> = s.items.iter().copied().collect();
                        match self.sdiff(x.as_ref(), &m) {
                            Ok(None) => self.sets[v] = SetSlot { s: Some(x), m },
                            o => {
                                self.viol(st, lab, format!("collected: {:?}", o));
                                std::mem::forget(x);
                                self.dirty = true;
                            }
                        }
                    }
                    Out::Inj => self.stats.cut_panic += 1,
                    Out::Oom | Out::Panic(_) if f.refused || s.too_big() => self.stats.cut_refused += 1,
                    o => self.viol(st, lab, format!("failed: {:?}", out_name(&o))),
                }
                return self.common(st);
            }
            _ => {}
        }
        self.sensure(v);
        if self.stop {
            return;
        }
        let old = self.sets[v].m.clone();
        macro_rules! o {
            () => {
                self.sets[v].s.as_mut().unwrap()
            };
        }
        match st.op {
            Op::SIns | Op::SRem => {
                let mut new = old;
                let want = if st.op == Op::SIns { new.insert(k) } else { new.remove(&k) };
                self.begin(st);
                let r = if st.op == Op::SIns { o!().insert(k) } else { o!().remove(k) };
                self.sjudge(st, v, r, new, l::C11, vec![], |r| if r == want { None } else { Some(format!("reported {} for {}", r, k)) });
            }
            Op::SClear => {
                self.begin(st);
                let r = o!().clear();
                self.sjudge(st, v, r, BTreeSet::new(), l::C11, vec![], |_| None);
            }
            Op::SShrink => {
                self.begin(st);
                let r = o!().shrink();
                self.sjudge(st, v, r, old, l::C11, vec![], |_| None);
            }
            Op::SExtend => {
                let s = self.sscript(st);
                self.stats.lying += s.lies() as u64;
                self.begin(st);
                let (r, log) = o!().extend(&s);
                self.source(st, &s, &log, matches!(r, Out::Ok(_)));
                let mut cuts = vec![];
                let mut cur = old.clone();
                for &k in s.items.iter().take(log.yielded.get()) {
                    cur.insert(k);
                    cuts.push(cur.clone());
                }
                let mut new = old.clone();
                new.extend(&s.items);
                if s.too_big() && !matches!(r, Out::Ok(_) | Out::Inj) {
                    self.end();
                    self.sdrop(v);
                    return;
                }
                self.sjudge(st, v, r, new, if s.lies() { l::C11 | l::C13 } else { l::C11 | l::C13 }, cuts, |_| None);
            }
            Op::SAlgWith => {
                let (obj2, m2, slot2) = match self.srd(a[1]) {
                    Some(x) => x,
                    None => return,
                };
                if slot2 == Some(v) {
                    return;
                }
                let w = a[2] % 4;
                let new = algebra(&old, &m2, w);
                self.begin(st);
                let r = o!().algebra_with(unsafe { &*obj2 }, w);
                self.sjudge(st, v, r, new, l::C11, vec![], |_| None);
                match self.sdiff(unsafe { &*obj2 }, &m2) {
                    Ok(None) => {}
                    x => self.viol(st, l::C11, format!("the other set changed: {:?}", x)),
                }
            }
            Op::SClone => {
                let w = a[1] as usize % NS;
                if w == v {
                    return;
                }
                self.begin(st);
                let r = o!().clone_obj();
                let f = self.end();
                match r {
                    Out::Ok(s) => {
                        self.sdrop(w);
                        self.sets[w] = SetSlot { s: Some(s), m: old.clone() };
                        let s = self.sets[w].s.take().unwrap();
                        if let Ok(Some(m)) = self.sdiff(s.as_ref(), &old) {
                            self.viol(st, l::C11, format!("the clone: {}", m));
                            if let Ok(x) = s.snapshot() {
                                self.sets[w].m = x.into_iter().collect();
                            }
                        }
                        self.sets[w].s = Some(s);
                    }
                    Out::Inj => {}
                    Out::Oom | Out::Panic(_) if f.refused => self.stats.cut_refused += 1,
                    o => self.viol(st, l::C11, format!("failed: {:?}", out_name(&o))),
                }
                self.common(st);
            }
            Op::SCloneFrom => {
                let (obj2, m2, slot2) = match self.srd(a[1]) {
                    Some(x) => x,
                    None => return,
                };
                if slot2 == Some(v) {
                    return;
                }
                self.begin(st);
                let r = o!().clone_from(unsafe { &*obj2 });
                self.sjudge(st, v, r, m2, l::C11, vec![], |_| None);
            }
            Op::SBad => {
                let n = self.setk.card() as usize + a[1] as usize;
                self.begin(st);
                let r = o!().from_bad(n, a[2] == 1);
                let refused = seam::fired().1;
                match r {
                    Out::Ok(s) if s.contains(&n) => self.viol(st, l::C14, format!("a set took over number {} which no value has", n)),
                    Out::Ok(_) | Out::Panic(_) => {}
                    _ if refused => {}
                    o => self.viol(st, l::C14, format!("making a set of a bit set: {}", out_name(&o))),
                }
                self.sjudge(st, v, Out::Ok(()), old, l::C14, vec![], |_: ()| None);
            }
            Op::SRound => {
                let b = self.sets[v].s.take().unwrap();
                self.begin(st);
                let r = b.round_trip((a[2] % 600) as usize, a[1]);
                let f = self.end();
                match r {
                    Out::Ok(s) => {
                        let d = self.sdiff(s.as_ref(), &old);
                        if d != Ok(None) {
                            self.viol(st, l::C11, format!("bit-set round trip: {:?}", d));
                        }
                        if let Ok(x) = s.snapshot() {
                            self.sets[v].m = x.into_iter().collect();
                        }
                        self.sets[v].s = Some(s);
                    }
                    o => {
                        self.sets[v] = SetSlot::default();
                        if !f.refused {
                            self.viol(st, l::C11, format!("bit-set round trip failed: {:?}", out_name(&o)));
                        }
                    }
                }
                self.common(st);
            }
            _ => {}
        }
    }

    /// Drop everything; afterwards no memory may be held.
    pub fn finish(&mut self) {
        if let Some(n) = &self.nest {
            if let Some(e) = unsafe { &mut *n.get() }.inner.as_mut() {
                e.finish();
            }
        }
        for c in self.curs.iter_mut() {
            *c = CurSlot::default();
        }
        for i in 0..NV {
            if let Some(o) = self.slots[i].v.take() {
                seam::arm_faults(None, None);
                if let o @ (Out::Panic(_) | Out::Oom) = o.drop_it() {
                    let st = Step { client: self.client, at: 0, lev: 0, op: Op::Drop, a: [i as u64, 0, 0, 0], keys: vec![], fault: Fault::None };
                    self.viol(&st, l::C05, format!("dropping failed: {:?}", out_name(&o)));
                }
            }
        }
        for i in 0..NS {
            self.sdrop(i);
        }
    }
    pub fn run(&mut self, steps: &[(usize, Step)]) {
        self.run_keep(steps);
        self.step_id = usize::MAX;
        self.finish();
    }
    pub fn run_keep(&mut self, steps: &[(usize, Step)]) {
        for (k, (i, st)) in steps.iter().enumerate() {
            if self.stop {
                break;
            }
            if st.at > 0 {
                continue;
            }
            if let Some(n) = &self.nest {
                let n = unsafe { &mut *n.get() };
                n.todo = steps[k + 1..].iter().take_while(|s| s.1.at > 0).cloned().collect();
            }
            self.step_id = *i;
            crate::progress::at(*i, st);
            self.step(st);
            self.at = i + 1;
        }
    }
}
fn algebra(a: &BTreeSet<u64>, b: &BTreeSet<u64>, w: u64) -> BTreeSet<u64> {
    match w {
        0 => a.union(b).copied().collect(),
        1 => a.intersection(b).copied().collect(),
        2 => a.difference(b).copied().collect(),
        _ => a.symmetric_difference(b).copied().collect(),
    }
}
pub fn out_name<R>(o: &Out<R>) -> String {
    match o {
        Out::Ok(_) => "success".into(),
        Out::Inj => "caller panic".into(),
        Out::Oom => "allocation failure".into(),
        Out::Fuel => "does not finish".into(),
        Out::Panic(m) => format!("panic: {}", m),
    }
}
/// Sizes no machine can provide.
pub fn huge(a: u64) -> usize {
    match a % 5 {
        0 => usize::MAX,
        1 => usize::MAX - (a / 5 % 300) as usize,
        2 => usize::MAX / 2 + (a / 5 % 300) as usize,
        3 => (1 << 45) + (a / 5 % 300) as usize,
        _ => (1 << 40) + (a / 5 % 300) as usize,
    }
}
