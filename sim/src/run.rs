//! Runs one program: memory reset, set-up, callers, final checks.
use crate::alloc::{self, Fill};
use crate::exec::{Exec, Nest, Shared, Stats, Viol};
use crate::kinds::{kinds, sets, slim};
use crate::prog::{l, label, Prog, Step, SETUP};
use crate::rng::{mix, Rng};
use crate::sched::{self, Sched, MAXT};
use crate::seam;
use crate::setobj::SetKind;
use crate::vecobj::Kind;

#[derive(Default)]
pub struct RunRes {
    pub viols: Vec<Viol>,
    pub stats: Vec<Stats>,
    pub ev_hash: u64,
    pub events: u64,
    pub discard: bool,
    pub states: Vec<u64>,
    pub schedule: Vec<u8>,
    pub sched_stats: [u64; 4], // switches, preempts, stalls, decisions
    pub refusals: [u64; 4],    // fault, deny, budget, huge
    pub blocks: u64,
}
pub fn kind(name: &str) -> Option<&'static dyn Kind> {
    kinds().iter().chain(slim()).find(|k| k.name() == name).copied()
}
pub fn setkind(name: &str) -> Option<&'static dyn SetKind> {
    sets().iter().find(|k| k.name() == name).copied()
}

struct Pass {
    viols: Vec<Viol>,
    stats: Vec<Stats>,
    logs: Vec<Vec<u64>>,
    states: Vec<u64>,
    discard: bool,
    sched: Option<Sched>,
    /// What the first caller's call-backs did, and what they saw, by depth.
    nested: Vec<(Vec<Step>, Vec<u64>)>,
}
struct Send0<T>(T);
unsafe impl<T> Send for Send0<T> {}
impl<T> Send0<T> {
    fn get(&mut self) -> &mut T {
        &mut self.0
    }
}

fn memory(p: &Prog, flip: bool) {
    let a = alloc::a();
    a.reset();
    a.fill = p.fill;
    a.fill_seed = p.fill_seed;
    if flip {
        a.fill = match p.fill {
            Fill::Zero => Fill::Ones,
            Fill::Ones => Fill::Zero,
            Fill::Random => Fill::Random,
            Fill::Const(c) => Fill::Const(!c),
        };
        a.fill_seed = mix(p.fill_seed, 0xF11F);
    }
    a.guard = p.guard;
    a.inplace = p.inplace != flip;
}

/// One pass over the program.  `only`: run just this caller.
fn pass(p: &Prog, k: &'static dyn Kind, s: &'static dyn SetKind, flip: bool, only: Option<u8>) -> Pass {
    memory(p, flip);
    crate::exec::set_lim(&p.steps);
    seam::reset_run();
    let target = label(&p.prop);
    let mut out = Pass { viols: vec![], stats: vec![], logs: vec![], states: vec![], discard: false, sched: None, nested: Default::default() };
    let of = |c: u8| -> Vec<(usize, Step)> {
        p.steps.iter().enumerate().filter(|(_, s)| s.client == c).map(|(i, s)| (i, s.clone())).collect()
    };
    let mut dirty = false;
    let mut shared = Shared::default();
    let mut execs: Vec<Exec<'static>> = vec![];
    if p.clients > 1 || p.steps.iter().any(|s| s.client == SETUP) {
        let mut e = Exec::new(k, s, target);
        e.client = SETUP;
        let steps = of(SETUP);
        e.run_keep(&steps);
        for sl in e.slots.iter_mut() {
            if let Some(v) = sl.v.take() {
                shared.vecs.push((v, std::mem::take(&mut sl.m)));
            }
        }
        for sl in e.sets.iter_mut() {
            if let Some(v) = sl.s.take() {
                shared.sets.push((v, std::mem::take(&mut sl.m)));
            }
        }
        e.finish();
        dirty |= e.dirty;
        out.viols.append(&mut e.viols);
        out.discard |= e.discard;
    }
    let clients: Vec<u8> = match only {
        Some(c) => vec![c],
        None => (0..p.clients.max(1)).collect(),
    };
    for &c in &clients {
        let mut e = Exec::new(k, s, target);
        e.client = c;
        e.budget = p.budget;
        e.shared = &shared;
        if p.steps.iter().any(|s| s.client == c && s.at > 0) {
            let deep = p.steps.iter().map(|s| s.lev.min(crate::gen::NEST)).max().unwrap_or(0).max(1);
            let mut below = None;
            for l in (1..=deep).rev() {
                let mut i = Exec::new(k, s, target);
                i.client = c + 16 * l;
                i.shared = &shared;
                i.nest = below;
                let mut n = Nest::default();
                n.inner = Some(i);
                below = Some(std::rc::Rc::new(std::cell::UnsafeCell::new(n)));
            }
            e.nest = below;
        }
        execs.push(e);
    }
    if out.viols.iter().all(|v| v.labels & target == 0) && !out.discard {
        if clients.len() == 1 {
            let st = of(clients[0]);
            execs[0].run(&st);
        } else {
            let sc = Sched {
                n: clients.len(),
                alive: [false; MAXT],
                threads: Default::default(),
                forced: p.forced.clone().unwrap_or_default(),
                pos: 0,
                rng: if p.forced.is_some() { None } else { Some(Rng::new(p.sched_seed)) },
                den: p.den.max(1),
                log: Vec::with_capacity(1 << 16),
                stall: [0; MAXT],
                stall_rate: p.stall,
                calm: p.calm,
                switches: 0,
                preempts: 0,
                stalls: 0,
                decisions: 0,
            };
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for e in execs.iter_mut() {
                let mut st = of(e.client);
                // objects travel: made by this thread, handed to the caller's, dropped by this one
                let first = (mix(p.sched_seed, e.client as u64) % 4) as usize;
                let rest = st.split_off(first.min(st.len()));
                e.run_keep(&st);
                let st = rest;
                let mut h = Send0(e as *mut Exec<'static>);
                bodies.push(Box::new(move || {
                    let e = unsafe { &mut **h.get() };
                    e.run_keep(&st);
                }));
            }
            out.sched = Some(sched::run(sc, bodies));
            for e in execs.iter_mut() {
                e.run(&[]);
            }
        }
    }
    for e in execs.iter_mut() {
        let first = out.nested.is_empty();
        let mut nest = e.nest.take();
        while let Some(n) = nest {
            let n = unsafe { &mut *n.get() };
            let i = n.inner.as_mut().unwrap();
            out.viols.append(&mut i.viols);
            out.stats.push(std::mem::take(&mut i.stats));
            out.discard |= i.discard;
            dirty |= i.dirty;
            if first && !n.ran.is_empty() {
                out.nested.push((std::mem::take(&mut n.ran), std::mem::take(&mut i.log)));
            }
            nest = i.nest.take();
        }
        out.viols.append(&mut e.viols);
        out.stats.push(std::mem::take(&mut e.stats));
        out.logs.push(std::mem::take(&mut e.log));
        out.states.append(&mut e.states);
        out.discard |= e.discard;
        dirty |= e.dirty;
    }
    drop(execs);
    // shared objects must be as they were
    for (i, (v, m)) in shared.vecs.iter().enumerate() {
        match v.snapshot() {
            Ok(s) if s == *m => {}
            x => out.viols.push(end_viol(p, l::C09, format!("shared vector {} changed from {:?} to {:?}", i, m, x))),
        }
    }
    for (i, (v, m)) in shared.sets.iter().enumerate() {
        match v.snapshot().map(|mut s| {
            s.sort_unstable();
            s
        }) {
            Ok(s) if s.iter().eq(m.iter()) => {}
            x => out.viols.push(end_viol(p, l::C09, format!("shared set {} changed from {:?} to {:?}", i, m, x))),
        }
    }
    for (v, _) in shared.vecs.drain(..) {
        let _ = v.drop_it();
    }
    for (v, _) in shared.sets.drain(..) {
        let _ = v.drop_it();
    }
    let a = alloc::a();
    a.check_all();
    a.check_freed();
    if let Some(v) = a.violation.take() {
        let i = a.vinfo;
        out.viols.push(end_viol(p, l::C05, format!("at the end: {} {:?}", v, i)));
    } else if a.live_count != 0 && !dirty && !out.discard {
        out.viols.push(end_viol(p, l::C05, format!("{} bytes in {} blocks leaked", a.live, a.live_count)));
    }
    if seam::g().invalid_discr > 0 {
        out.viols.push(end_viol(p, l::C05, "caller's from_discr was handed an invalid number".into()));
    }
    out
}
fn end_viol(p: &Prog, labels: u32, msg: String) -> Viol {
    Viol { client: SETUP, step: p.steps.len(), labels, msg }
}

pub fn run(p: &Prog) -> Result<RunRes, String> {
    let k = kind(&p.kind).ok_or(format!("unknown kind {}", p.kind))?;
    let s = setkind(&p.set).ok_or(format!("unknown set {}", p.set))?;
    let a = alloc::a();
    a.refusals_fault = 0;
    a.refusals_deny = 0;
    a.refusals_budget = 0;
    a.refusals_huge = 0;
    seam::g().events = 0;
    let mut r = pass(p, k, s, false, None);
    let a = alloc::a();
    let mut res = RunRes {
        ev_hash: mix(seam::g().ev_hash, r.logs.iter().flatten().fold(7, |h, x| mix(h, *x))),
        events: seam::g().events,
        refusals: [a.refusals_fault, a.refusals_deny, a.refusals_budget, a.refusals_huge],
        blocks: a.blocks() as u64,
        ..RunRes::default()
    };
    if let Some(sc) = &mut r.sched {
        res.schedule = std::mem::take(&mut sc.log);
        res.sched_stats = [sc.switches, sc.preempts, sc.stalls, sc.decisions];
    }
    let target = label(&p.prop);
    let hit = |v: &[Viol]| v.iter().any(|v| v.labels & target != 0);
    if p.prop == "C05" && !hit(&r.viols) && !r.discard {
        // the same history over other memory contents
        let mut q = pass(p, k, s, true, None);
        if hit(&q.viols) {
            r.viols.append(&mut q.viols);
        } else if q.logs != r.logs && r.viols.is_empty() == q.viols.is_empty() {
            r.viols.push(end_viol(p, l::C05, "results depend on what freshly allocated memory contained".into()));
        } else if r.viols.is_empty() != q.viols.is_empty() {
            let m = r.viols.iter().chain(&q.viols).next().map(|v| v.msg.clone()).unwrap_or_default();
            r.viols.push(end_viol(p, l::C05, format!("results depend on what freshly allocated memory contained: with one content {}", m)));
        }
    }
    if p.prop == "C09" && p.clients > 1 && !hit(&r.viols) && !r.discard {
        for c in 0..p.clients {
            let q = pass(p, k, s, false, Some(c));
            if q.discard {
                r.discard = true;
                break;
            }
            if q.logs.first() != r.logs.get(c as usize) {
                let m = r.viols.iter().find(|v| v.client == c).map(|v| v.msg.clone()).unwrap_or_default();
                r.viols.push(Viol {
                    client: c,
                    step: p.steps.len(),
                    labels: l::C09,
                    msg: format!("caller {} saw results it does not see when it runs alone {}", c, m),
                });
            }
        }
    }
    if p.prop == "C19" && !r.nested.is_empty() && !hit(&r.viols) && !r.discard {
        // the same steps without what the call-backs do, and that alone
        let mut plain = p.clone();
        plain.steps.retain(|s| s.at == 0);
        let mut alone = plain.clone();
        alone.steps.retain(|s| s.client == SETUP);
        let mut cases = vec![(plain, &r.logs[0], "an operation")];
        for (steps, log) in &r.nested {
            let mut q = alone.clone();
            q.steps.extend(steps.iter().cloned());
            cases.push((q, log, "an operation called from inside caller code of another one"));
        }
        for (q, want, who) in &cases {
            let q = pass(q, k, s, false, None);
            r.discard |= q.discard;
            if !q.discard && q.logs.first() != Some(*want) {
                let m = r.viols.first().map(|v| v.msg.clone()).unwrap_or_default();
                r.viols.push(end_viol(p, l::C19, format!("{} gave results it does not give without the other {}", who, m)));
                break;
            }
        }
    }
    if r.discard {
        r.viols.clear();
    }
    res.discard = r.discard;
    res.viols = r.viols;
    res.stats = r.stats;
    res.states = r.states;
    Ok(res)
}
