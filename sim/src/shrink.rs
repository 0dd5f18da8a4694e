//! Execution of single programs, and minimisation of violating ones (each candidate in a forked child).
use crate::alloc::Fill;
use crate::prog::{label, Fault, Op, Prog, Step, SETUP};
use crate::progress;
use crate::run;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setitimer(w: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn usleep(u: u32) -> i32;
}

/// How one execution of a program ended.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct End {
    /// Labels violated (by the oracles).
    pub labels: u64,
    pub hash: u64,
    /// "" | "signal N" | "exit N" | "hang" | "blocked"
    pub death: String,
    pub at: progress::At2,
}

/// Labels of a process that died or hung while it executed `op`.
pub fn death_labels(op: u64, prop: &str, faults: u64) -> u32 {
    use crate::prog::l::*;
    let mut m = C05;
    let op = crate::prog::OPS.get(op as usize).map(|o| o.0);
    if let Some(op) = op {
        use Op::*;
        m |= match op {
            New | WithCap | Len | Get | Set | Push | Pop | Insert | Remove | SwapRemove | Swap | Truncate | Clear | Resize
            | Retain | ForEach | Reserve | Shrink | ShrinkAll | RawFill | Drop => C01,
            FromElem | FromKeys | Append | SplitOff | Clone | CloneFrom | ToVec | IntoVec => C04,
            Collect | Extend => C01 | C04 | C13,
            Any | All | Every | Eq | Replica => C08,
            Hash => C08 | C12,
            Debug => C12,
            IterAll | CurIter | CurInto | CurValues | CurDup | SCurValues | CurClose => C10,
            CurCall => C10 | C11,
            SCur => C11,
            Feed => C04 | C13,
            Revive => C01,
            GetOob | SetOob | SwapOob | RemoveOob | SwapRemoveOob | SplitOob | InsertOob | TruncOob | PopEmpty | SBad => C14,
            HugeReserve | HugeWithCap | HugeResize | HugeFromElem => C03,
            FillCap => C06,
            Grow => C01 | C21,
            SExtend | SCollect => C11 | C13,
            SDebug | SHash => C11 | C12,
            Probe => C09,
            _ => C11,
        };
        if matches!(op, WithCap | Reserve | FillCap) {
            m |= C06;
        }
    }
    // decided further by the caller, who can run the program without its faults or without its other callers
    if faults & 1 != 0 {
        m |= C02;
    }
    if faults & 2 != 0 {
        m |= C03;
    }
    if prop == "C09" {
        m |= C09;
    }
    if prop == "C19" {
        m |= C19;
    }
    m
}

/// Run a program in a forked child.
/// (the last program is the one that counts; the others run before it in the same process)
pub fn attempt(ps: &[Prog]) -> End {
    progress::run(0);
    progress::set(progress::LABELS, 0);
    progress::set(progress::HASH, 0);
    progress::set(progress::DONE, 0);
    unsafe {
        let pid = fork();
        if pid == 0 {
            // stop when no step finishes: CPU time (a loop) -> SIGVTALRM
            setitimer(1, &[0, 0, 10, 0], std::ptr::null_mut());
            let (p, before) = ps.split_last().unwrap();
            for b in before {
                let _ = run::run(b);
                progress::run(0);
            }
            match run::run(p) {
                Ok(r) => {
                    let m = r.viols.iter().fold(0, |a, v| a | v.labels);
                    progress::set(progress::LABELS, m as u64);
                    progress::set(progress::HASH, r.ev_hash);
                    progress::set(progress::DONE, 1);
                    _exit(0)
                }
                Err(_) => _exit(3),
            }
        }
        let mut st = 0;
        let t = Instant::now();
        let mut blocked = false;
        let (mut n, mut beats, mut since) = (0u32, 0, Instant::now());
        loop {
            let r = waitpid(pid, &mut st, 1);
            if r != 0 {
                break;
            }
            n += 1;
            usleep(if n < 40 { 100 } else if n < 200 { 1000 } else { 20_000 });
            if n > 200 {
                let b = progress::read_own().beats;
                if b != beats {
                    beats = b;
                    since = Instant::now();
                }
                if since.elapsed() > Duration::from_secs(20) || t.elapsed() > Duration::from_secs(120) {
                    blocked = true;
                    kill(pid, 9);
                    waitpid(pid, &mut st, 0);
                    break;
                }
            }
        }
        let at = progress::read_own();
        let death = if blocked {
            "blocked".to_string()
        } else if st & 0x7f == 26 {
            "hang".into()
        } else if st & 0x7f != 0 {
            format!("signal {}", st & 0x7f)
        } else if st >> 8 != 0 {
            format!("exit {}", st >> 8 & 0xff)
        } else if progress::get(progress::DONE) == 0 {
            "exit early".into()
        } else {
            String::new()
        };
        End {
            labels: progress::get(progress::LABELS),
            hash: progress::get(progress::HASH),
            death,
            at: progress::At2 { step: at.step, op: at.op, faults: at.faults },
        }
    }
}

/// All labels violated by a program, deaths included.
pub fn judge(ps: &[Prog]) -> (u32, End) {
    let p = ps.last().unwrap();
    let e = attempt(ps);
    if e.death.is_empty() {
        let m = e.labels as u32;
        return (m, e);
    }
    let mut m = death_labels(e.at.op, &p.prop, e.at.faults);
    use crate::prog::l;
    let without = |f: &dyn Fn(&Fault) -> bool| {
        let mut q = ps.to_vec();
        for s in q.iter_mut().flat_map(|q| q.steps.iter_mut()) {
            if f(&s.fault) {
                s.fault = Fault::None;
            }
        }
        q
    };
    if m & l::C02 & label(&p.prop) != 0 && !attempt(&without(&|f| matches!(f, Fault::Panic(_)))).death.is_empty() {
        m &= !l::C02;
    }
    if m & l::C03 & label(&p.prop) != 0 && !attempt(&without(&|f| matches!(f, Fault::Oom(..) | Fault::Deny))).death.is_empty() {
        m &= !l::C03;
    }
    if m & l::C19 != 0 {
        // without what the call-backs do, and that alone
        for lev in 0..=crate::gen::NEST {
            let mut a = ps.to_vec();
            for q in a.iter_mut() {
                q.steps.retain(|s| s.client == SETUP || s.lev == lev);
                q.steps.iter_mut().for_each(|s| (s.at, s.lev) = (0, 0));
            }
            if !attempt(&a).death.is_empty() {
                m &= !l::C19;
                break;
            }
        }
    }
    if p.clients > 1 {
        // one caller after the other
        let mut q = without(&|f| matches!(f, Fault::Preempt(_)));
        for q in q.iter_mut() {
            q.forced = Some(vec![]);
        }
        let serial = attempt(&q);
        if serial.death.is_empty() {
            if (e.death == "blocked" || e.death == "hang") && !p.calm {
                // one caller waits for another suspended inside the library: legal, and not simulated
                m = 0;
            }
        } else {
            m &= !l::C09;
        }
    }
    (m, e)
}

fn load(f: &str) -> Vec<Prog> {
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("{}: {}", f, e);
        std::process::exit(2)
    });
    Prog::parse_all(&t).unwrap_or_else(|e| {
        eprintln!("{}: {}", f, e);
        std::process::exit(2)
    })
}

/// Run one program in this process; prints what it violates.
pub fn one(f: &str, progress_file: Option<&str>) -> i32 {
    let ps = load(f);
    if let Some(f) = progress_file {
        let _ = progress::map(f);
    } else {
        progress::map_anon();
    }
    let (p, before) = ps.split_last().unwrap();
    for b in before {
        let _ = run::run(b);
    }
    progress::run(0);
    let r = match run::run(p) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let t = label(&p.prop);
    for v in &r.viols {
        println!(
            "{} property={} caller={} step={} {}",
            if v.labels & t != 0 { "VIOLATED" } else { "also" },
            crate::prog::label_names(v.labels),
            v.client,
            v.step,
            v.msg.replace('\n', " ")
        );
    }
    println!("EVENTS {} HASH {:016x}", r.events, r.ev_hash);
    0
}

pub fn judge_cmd(f: &str) -> i32 {
    progress::map_anon();
    let (m, e) = judge(&load(f));
    println!("LABELS {} DEATH {} STEP {} HASH {:016x}", m, if e.death.is_empty() { "-".into() } else { e.death.replace(' ', "_") }, e.at.step, e.hash);
    0
}

struct Shrinker {
    best: Vec<Prog>,
    t: u32,
    dead: bool,
    end: Instant,
    tries: u64,
}
impl Shrinker {
    fn late(&self) -> bool {
        Instant::now() > self.end
    }
    /// Keep the changed programs if they still violate the property in the same manner.
    fn keep(&mut self, q: Vec<Prog>) -> bool {
        if self.late() || q == self.best {
            return false;
        }
        self.tries += 1;
        let (m, e) = judge(&q);
        let y = m & self.t != 0 && e.death.is_empty() != self.dead;
        if y {
            self.best = q;
        }
        y
    }
    fn edit(&mut self, pi: usize, f: impl FnOnce(&mut Prog)) -> bool {
        let mut q = self.best.clone();
        f(&mut q[pi]);
        self.keep(q)
    }
    /// Remove chunks of something with `len` members by `cut`.
    fn chunks(&mut self, len: &dyn Fn(&[Prog]) -> usize, cut: &dyn Fn(&mut Vec<Prog>, usize, usize)) {
        let mut n = len(&self.best).div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < len(&self.best) && !self.late() {
                let j = (i + n).min(len(&self.best));
                let mut q = self.best.clone();
                cut(&mut q, i, j);
                if !self.keep(q) {
                    i = j;
                }
            }
            if n == 1 || self.late() {
                break;
            }
            n = n.div_ceil(2);
        }
    }
    fn program(&mut self, pi: usize) {
        // whole callers
        for c in (0..self.best[pi].clients).rev() {
            let p = &self.best[pi];
            if p.clients <= 1 || p.clients == 2 && p.prop == "C09" {
                break;
            }
            self.edit(pi, |q| {
                q.steps.retain(|s| s.client != c);
                for s in q.steps.iter_mut() {
                    if s.client > c && s.client != SETUP {
                        s.client -= 1;
                    }
                }
                q.clients -= 1;
            });
        }
        self.chunks(&|b| b[pi].steps.len(), &|q, i, j| {
            q[pi].steps.drain(i..j);
        });
        // schedule
        if let Some(f) = self.best[pi].forced.clone() {
            let mut n = f.len();
            while n > 0 && self.edit(pi, |q| q.forced.as_mut().unwrap().truncate(n / 2)) {
                n /= 2;
            }
            let len = self.best[pi].forced.as_ref().unwrap().len();
            let mut n = len.div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < len && !self.late() {
                    let j = (i + n).min(len);
                    self.edit(pi, |q| q.forced.as_mut().unwrap()[i..j].iter_mut().for_each(|x| *x = 0));
                    i = j;
                }
                if n == 1 || self.late() {
                    break;
                }
                n = n.div_ceil(2);
            }
            let f = self.best[pi].forced.as_ref().unwrap();
            let n = f.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
            self.edit(pi, |q| q.forced.as_mut().unwrap().truncate(n));
        }
        // environment
        if self.best[pi].fill != Fill::Zero && !self.edit(pi, |q| q.fill = Fill::Zero) {
            self.edit(pi, |q| q.fill = Fill::Ones);
        }
        self.edit(pi, |q| q.guard = false);
        self.edit(pi, |q| q.inplace = false);
        self.edit(pi, |q| q.budget = false);
        for i in 0..self.best[pi].steps.len() {
            // faults
            let f = self.best[pi].steps[i].fault;
            if f != Fault::None {
                let mut c = vec![Fault::None];
                match f {
                    Fault::Panic(n) if n > 1 => c.extend([Fault::Panic(1), Fault::Panic(n / 2), Fault::Panic(n - 1)]),
                    Fault::Oom(a, b) => c.extend([Fault::Oom(1, 1), Fault::Oom(a, 1), Fault::Oom(a.saturating_sub(1).max(1), b)]),
                    Fault::Deny => c.push(Fault::Oom(1, 1)),
                    Fault::Preempt(n) if n > 1 => c.extend([Fault::Preempt(1), Fault::Preempt(n / 2), Fault::Preempt(n - 1)]),
                    _ => {}
                }
                for x in c {
                    if self.edit(pi, |q| q.steps[i].fault = x) {
                        break;
                    }
                }
            }
            for _ in 0..12 {
                let n = self.best[pi].steps[i].at;
                if n <= 1 || ![1, n / 2, n - 1].into_iter().any(|x| self.edit(pi, |q| q.steps[i].at = x)) {
                    break;
                }
            }
            while self.best[pi].steps[i].lev > 1 && self.edit(pi, |q| q.steps[i].lev -= 1) {}
            // keys
            self.chunks(&|b| b[pi].steps[i].keys.len(), &|q, a, b| {
                q[pi].steps[i].keys.drain(a..b);
            });
            for k in 0..self.best[pi].steps[i].keys.len().min(40) {
                self.edit(pi, |q| q.steps[i].keys[k] = 0);
            }
            // arguments
            for k in 0..4 {
                for _ in 0..20 {
                    let v = self.best[pi].steps[i].a[k];
                    if v == 0 || ![0, v / 2, v - 1].into_iter().any(|w| self.edit(pi, |q| q.steps[i].a[k] = w)) {
                        break;
                    }
                }
            }
        }
    }
}

pub fn shrink(f: &str, out: &str, secs: u64) -> i32 {
    progress::map_anon();
    let best = load(f);
    let t = label(&best.last().unwrap().prop);
    let (m, e) = judge(&best);
    if m & t == 0 {
        println!("NOT-REPRODUCED");
        return 1;
    }
    let mut s = Shrinker { best, t, dead: !e.death.is_empty(), end: Instant::now() + Duration::from_secs(secs), tries: 0 };
    if s.best.len() > 1 {
        s.chunks(&|b| b.len() - 1, &|q, i, j| {
            q.drain(i..j);
        });
    }
    // make the schedules explicit
    for pi in 0..s.best.len() {
        let p = &s.best[pi];
        if p.clients > 1 && p.forced.is_none() && !s.dead {
            if let Ok(log) = schedule_of(p) {
                s.edit(pi, |q| q.forced = Some(log));
            }
        }
    }
    let mut last = usize::MAX;
    loop {
        let c = s.best.iter().map(cost).sum();
        if c >= last || s.late() {
            break;
        }
        last = c;
        for pi in (0..s.best.len()).rev() {
            s.program(pi);
        }
    }
    let text: String = s.best.iter().map(|p| p.to_text()).collect();
    std::fs::write(out, text).expect("write");
    println!("SHRUNK tries={} programs={} steps={}", s.tries, s.best.len(), s.best.iter().map(|p| p.steps.len()).sum::<usize>());
    0
}

fn cost(p: &Prog) -> usize {
    let s = |s: &Step| {
        8 + s.at as usize + s.keys.len() + s.a.iter().filter(|x| **x != 0).count() + (s.fault != Fault::None) as usize * 4
            + s.a.iter().map(|x| (64 - x.leading_zeros()) as usize / 8).sum::<usize>()
    };
    p.steps.iter().map(s).sum::<usize>()
        + p.forced.as_ref().map_or(0, |f| f.len() + f.iter().filter(|x| **x != 0).count())
        + p.clients as usize * 8
}

/// The choices the scheduler makes in this program.
fn schedule_of(p: &Prog) -> Result<Vec<u8>, String> {
    let tmp = std::env::temp_dir().join(format!("enum_vec_sim.{}.sched", std::process::id()));
    unsafe {
        let pid = fork();
        if pid == 0 {
            setitimer(1, &[0, 0, 10, 0], std::ptr::null_mut());
            if let Ok(r) = run::run(p) {
                let _ = std::fs::write(&tmp, &r.schedule);
                _exit(0);
            }
            _exit(1);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
    }
    let r = std::fs::read(&tmp).map_err(|e| e.to_string());
    let _ = std::fs::remove_file(&tmp);
    r
}
