//! Programs: the complete, explicit description of one simulated execution.  Executing a program is a pure function
//! of it; its text form is the replay file.
use crate::alloc::Fill;
use std::fmt::Write;

macro_rules! ops {
    ($($n:ident),+ $(,)?) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum Op { $($n),+ }
        pub const OPS: &[(Op, &str)] = &[$((Op::$n, stringify!($n))),+];
    };
}
ops! {
    // vectors: a[0] = slot
    New, WithCap, FromElem, FromKeys, Collect, Drop,
    Len, Get, Set, Push, Pop, Insert, Remove, SwapRemove, Swap, Truncate, Clear, Resize, Retain, ForEach,
    Extend, Reserve, Shrink, ShrinkAll, RawFill, Append, SplitOff, Clone, CloneFrom, ToVec, IntoVec,
    Any, All, Every, Eq, Hash, Debug, IterAll,
    GetOob, SetOob, SwapOob, RemoveOob, SwapRemoveOob, SplitOob, InsertOob, TruncOob, PopEmpty,
    HugeReserve, HugeWithCap, HugeResize, HugeFromElem,
    FillCap, Replica, Grow, Feed, Revive,
    // cursors
    CurIter, CurInto, CurValues, SCur, SCurValues, CurDup, CurCall, CurClose,
    // sets
    SNew, SCollect, SIns, SRem, SHas, SClear, SExtend, SShrink, SLen, SAlg, SAlgWith, STests, SEq, SHash, SClone,
    SCloneFrom, SIter, SRound, SDebug, SDrop, SBad,
    // every caller
    Probe,
}
impl Op {
    pub fn name(self) -> &'static str {
        OPS[self as usize].1
    }
    pub fn parse(s: &str) -> Option<Op> {
        OPS.iter().find(|o| o.1 == s).map(|o| o.0)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The n-th call-back of the step panics.
    Panic(u32),
    /// Allocation requests n, n+1, .. n+m-1 of the step are refused.
    Oom(u32, u32),
    /// Every request of the step is refused.
    Deny,
    /// Preempt the caller after this many machine instructions of the step (multi-caller programs).
    Preempt(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub client: u8,
    /// Not 0: this step runs inside the caller's preceding ordinary step, at its `at`-th call-back.
    pub at: u32,
    /// How deep: 1 inside an ordinary step, 2 inside the preceding step of depth 1, and so on.
    pub lev: u8,
    pub op: Op,
    pub a: [u64; 4],
    pub keys: Vec<u64>,
    pub fault: Fault,
}

/// Client number of the steps that set up shared objects before the callers start.
pub const SETUP: u8 = 9;
/// Slots from here on are shared (read-only once the callers run).
pub const SHARED: u64 = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prog {
    pub prop: String,
    pub kind: String,
    pub set: String,
    pub fill: Fill,
    pub fill_seed: u64,
    pub guard: bool,
    pub inplace: bool,
    /// Property-specific execution modes.
    pub budget: bool,
    pub clients: u8,
    pub sched_seed: u64,
    pub den: u64,
    pub stall: u64,
    /// Callers are suspended in caller code only.
    pub calm: bool,
    /// When set, the schedule is this list of choices (then "stay").
    pub forced: Option<Vec<u8>>,
    pub steps: Vec<Step>,
}

impl Prog {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "enum_vec_sim program 1").unwrap();
        writeln!(s, "property {}", self.prop).unwrap();
        writeln!(s, "kind {}", self.kind).unwrap();
        writeln!(s, "set {}", self.set).unwrap();
        let f = match self.fill {
            Fill::Zero => "zero".to_string(),
            Fill::Ones => "ones".into(),
            Fill::Random => "random".into(),
            Fill::Const(c) => format!("const:{}", c),
        };
        writeln!(s, "memory fill={} seed={} guard={} inplace={} budget={}", f, self.fill_seed, self.guard as u8, self.inplace as u8, self.budget as u8).unwrap();
        writeln!(s, "callers n={} seed={} den={} stall={} calm={}", self.clients, self.sched_seed, self.den, self.stall, self.calm as u8).unwrap();
        if let Some(f) = &self.forced {
            write!(s, "schedule").unwrap();
            for c in f {
                write!(s, " {}", c).unwrap();
            }
            writeln!(s).unwrap();
        }
        for st in &self.steps {
            write!(s, "step {}", st.client).unwrap();
            if st.at > 0 {
                write!(s, ".{}", st.at).unwrap();
                if st.lev > 1 {
                    write!(s, ".{}", st.lev).unwrap();
                }
            }
            write!(s, " {} {} {} {} {}", st.op.name(), st.a[0], st.a[1], st.a[2], st.a[3]).unwrap();
            match st.fault {
                Fault::None => write!(s, " -"),
                Fault::Panic(n) => write!(s, " panic@{}", n),
                Fault::Oom(n, m) => write!(s, " refuse@{}+{}", n, m),
                Fault::Deny => write!(s, " refuse_all"),
                Fault::Preempt(n) => write!(s, " preempt@{}", n),
            }
            .unwrap();
            for k in &st.keys {
                write!(s, " {}", k).unwrap();
            }
            writeln!(s).unwrap();
        }
        s
    }
    /// One or more programs, run one after the other in one process.
    pub fn parse_all(t: &str) -> Result<Vec<Prog>, String> {
        let mut v: Vec<String> = vec![];
        for l in t.lines() {
            if l.starts_with("enum_vec_sim program") {
                v.push(String::new());
            }
            if let Some(s) = v.last_mut() {
                s.push_str(l);
                s.push('\n');
            }
        }
        if v.is_empty() {
            return Err("no program".into());
        }
        v.iter().map(|s| Prog::parse(s)).collect()
    }
    pub fn parse(t: &str) -> Result<Prog, String> {
        let mut p = Prog {
            prop: String::new(), kind: String::new(), set: String::new(), fill: Fill::Zero, fill_seed: 0, guard: false,
            inplace: false, budget: false, clients: 1, sched_seed: 0, den: 4, stall: 0, calm: false, forced: None, steps: vec![],
        };
        let num = |s: &str| s.parse::<u64>().map_err(|e| format!("{}: {}", s, e));
        for l in t.lines() {
            if l.starts_with('#') || l.trim().is_empty() || l.starts_with("enum_vec_sim program") {
                continue;
            }
            let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
            let kv = |name: &str| -> Result<String, String> {
                rest.split_whitespace()
                    .find_map(|x| x.split_once('=').filter(|(k, _)| *k == name).map(|(_, v)| v.to_string()))
                    .ok_or(format!("missing {}", name))
            };
            match w {
                "property" => p.prop = rest.into(),
                "kind" => p.kind = rest.into(),
                "set" => p.set = rest.into(),
                "memory" => {
                    let f = kv("fill")?;
                    p.fill = match f.as_str() {
                        "zero" => Fill::Zero,
                        "ones" => Fill::Ones,
                        "random" => Fill::Random,
                        o => Fill::Const(num(o.strip_prefix("const:").ok_or("fill")?)? as u8),
                    };
                    p.fill_seed = num(&kv("seed")?)?;
                    p.guard = kv("guard")? == "1";
                    p.inplace = kv("inplace")? == "1";
                    p.budget = kv("budget")? == "1";
                }
                "callers" => {
                    p.clients = num(&kv("n")?)? as u8;
                    p.sched_seed = num(&kv("seed")?)?;
                    p.den = num(&kv("den")?)?;
                    p.stall = num(&kv("stall")?)?;
                    p.calm = kv("calm")? == "1";
                }
                "schedule" => {
                    let mut v = vec![];
                    for x in rest.split_whitespace() {
                        v.push(num(x)? as u8);
                    }
                    p.forced = Some(v);
                }
                "step" => {
                    let x: Vec<&str> = rest.split_whitespace().collect();
                    if x.len() < 7 {
                        return Err(format!("short step: {}", l));
                    }
                    let f = x[6];
                    let fault = if f == "-" {
                        Fault::None
                    } else if let Some(n) = f.strip_prefix("panic@") {
                        Fault::Panic(num(n)? as u32)
                    } else if let Some(n) = f.strip_prefix("preempt@") {
                        Fault::Preempt(num(n)? as u32)
                    } else if let Some(n) = f.strip_prefix("refuse@") {
                        let (a, b) = n.split_once('+').ok_or("refuse")?;
                        Fault::Oom(num(a)? as u32, num(b)? as u32)
                    } else if f == "refuse_all" {
                        Fault::Deny
                    } else {
                        return Err(format!("fault {}", f));
                    };
                    let mut keys = vec![];
                    for k in &x[7..] {
                        keys.push(num(k)?);
                    }
                    let (c, at) = x[0].split_once('.').unwrap_or((x[0], "0"));
                    let (at, lev) = at.split_once('.').unwrap_or((at, if at == "0" { "0" } else { "1" }));
                    p.steps.push(Step {
                        client: num(c)? as u8,
                        at: num(at)? as u32,
                        lev: num(lev)? as u8,
                        op: Op::parse(x[1]).ok_or(format!("op {}", x[1]))?,
                        a: [num(x[2])?, num(x[3])?, num(x[4])?, num(x[5])?],
                        keys,
                        fault,
                    });
                }
                _ => return Err(format!("line: {}", l)),
            }
        }
        Ok(p)
    }
}

pub const PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C19", "C20", "C21",
];
pub fn label(p: &str) -> u32 {
    1 << PROPS.iter().position(|x| *x == p).unwrap_or(31)
}
pub mod l {
    pub const C01: u32 = 1;
    pub const C02: u32 = 1 << 1;
    pub const C03: u32 = 1 << 2;
    pub const C04: u32 = 1 << 3;
    pub const C05: u32 = 1 << 4;
    pub const C06: u32 = 1 << 5;
    pub const C07: u32 = 1 << 6;
    pub const C08: u32 = 1 << 7;
    pub const C09: u32 = 1 << 8;
    pub const C10: u32 = 1 << 9;
    pub const C11: u32 = 1 << 10;
    pub const C12: u32 = 1 << 11;
    pub const C13: u32 = 1 << 12;
    pub const C14: u32 = 1 << 13;
    pub const C19: u32 = 1 << 14;
    pub const C20: u32 = 1 << 15;
    pub const C21: u32 = 1 << 16;
}
pub fn label_names(m: u32) -> String {
    PROPS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect::<Vec<_>>().join(",")
}
