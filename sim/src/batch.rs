//! A check: many simulated runs in worker processes, watched by this one; violations are minimised and written out as
//! replay files; the evidence is counted here.
use crate::gen;
use crate::preempt;
use crate::prog::{label, Op, Prog};
use crate::progress;
use crate::rng::mix;
use crate::run;
use crate::seam::{self, NPT, PT_NAMES};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

/// Number of simulated runs: (quick, thorough).
fn volume(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C01" => 1_440_000,
        "C02" => 1_440_000,
        "C03" => 1_200_000,
        "C04" => 1_920_000,
        "C05" => 960_000,
        "C06" => 1_200_000,
        "C07" => 1_200_000,
        "C08" => 1_440_000,
        "C09" => 80_000,
        "C10" => 1_920_000,
        "C11" => 1_440_000,
        "C12" => 1_200_000,
        "C13" => 1_200_000,
        "C19" => 480_000,
        "C20" => 1_440_000,
        "C21" => 400_000,
        _ => 1_440_000,
    };
    (q, q * 25)
}
const RULE: &[(&str, &str)] = &[
    ("C01", "the vectors passed through at least 4 distinct contents"),
    ("C02", "at least one operation was really cut short by an injected panic of caller code"),
    ("C03", "at least one memory request was really refused during an operation"),
    ("C04", "at least one append, split_off, clone, conversion or collection was executed"),
    ("C05", "at least one block of simulated memory was used and at least 3 operations executed"),
    ("C06", "at least one vector was filled to its reported capacity while every memory request would be refused"),
    ("C07", "at least one operation ran with memory limited to what the property allows"),
    ("C08", "at least one query or comparison was decided"),
    ("C09", "at least one switch between callers happened inside a call"),
    ("C10", "at least 3 calls were made on cursors"),
    ("C11", "at least 3 set operations were executed"),
    ("C12", "at least one write to a sink failed, or at least one complete output was compared"),
    ("C13", "at least one bulk load from a source with a misleading promise or with items after its end"),
    ("C14", "at least one request out of range was made"),
    ("C19", "at least one operation ran inside a call-back of another one"),
    ("C20", "at least one closure, source, hasher or sink was called"),
    ("C21", "at least one vector grew through several sizes bit by bit"),
];

/// Counters by name; one flat map keeps merging trivial.
pub type Counts = BTreeMap<String, u64>;

fn nontrivial(prop: &str, r: &run::RunRes) -> bool {
    let sum = |f: &dyn Fn(&crate::exec::Stats) -> u64| r.stats.iter().map(f).sum::<u64>();
    let ops = |names: &[Op]| sum(&|s| names.iter().map(|n| s.ops.get(n.name()).copied().unwrap_or(0)).sum());
    let probe = |n: &str| sum(&|s| s.probes.get(n).copied().unwrap_or(0));
    match prop {
        "C01" => r.states.iter().collect::<BTreeSet<_>>().len() >= 4,
        "C02" => sum(&|s| s.cut_panic) > 0,
        "C03" => sum(&|s| s.cut_refused) > 0,
        "C04" => ops(&[Op::Append, Op::SplitOff, Op::Clone, Op::CloneFrom, Op::ToVec, Op::IntoVec, Op::FromKeys, Op::FromElem, Op::Collect]) > 0,
        "C05" => r.blocks > 0 && sum(&|s| s.steps) >= 3,
        "C06" => probe("filled_to_capacity_without_memory") > 0,
        "C07" => sum(&|s| s.budget_ops) > 0,
        "C08" => ops(&[Op::Any, Op::All, Op::Every, Op::Eq, Op::Hash, Op::Replica]) > 0,
        "C09" => r.sched_stats[0] + r.sched_stats[1] > 0,
        "C10" => ops(&[Op::CurCall]) >= 3,
        "C11" => sum(&|s| s.ops.iter().filter(|(n, _)| n.starts_with('S') && Op::parse(n).is_some_and(|o| o as u8 >= Op::SNew as u8)).map(|x| *x.1).sum()) >= 3,
        "C12" => sum(&|s| s.sink_fails) > 0 || ops(&[Op::Debug, Op::SDebug, Op::Hash, Op::SHash]) > 0,
        "C13" => sum(&|s| s.lying) > 0,
        "C19" => probe("operations_nested_in_caller_code") > 0,
        "C20" => ops(&[Op::Retain, Op::ForEach, Op::Extend, Op::Collect, Op::SExtend, Op::SCollect, Op::Debug, Op::SDebug, Op::Hash]) > 0,
        "C21" => probe("grown_through_several_sizes") > 0,
        _ => sum(&|s| s.oob) > 0,
    }
}

/// Worker: runs start, start+stride, .. below end.
pub fn work(prop: &str, seed: u64, start: u64, stride: u64, end: u64, prg: &str, out: &str, cap_s: u64) -> i32 {
    progress::map(prg).expect("progress file");
    let target = label(prop);
    let mut c = Counts::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    let mut batch = 0u64;
    let t = Instant::now();
    let mut i = start;
    let mut viol = None;
    let fired0 = preempt::FIRED.load(SeqCst);
    while i < end {
        if progress::get(progress::LIMIT) != 0 && i + 1 > progress::get(progress::LIMIT) {
            break;
        }
        if i / stride % 64 == 0 && t.elapsed() > Duration::from_secs(cap_s) {
            *c.entry("truncated".into()).or_default() += 1;
            break;
        }
        let p = gen::program(prop, seed, i);
        progress::run(i);
        let r = run::run(&p).expect("program");
        let mut add = |k: &str, v: u64| {
            if let Some(x) = c.get_mut(k) {
                *x += v
            } else {
                c.insert(k.into(), v);
            }
        };
        add("runs", 1);
        add("discarded", r.discard as u64);
        add("events", r.events);
        add("blocks", r.blocks);
        for (n, v) in ["switches", "preemptions", "stalls", "decisions"].iter().zip(r.sched_stats) {
            add(&format!("sched.{}", n), v);
        }
        for (n, v) in ["at_chosen_request", "all_requests", "memory_limit", "more_than_the_machine_has"].iter().zip(r.refusals) {
            add(&format!("refused.{}", n), v);
        }
        for s in &r.stats {
            add("steps", s.steps);
            add("cut.panic", s.cut_panic);
            add("cut.refused", s.cut_refused);
            add("retries", s.retries);
            add("out_of_range", s.oob);
            add("sink_errors", s.sink_fails);
            add("misleading_sources", s.lying);
            add("deny_ops", s.deny_ops);
            add("budget_ops", s.budget_ops);
            for (o, n) in &s.ops {
                add(&format!("op.{}", o), *n);
            }
            for (o, n) in &s.probes {
                add(&format!("reached.{}", o), *n);
            }
        }
        let foreign = r.viols.iter().filter(|v| v.labels & target == 0).count() as u64;
        add("other_property_violations", foreign);
        if let Some(f) = std::env::var_os("SIM_SHOW_OTHER").filter(|_| foreign > 0) {
            use std::io::Write;
            let v = r.viols.iter().find(|v| v.labels & target == 0).unwrap();
            let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| writeln!(f, "{} run {}: {:#x} {}", prop, i, v.labels, v.msg));
        }
        if p.guard {
            add("guard_page_runs", 1);
        }
        if p.clients > 1 {
            add("multi_caller_runs", 1);
        }
        if !r.discard {
            batch = batch.wrapping_add(mix(i, r.ev_hash));
            if nontrivial(prop, &r) {
                hashes.insert(r.ev_hash);
            }
        }
        kinds.insert(p.kind.clone());
        if states.len() < 3_000_000 {
            states.extend(r.states.iter().copied());
        }
        if r.viols.iter().any(|v| v.labels & target != 0) {
            viol = Some(i);
            break;
        }
        // the same program again: the execution must be the same, event by event
        if i / stride % 97 == 5 {
            let q = run::run(&p).expect("program");
            add("repeated", 1);
            add("repeated_differently", (q.ev_hash != r.ev_hash) as u64);
        }
        i += stride;
    }
    let g = seam::g();
    for k in 0..NPT {
        c.insert(format!("seam.{}", PT_NAMES[k]), g.points[k]);
        if g.panics_fired[k] > 0 {
            c.insert(format!("panic_in.{}", PT_NAMES[k]), g.panics_fired[k]);
        }
    }
    c.insert("single_step_preemptions".into(), preempt::FIRED.load(SeqCst) - fired0);
    c.insert("single_step_works".into(), preempt::works() as u64);
    let mut s = String::new();
    for (k, v) in &c {
        writeln!(s, "n {} {}", k, v).unwrap();
    }
    for k in &kinds {
        writeln!(s, "k {}", k).unwrap();
    }
    writeln!(s, "batch {}", batch).unwrap();
    if let Some(i) = viol {
        writeln!(s, "viol {}", i).unwrap();
    }
    let bin = |f: &str, v: &BTreeSet<u64>| {
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{}.{}", out, f), b).expect("write");
    };
    bin("states", &states);
    bin("hashes", &hashes);
    std::fs::write(out, s).expect("write");
    0
}

struct W {
    child: Option<Child>,
    bin: String,
    id: u64,
    gen: u32,
    start: u64,
    outs: Vec<String>,
    prg: String,
    beats: u64,
    since: Instant,
    cpu: u64,
}
fn spawn(w: &mut W, a: &Args, dir: &str) {
    let out = format!("{}/out.{}.{}", dir, w.id, w.gen);
    w.gen += 1;
    let c = Command::new(&w.bin)
        .args(["work", a.prop, &a.seed.to_string(), &w.start.to_string(), &WORKERS.to_string(), &a.end.to_string(), &w.prg, &out, &a.cap.saturating_sub(a.t0.elapsed().as_secs()).to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::from(std::fs::File::create(format!("{}/err.{}", dir, w.id)).expect("file")))
        .spawn()
        .expect("spawn worker");
    w.outs.push(out);
    w.child = Some(c);
    w.beats = 0;
    w.since = Instant::now();
    w.cpu = 0;
}
struct Args<'a> {
    prop: &'a str,
    seed: u64,
    end: u64,
    cap: u64,
    t0: Instant,
}
/// CPU time of a process in clock ticks, and whether any of its threads can run.
fn cpu_of(pid: u32) -> (u64, bool) {
    let mut t = 0;
    let mut running = false;
    for e in std::fs::read_dir(format!("/proc/{}/task", pid)).into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        if let Some((_, r)) = s.rsplit_once(')') {
            let f: Vec<&str> = r.split_whitespace().collect();
            running |= f.first() == Some(&"R");
            t += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        }
    }
    (t, running)
}
fn self_exe() -> String {
    std::env::current_exe().expect("exe").to_string_lossy().into_owned()
}
/// The binary of the given build profile, next to this one.
fn bin_of(profile: &str) -> String {
    let me = self_exe();
    let dir = std::path::Path::new(&me).parent().unwrap().parent().unwrap();
    dir.join(profile).join("enum_vec_sim").to_string_lossy().into_owned()
}
fn profile_of(i: u64) -> &'static str {
    if i % WORKERS % 2 == 0 { "release" } else { "checked" }
}
fn run_out(bin: &str, args: &[&str], limit: u64) -> (String, String) {
    let mut c = Command::new(bin).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let mut o = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut s);
        s
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            use std::os::unix::process::ExitStatusExt;
            break match (s.code(), s.signal()) {
                (Some(0), _) => String::new(),
                (Some(c), _) => format!("exit_{}", c),
                (_, s) => format!("signal_{}", s.unwrap_or(0)),
            };
        }
        if t.elapsed() > Duration::from_secs(limit) {
            let _ = c.kill();
            let _ = c.wait();
            break "hang".into();
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    (h.join().unwrap_or_default(), st)
}
fn word<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let mut i = s.split_whitespace();
    i.find(|x| *x == k)?;
    i.next()
}

/// One execution in a fresh process: what it violates of the property, its fingerprint, and the first message.
struct Fresh {
    hit: bool,
    print: String,
    msg: String,
}
fn fresh(bin: &str, file: &str, prop: &str) -> Fresh {
    let (o, _) = run_out(bin, &["judge", file], 300);
    let labels: u32 = word(&o, "LABELS").and_then(|x| x.parse().ok()).unwrap_or(0);
    let death = word(&o, "DEATH").unwrap_or("-").to_string();
    if death != "-" {
        let step = word(&o, "STEP").unwrap_or("0").to_string();
        return Fresh {
            hit: labels & label(prop) != 0,
            print: format!("death={} step={}", death, step),
            msg: format!("the process died or hung ({}) in step {} (counted from 1)", death.replace('_', " "), step),
        };
    }
    let (o, _) = run_out(bin, &["one", file], 120);
    let first = o.lines().find(|l| l.starts_with("VIOLATED"));
    Fresh {
        hit: first.is_some(),
        print: format!("hash={}", word(&o, "HASH").unwrap_or("?")),
        msg: first.unwrap_or("").trim_start_matches("VIOLATED ").to_string(),
    }
}

/// Minimise, confirm in fresh processes, and write the replay file.
fn report(prop: &str, seed: u64, i: u64, first: u64, dir: &str, replays: &str, out: &str) -> Option<(String, String)> {
    let bin = bin_of(profile_of(i));
    let full = format!("{}/full", dir);
    std::fs::write(&full, gen::program(prop, seed, i).to_text()).expect("write");
    let mut f = fresh(&bin, &full, prop);
    if !f.hit {
        // it needs what earlier runs of the same process left behind: run them too
        let mut n = 1;
        loop {
            let lo = i.saturating_sub(n * WORKERS).max(first);
            let text: String = (lo..=i).rev().step_by(WORKERS as usize).collect::<Vec<_>>().into_iter().rev().map(|j| gen::program(prop, seed, j).to_text()).collect();
            std::fs::write(&full, text).expect("write");
            f = fresh(&bin, &full, prop);
            if f.hit || lo == first || n > 20_000 {
                break;
            }
            n *= 4;
        }
        if !f.hit {
            return None;
        }
    }
    let small = format!("{}/small", dir);
    let (o, _) = run_out(&bin, &["shrink", &full, &small, "25"], 90);
    eprint!("{}", o);
    let mut text = std::fs::read_to_string(&full).unwrap();
    if o.starts_with("SHRUNK") {
        let g = fresh(&bin, &small, prop);
        if g.hit {
            text = std::fs::read_to_string(&small).unwrap();
            f = g;
        }
    }
    let _ = std::fs::create_dir_all(replays);
    let path = out.to_string();
    let mut s = String::new();
    writeln!(s, "# property={} seed={} run={} profile={}", prop, seed, i, profile_of(i)).unwrap();
    writeln!(s, "# {}", f.msg).unwrap();
    writeln!(s, "# expect {}", f.print).unwrap();
    s.push_str(&text);
    std::fs::write(&path, s).expect("write replay");
    // the file itself, in another fresh process
    let again = fresh(&bin, &path, prop);
    if again.print != f.print {
        eprintln!("note: a second execution differed ({} / {})", f.print, again.print);
    }
    Some((path, f.msg))
}

/// Replay a file: exit 1 and the violation if it happens again exactly.
pub fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let head = |k: &str| t.lines().filter(|l| l.starts_with('#')).flat_map(|l| l.split_whitespace()).find_map(|w| w.strip_prefix(k).map(String::from));
    let profile = head("profile=").unwrap_or("release".into());
    let prop = match Prog::parse_all(&t) {
        Ok(p) => p.last().unwrap().prop.clone(),
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let f = fresh(&bin_of(&profile), file, &prop);
    let want = t.lines().find_map(|l| l.strip_prefix("# expect ")).unwrap_or("").to_string();
    if f.hit {
        println!("{}", f.msg);
        println!("{} {}", if f.print == want { "REPRODUCED exactly:" } else { "violated, but not the recorded execution:" }, f.print);
        println!("VIOLATION property={} replay={}", prop, file);
        1
    } else {
        println!("not violated: {} (recorded: {})", f.print, want);
        0
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn check(prop: &str, tier: &str, seed: u64, base: &str) -> i32 {
    let t0 = Instant::now();
    let (q, th) = volume(prop);
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { th } else { q }) as f64 * scale) as u64;
    let mut a = Args { prop, seed, end: total.max(WORKERS), cap: if tier == "thorough" { 3000 } else { 150 }, t0 };
    let dir = format!("{}/enum_vec_sim.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let replays = format!("{}/replays", base);
    let target = label(prop);

    let mut ws: Vec<W> = (0..WORKERS)
        .map(|id| W {
            child: None, bin: bin_of(profile_of(id)), id, gen: 0, start: id, outs: vec![], prg: format!("{}/prg.{}", dir, id),
            beats: 0, since: Instant::now(), cpu: 0,
        })
        .collect();
    for w in ws.iter_mut() {
        spawn(w, &a, &dir);
    }
    let mut found: BTreeMap<u64, u64> = BTreeMap::new(); // run -> first run of that process
    let (mut deaths, mut deaths_other, mut blocked) = (0u64, 0u64, 0u64);
    let mut failed = None;
    let mut tick = 0u64;
    let note = |found: &mut BTreeMap<u64, u64>, i: u64, first: u64, ws: &[W]| {
        found.insert(i, first);
        let lim = *found.keys().next().unwrap() + 1;
        for w in ws {
            progress::poke(&w.prg, progress::LIMIT, lim);
        }
    };
    while ws.iter().any(|w| w.child.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        tick += 1;
        for k in 0..ws.len() {
            let w = &mut ws[k];
            let Some(ch) = w.child.as_mut() else { continue };
            let mut dead = None;
            if let Some(s) = ch.try_wait().expect("wait") {
                if s.success() {
                    w.child = None;
                    let o = std::fs::read_to_string(w.outs.last().unwrap()).unwrap_or_default();
                    let first = w.start;
                    if let Some(i) = word(&o, "viol").and_then(|x| x.parse().ok()) {
                        note(&mut found, i, first, &ws);
                    }
                    continue;
                }
                dead = Some(format!("{}", s));
            } else if tick % 50 == 0 {
                let at = progress::read(&w.prg);
                let (cpu, running) = cpu_of(ch.id());
                if at.beats != w.beats {
                    w.beats = at.beats;
                    w.since = Instant::now();
                    w.cpu = cpu;
                } else if cpu.saturating_sub(w.cpu) > 1500 || (w.since.elapsed() > Duration::from_secs(20) && !running && cpu.saturating_sub(w.cpu) < 20) {
                    // 15 s of processor time, or asleep for 20 s, within one step
                    let _ = ch.kill();
                    let _ = ch.wait();
                    dead = Some("no progress".into());
                }
            }
            if let Some(how) = dead {
                deaths += 1;
                w.child = None;
                w.outs.pop();
                let at = progress::read(&w.prg);
                if at.run == 0 || w.gen > 60 {
                    let e = std::fs::read_to_string(format!("{}/err.{}", dir, w.id)).unwrap_or_default();
                    if at.run == 0 {
                        failed = Some(format!("worker {} failed before its first run: {} {}", w.id, how, e.trim()));
                    }
                    continue;
                }
                let i = at.run - 1;
                eprintln!("run {} ({}) ended the process: {} in {:?}", i, profile_of(i), how, crate::prog::OPS.get(at.op as usize).map(|o| o.1));
                let f = format!("{}/death", dir);
                std::fs::write(&f, gen::program(prop, seed, i).to_text()).expect("write");
                let (o, _) = run_out(&w.bin, &["judge", &f], 400);
                let labels: u32 = word(&o, "LABELS").and_then(|x| x.parse().ok()).unwrap_or(0);
                let first = w.start;
                if labels & target != 0 {
                    note(&mut found, i, first, &ws);
                } else {
                    deaths_other += 1;
                    if prop == "C09" && blocked == 0 && found.is_empty() && matches!(word(&o, "DEATH"), Some("blocked" | "hang")) {
                        // callers wait for a caller suspended inside the library, which is legal: from now on they
                        // are suspended in caller code only
                        eprintln!("callers wait for each other inside the library: starting over without suspending them there");
                        blocked = 1;
                        gen::set_calm();
                        a.t0 = Instant::now();
                        for (id, w) in ws.iter_mut().enumerate() {
                            if let Some(mut c) = w.child.take() {
                                let _ = c.kill();
                                let _ = c.wait();
                            }
                            w.outs.clear();
                            w.start = id as u64;
                            spawn(w, &a, &dir);
                        }
                        break;
                    }
                    let w = &mut ws[k];
                    w.start = i + WORKERS;
                    let lim = found.keys().next().map_or(0, |i| i + 1);
                    if w.start < a.end && (lim == 0 || w.start < lim) {
                        spawn(w, &a, &dir);
                    }
                }
            }
        }
    }
    // merge
    let mut c = Counts::new();
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    let (mut states, mut hashes): (Vec<u64>, Vec<u64>) = (vec![], vec![]);
    let mut batch = 0u64;
    for o in ws.iter().flat_map(|w| &w.outs) {
        let s = std::fs::read_to_string(o).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "n" => *c.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "k" => {
                    kinds.insert(l[2..].into());
                }
                "batch" => batch = batch.wrapping_add(f[1].parse::<u64>().unwrap_or(0)),
                _ => {}
            }
        }
        for (ext, v) in [("states", &mut states), ("hashes", &mut hashes)] {
            let b = std::fs::read(format!("{}.{}", o, ext)).unwrap_or_default();
            v.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
        }
    }
    for v in [&mut states, &mut hashes] {
        v.sort_unstable();
        v.dedup();
    }
    let sim_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut reported = 0;
    if let Some(e) = failed {
        eprintln!("error: {}", e);
        code = 2;
    }
    let mut lost = vec![];
    for (&i, &first) in found.iter().take(3) {
        let name = format!("{}/{}-{}-{}.replay", replays, prop, seed, i);
        if let Some((path, msg)) = report(prop, seed, i, first, &dir, &replays, &name) {
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", prop, path);
            reported += 1;
            code = 1;
            break;
        }
        lost.push(i);
    }
    if reported == 0 && !lost.is_empty() {
        // seen in a simulated run but not again in any fresh process: report the run itself
        let i = lost[0];
        let _ = std::fs::create_dir_all(&replays);
        let path = format!("{}/{}-{}-{}.replay", replays, prop, seed, i);
        let head = format!("# property={} seed={} run={} profile={}\n# violated in the batch, not reproduced in a fresh process\n# expect ?\n", prop, seed, i, profile_of(i));
        std::fs::write(&path, head + &gen::program(prop, seed, i).to_text()).expect("write");
        println!("VIOLATION property={} replay={}", prop, path);
        reported += 1;
        code = 1;
    }
    let _ = std::fs::remove_dir_all(&dir);

    // evidence
    let n = |k: &str| c.get(k).copied().unwrap_or(0);
    let group = |p: &str| -> BTreeMap<String, u64> { c.iter().filter_map(|(k, v)| k.strip_prefix(p).map(|k| (k.to_string(), *v))).collect() };
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |x: u64| (x as f64 / sim_s * 3600.0) as u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in group("panic_in.") {
        faults.insert(format!("caller panic in {}", k), v);
    }
    for (k, v) in group("refused.") {
        faults.insert(format!("memory request refused ({})", k), v);
    }
    for (k, v) in [
        ("output sink error", n("sink_errors")), ("source with misleading promise", n("misleading_sources")),
        ("out-of-range request", n("out_of_range")), ("preemption at a machine instruction", n("single_step_preemptions")),
        ("switch at a seam", n("sched.switches")), ("stalled caller", n("sched.stalls")),
        ("operation on exhausted memory", n("deny_ops")), ("operation under a memory limit", n("budget_ops")),
    ] {
        faults.insert(k.into(), v);
    }
    faults.retain(|_, v| *v > 0);
    let rule = RULE.iter().find(|r| r.0 == prop).map_or("", |r| r.1);
    let samples: Vec<String> = [0, 1, 2]
        .iter()
        .map(|k| {
            let mut t = gen::program(prop, seed, *k).to_text();
            if t.len() > 4000 {
                let mut n = 4000;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            js(&t)
        })
        .collect();
    let interleavings = if n("multi_caller_runs") > 0 {
        format!("\"distinct_interleavings\": {}, \"interleaving_measure\": \"executions of multi-caller programs whose sequence of seam events, caller switches and results differs\", ", hashes.len())
    } else {
        String::new()
    };
    let ev = format!(
        "{{\n\"property\": {p},\n\"tier\": {tier},\n\"seed\": {seed},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
        \"evaluations\": {runs},\n\"distinct_nontrivial\": {dist},\n\"rule\": {rule},\n\"samples\": [{samples}],\n\
        \"simulated_runs\": {runs}, \"runs_per_hour\": {rph}, \"seeds_per_hour\": {rph}, \"run_seeds\": \"(seed, property, run number): one 64-bit seed per run\",\n\
        \"simulated_time\": {{\"unit\": \"logical time: seam events (the code reads no clock)\", \"events\": {events}, \"operations\": {steps}}},\n\
        \"distinct_states\": {states}, \"state_measure\": \"distinct (operation, contents of all vectors, sets and cursors of the caller) after a step\",\n{inter}\
        \"faults_injected\": {faults},\n\"operations_cut_short\": {{\"by_panic\": {cp}, \"by_refusal\": {cr}, \"retried_after_refusal\": {retry}}},\n\
        \"scheduler\": {sched},\n\"seam_crossings\": {seams},\n\"operations\": {ops},\n\"reached\": {reached},\n\
        \"instances\": {kinds}, \"of_instances\": {allkinds},\n\
        \"build_profiles\": [\"release\", \"release code with debug assertions and overflow checks\"],\n\
        \"runs_discarded\": {disc}, \"violations_of_other_properties_seen\": {foreign}, \"processes_ended_by_a_run\": {deaths}, \"of_which_not_this_property\": {dother}, \"of_which_callers_blocked_each_other\": {blocked},\n\
        \"executed_twice\": {rep}, \"executed_twice_with_a_difference\": {repd}, \"batch_fingerprint\": \"{batch:016x}\",\n\
        \"stopped_early_by_wall_clock\": {trunc}, \"single_step_preemption_available\": {ssw},\n\
        \"components\": {{\"real\": [\"enum_vec (all six storage variants)\", \"enum_like\", \"enum_like_derive (code it generated)\", \"enum_set2\", \"smallvec, bit-set and std collections below them\", \"caller threads\"], \
        \"simulated\": [\"allocator (arena with seeded contents, red zones, guard pages, refusals, limits)\", \"thread scheduler (one caller runs at a time; seeded choice at every seam and at chosen machine instructions)\", \"caller code: element conversions, closures, sources, hashers, sinks\"]}}\n\
        }},\n\"assumptions\": [\"the reference models (plain sequence, mathematical set) and the limits written in DESIGN.md\", \"one caller runs at a time: interleavings are sequentially consistent\"],\n\
        \"wall_s\": {wall:.2},\n\"violations\": {viol}\n}}\n",
        p = js(prop), tier = js(tier), runs = n("runs"), dist = hashes.len(),
        rule = js(&format!("seeded programs (history, faults, memory contents, schedule); distinct: the sequence of seam events and results differs; non-trivial: {}", rule)),
        samples = samples.join(", "), rph = per_h(n("runs")), events = n("events"), steps = n("steps"), states = states.len(), inter = interleavings,
        faults = jmap(&faults), cp = n("cut.panic"), cr = n("cut.refused"), retry = n("retries"), sched = jmap(&group("sched.")),
        seams = jmap(&group("seam.")), ops = jmap(&group("op.")), reached = jmap(&group("reached.")), kinds = kinds.len(),
        allkinds = crate::kinds::kinds().len() + crate::kinds::slim().len(), disc = n("discarded"), foreign = n("other_property_violations"), dother = deaths_other,
        rep = n("repeated"), repd = n("repeated_differently"), trunc = n("truncated") > 0, ssw = n("single_step_works") > 0, viol = reported,
    );
    let evd = format!("{}/evidence", base);
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(format!("{}/{}.json", evd, prop), ev) {
        eprintln!("evidence: {}", e);
        return if code == 1 { 1 } else { 2 };
    }
    let _ = std::io::stdout().flush();
    println!(
        "{} {} seed={} runs={} distinct={} states={} events={} fingerprint={:016x} wall={:.1}s {}",
        prop, tier, seed, n("runs"), hashes.len(), states.len(), n("events"), batch, wall,
        if code == 0 { "held" } else { "" }
    );
    if n("other_property_violations") > 0 || deaths_other > 0 {
        println!("(violations of other properties were seen: run their checks)");
    }
    code
}
