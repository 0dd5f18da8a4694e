//! Deterministic simulation of enum_vec / enum_set: seeded histories, faults, memory contents and schedules.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
mod batch;
mod exec;
mod gen;
mod kinds;
mod run;
mod shrink;
use sim_core::{alloc, ends, preempt, prog, progress, rng, sched, seam, setobj, vecobj};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

pub fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn main() {
    alloc::init();
    seam::install();
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let n = |i: usize| -> u64 { s.get(i).and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("argument {}", i)) };
    let code = match s.get(1).copied().unwrap_or("") {
        "check" => batch::check(s[2], s[3], n(4), s[5]),
        "work" => {
            pin();
            preempt::install();
            batch::work(s[2], n(3), n(4), n(5), n(6), s[7], s[8], n(9))
        }
        "one" => {
            pin();
            preempt::install();
            shrink::one(s[2], s.get(3).copied())
        }
        "shrink" => {
            pin();
            preempt::install();
            shrink::shrink(s[2], s[3], n(4))
        }
        "judge" => {
            pin();
            preempt::install();
            shrink::judge_cmd(s[2])
        }
        "replay" => batch::replay(s[2]),
        "gen" => {
            print!("{}", gen::program(s[2], n(3), n(4)).to_text());
            0
        }
        "list" => {
            for k in kinds::kinds() {
                println!("{} values={} per_block={} scripted={}", k.name(), k.card(), k.epb(), k.scripted());
            }
            for k in kinds::sets() {
                println!("{} values={}", k.name(), k.card());
            }
            0
        }
        _ => {
            eprintln!("usage: enum_vec_sim check|work|one|shrink|replay|gen|list ...");
            2
        }
    };
    std::process::exit(code);
}

extern "C" {
    fn personality(p: u64) -> i32;
}
/// Same addresses in every execution: re-execute without address space randomisation.
fn pin() {
    if std::env::var_os("SIM_PINNED").is_some() {
        return;
    }
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 && p & 0x0040000 == 0 && personality(p as u64 | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_PINNED", "1").exec();
            eprintln!("exec: {}", e);
        }
    }
}
