//! Deterministic simulator core: scheduler, memory, file system and system-call seams.
//!
//! The code under test is compiled with thread-sanitizer instrumentation and linked against the
//! `__tsan_*` functions of this crate; the libc functions it uses for files, threads, futexes, time and
//! randomness are defined in `hooks`. Only one simulated thread runs at a time.
#![feature(thread_local)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod arena;
pub mod hooks;
pub mod json;
pub mod race;
pub mod raw;
pub mod rng;
pub mod sched;
pub mod spec;
pub mod tsan;
pub mod vfs;

use std::collections::BTreeMap;

#[thread_local]
pub static mut RT: u32 = 0;

/// True in the simulator's own code and in threads that are not part of the simulation.
#[inline(always)]
pub fn in_rt() -> bool {
    unsafe { RT != 0 || sched::TID < 0 }
}
pub struct RtGuard;
impl RtGuard {
    #[inline(always)]
    pub fn new() -> RtGuard {
        unsafe { RT += 1 };
        RtGuard
    }
}
impl Drop for RtGuard {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { RT -= 1 };
    }
}
struct EnterGuard(u32);
impl Drop for EnterGuard {
    fn drop(&mut self) {
        unsafe { RT = self.0 };
    }
}
/// Run code under test (instrumented, arena-allocated, scheduled).
#[inline(never)]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _g = unsafe {
        let g = EnterGuard(RT);
        RT = 0;
        g
    };
    f()
}
/// Run harness code called back from the code under test.
pub fn rt<R>(f: impl FnOnce() -> R) -> R {
    let _g = RtGuard::new();
    f()
}

/// Serialised outcome of a run: written once, then the process ends.
pub static mut FINISH: Option<fn(Option<(&str, &str)>) -> !> = None;

pub fn violation(class: &str, msg: &str) -> ! {
    let _g = RtGuard::new();
    unsafe {
        RT += 1;
        match FINISH {
            Some(f) => f(Some((class, msg))),
            None => harness_error("violation outside a run"),
        }
    }
}
/// A memory error found inside the code under test.
pub fn memory_violation(class: &str, msg: &str) -> ! {
    let _g = RtGuard::new();
    let tid = sched::cur_tid();
    let ctx = if tid >= 0 { sched::describe(tid) } else { String::new() };
    violation(class, &format!("{} ({})", msg, ctx))
}
pub fn harness_error(msg: &str) -> ! {
    raw::write_str(2, "HARNESS-ERROR: ");
    raw::write_str(2, msg);
    raw::write_str(2, "\n");
    raw::exit(70)
}

/// Reach probes: how often rare conditions occurred.
pub static mut PROBES: BTreeMap<&'static str, u64> = BTreeMap::new();
pub fn probe(name: &'static str) {
    let _g = RtGuard::new();
    unsafe { *PROBES.entry(name).or_insert(0) += 1 }
}
pub fn probe_n(name: &'static str, n: u64) {
    let _g = RtGuard::new();
    unsafe { *PROBES.entry(name).or_insert(0) += n }
}
/// Rolling hash of everything observable in the run (schedule, I/O, results): the event log's digest.
pub static mut TRACE: u64 = 0;
#[inline]
pub fn trace(x: u64) {
    unsafe { TRACE = rng::hash2(TRACE, x) }
}
/// Optional textual event log (replay with `-v`).
pub static mut LOG: Option<Vec<String>> = None;
pub fn log(f: impl FnOnce() -> String) {
    unsafe {
        if LOG.is_some() {
            let _g = RtGuard::new();
            let s = f();
            LOG.as_mut().unwrap().push(s);
        }
    }
}

/// Set up the simulated world for one run (in the run's own process).
pub unsafe fn init_run(spec: &spec::Spec) {
    hooks::init();
    arena::init();
    race::init(spec.c("race") != 0);
    sched::init(spec.seed);
    vfs::init(spec.seed);
    let s = &mut *std::ptr::addr_of_mut!(sched::S);
    let c = |k: &str| spec.c(k);
    s.policy = match c("policy") {
        1 => sched::Policy::Burst { max: c("burst").max(1) as u64 },
        2 => sched::Policy::Pct { q: c("pct_q").max(1) as u64 },
        _ => sched::Policy::Coarse,
    };
    if c("limit") > 0 {
        s.limit = c("limit") as u64;
    }
    tsan::ACCESS_LIMIT = if c("access_limit") > 0 { c("access_limit") as u64 } else { 400_000_000 };
    s.stall_den = c("stall_den") as u64;
    s.stall_max = c("stall_max") as u32;
    if c("io_den") > 0 {
        s.io_rate = (1, c("io_den") as u64);
    }
    if c("io_classes") != 0 {
        s.io_classes = c("io_classes") as u64;
    }
    s.burst_max = c("io_burst").max(1) as u32;
    for k in 1..=9u32 {
        if c("io_kinds") & (1 << k) != 0 {
            s.io_kinds.push(k);
        }
    }
    if c("panic_den") > 0 {
        s.panic_rate = (1, c("panic_den") as u64);
    }
    let v = &mut *std::ptr::addr_of_mut!(vfs::V);
    v.snap_max = c("snap_max") as usize;
    v.torn = c("torn") != 0;
    v.sparse = c("sparse") != 0;
    if let Some(p) = &spec.plan {
        s.explicit = Some(p.switches.iter().map(|x| ((x.key, x.op, x.step), x.to)).collect());
        s.efaults = Some(p.faults.iter().map(|f| ((f.key, f.op, f.n, f.kind), f.arg)).collect());
        if let Some(k) = p.crash.first() {
            v.snap_only = Some(*k);
        }
    }
}

/// The kill points on the path of the execution being verified (reported with a violation).
pub static mut KILLS: Vec<spec::Crash> = Vec::new();
/// Log of client operations and results, for samples and reports.
pub static mut HISTORY: Vec<String> = Vec::new();
pub fn hist(f: impl FnOnce() -> String) {
    unsafe {
        let _g = RtGuard::new();
        if HISTORY.len() < 4000 {
            let s = f();
            log(|| format!("   {}", s));
            HISTORY.push(s);
        }
    }
}
