//! Scenarios: workloads, oracles and fault models, one per property.
#![allow(static_mut_refs)]
pub mod bp;
pub mod lsm;
pub mod mem;
pub mod stack;
pub mod tracked;

use simrt::rng::Rng;
use simrt::spec::{Op, Spec};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const IDS: &[&str] = &["B01", "B02", "B03", "B04", "F01", "L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "M01", "S01", "S02", "S03", "S04"];
pub static mut LAST_PANIC: Option<String> = None;

pub struct Info {
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: Vec<&'static str>,
}
const REAL: &str = "extended_collections, crossbeam-epoch and crossbeam-utils (instrumented), std, bincode, serde, rand, probabilistic-collections (all compiled code, unmodified)";
const STUB: &str = "operating system: thread scheduling, futex, file system, clock, randomness; heap allocator";

pub fn info(id: &str) -> Info {
    match id.as_bytes()[0] {
        b'S' => stack::info(id),
        b'L' => lsm::info(id),
        b'B' | b'F' => bp::info(id),
        b'M' => mem::info(id),
        _ => unreachable!(),
    }
}
pub fn gen(s: &mut Spec, r: &mut Rng, thorough: bool, i: u64) {
    match s.prop.as_bytes()[0] {
        b'S' => stack::gen(s, r, thorough, i),
        b'L' => lsm::gen(s, r, thorough, i),
        b'F' => {
            let lsm = r.below(2);
            s.cfg.insert("lsm".into(), lsm as i64);
            if lsm == 1 {
                lsm::gen(s, r, thorough, i)
            } else {
                bp::gen(s, r, thorough, i)
            }
        }
        b'B' => bp::gen(s, r, thorough, i),
        b'M' => mem::gen(s, r, thorough, i),
        _ => unreachable!(),
    }
}
pub fn run(s: &Spec) {
    match s.prop.as_bytes()[0] {
        b'S' => stack::run(s),
        b'L' => lsm::run(s),
        b'F' if s.c("lsm") != 0 => lsm::run(s),
        b'B' | b'F' => bp::run(s),
        b'M' => mem::run(s),
        _ => unreachable!(),
    }
}

pub fn op(id: u32, thr: u8, name: &str, a: i64, b: i64) -> Op {
    Op { id, thr, name: name.to_string(), a, b }
}
/// Schedule policy of a run, drawn per run.
pub fn gen_policy(s: &mut Spec, r: &mut Rng) {
    match r.below(10) {
        0 => {
            s.cfg.insert("policy".into(), 0);
        }
        1..=6 => {
            s.cfg.insert("policy".into(), 1);
            s.cfg.insert("burst".into(), *r.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 256, 1024]));
        }
        _ => {
            s.cfg.insert("policy".into(), 2);
            s.cfg.insert("pct_q".into(), *r.pick(&[4, 8, 16, 32, 64, 128, 256]));
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Err(String),
    Panic(String),
}
/// Call into the code under test, catching panics.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(|| simrt::sut(f))) {
        Ok(r) => Ok(r),
        Err(e) => {
            let injected = e.is::<tracked::Injected>();
            // the payload may live in the arena
            simrt::sut(|| drop(e));
            if injected {
                return Err("injected".into());
            }
            let m = unsafe { LAST_PANIC.take() }.unwrap_or_else(|| "panic".into());
            Err(m)
        }
    }
}
pub fn strip(m: &str) -> String {
    // drop absolute paths of the toolchain from panic messages
    m.replace("/repo/", "")
}
