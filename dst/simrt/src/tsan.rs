//! The runtime interface that instrumented code calls.
use crate::{arena, in_rt, race, sched, RtGuard};
use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

pub static mut ACCESSES: u64 = 0;
pub static mut ACCESS_LIMIT: u64 = u64::MAX;
/// accesses since the running thread last reached a scheduling point
pub static mut CHECK_MEM: bool = true;

#[cold]
#[inline(never)]
fn bad(addr: usize, len: usize, write: bool, what: &str) -> ! {
    let _g = RtGuard::new();
    crate::memory_violation(
        what,
        &format!("{} of {} bytes in a heap block", if write { "write" } else { "read" }, len.min(1 << 20)),
    );
    #[allow(unreachable_code)]
    {
        let _ = addr;
        loop {}
    }
}
#[inline(always)]
unsafe fn access(addr: usize, len: usize, write: bool) {
    if in_rt() {
        return;
    }
    ACCESSES += 1;
    if ACCESSES > ACCESS_LIMIT {
        crate::violation("no-progress", "memory-access budget of the run exceeded: the operation does not terminate");
    }
    if arena::contains(addr) && CHECK_MEM {
        if let Some(w) = arena::check(addr, len) {
            bad(addr, len, write, w);
        }
        if race::ON {
            race::access(addr, len, write);
        }
    }
}
#[inline(always)]
unsafe fn atomic_access(addr: usize, len: usize) {
    if arena::contains(addr) && CHECK_MEM {
        if let Some(w) = arena::check(addr, len) {
            bad(addr, len, true, w);
        }
    }
}

macro_rules! rw {
    ($($r:ident $ur:ident $w:ident $uw:ident $n:expr;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { access(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $ur(a: usize) { access(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { access(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $uw(a: usize) { access(a, $n, true) }
    )*};
}
rw! {
    __tsan_read1 __tsan_unaligned_read1 __tsan_write1 __tsan_unaligned_write1 1;
    __tsan_read2 __tsan_unaligned_read2 __tsan_write2 __tsan_unaligned_write2 2;
    __tsan_read4 __tsan_unaligned_read4 __tsan_write4 __tsan_unaligned_write4 4;
    __tsan_read8 __tsan_unaligned_read8 __tsan_write8 __tsan_unaligned_write8 8;
    __tsan_read16 __tsan_unaligned_read16 __tsan_write16 __tsan_unaligned_write16 16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: usize) {
    if in_rt() {
        return;
    }
    ACCESSES += 1;
    if ACCESSES > ACCESS_LIMIT {
        crate::violation("no-progress", "memory-access budget of the run exceeded: the operation does not terminate");
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, false)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, true)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_a: usize, _b: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(_a: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        access(s as usize, n, false);
        access(d as usize, n, true);
    }
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n > 0 {
        access(d as usize, n, true);
    }
    std::ptr::write_bytes(d, c as u8, n);
    d
}

// memory orders as passed by the instrumentation: relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
#[inline(always)]
fn is_acq(mo: i32) -> bool {
    mo == 1 || mo == 2 || mo >= 4
}
#[inline(always)]
fn is_rel(mo: i32) -> bool {
    mo >= 3
}

macro_rules! atomics {
    ($at:ty, $ty:ty, $n:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $ty, mo: i32) -> $ty {
            let a = &*(p as *const $at);
            if in_rt() {
                return a.load(SeqCst);
            }
            sched::point(sched::K_ATOMIC);
            atomic_access(p as usize, $n);
            let v = a.load(SeqCst);
            if race::ON {
                race::atomic_load(p as usize, v as u64, is_acq(mo));
            }
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $ty, v: $ty, mo: i32) {
            let a = &*(p as *const $at);
            if in_rt() {
                return a.store(v, SeqCst);
            }
            sched::point(sched::K_ATOMIC);
            atomic_access(p as usize, $n);
            if race::ON {
                race::atomic_store(p as usize, v as u64, is_rel(mo));
            }
            a.store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $ty, expect: $ty, v: $ty, mo: i32, fmo: i32) -> $ty {
            let a = &*(p as *const $at);
            let rt = in_rt();
            if !rt {
                sched::point(sched::K_CAS);
                atomic_access(p as usize, $n);
            }
            match a.compare_exchange(expect, v, SeqCst, SeqCst) {
                Ok(o) => {
                    if !rt && race::ON {
                        race::atomic_rmw(p as usize, o as u64, v as u64, is_acq(mo), is_rel(mo));
                    }
                    o
                }
                Err(o) => {
                    if !rt {
                        sched::S.cas_fail += 1;
                        if race::ON {
                            race::atomic_load(p as usize, o as u64, is_acq(fmo));
                        }
                    }
                    o
                }
            }
        }
        atomics!(@rmw $at, $ty, $n, $xchg, |_o: $ty, v: $ty| v);
        atomics!(@rmw $at, $ty, $n, $add, |o: $ty, v: $ty| o.wrapping_add(v));
        atomics!(@rmw $at, $ty, $n, $sub, |o: $ty, v: $ty| o.wrapping_sub(v));
        atomics!(@rmw $at, $ty, $n, $and, |o: $ty, v: $ty| o & v);
        atomics!(@rmw $at, $ty, $n, $or, |o: $ty, v: $ty| o | v);
        atomics!(@rmw $at, $ty, $n, $xor, |o: $ty, v: $ty| o ^ v);
        atomics!(@rmw $at, $ty, $n, $nand, |o: $ty, v: $ty| !(o & v));
    };
    (@rmw $at:ty, $ty:ty, $n:expr, $f:ident, $op:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: *mut $ty, v: $ty, mo: i32) -> $ty {
            let a = &*(p as *const $at);
            let rt = in_rt();
            if !rt {
                sched::point(sched::K_ATOMIC);
                atomic_access(p as usize, $n);
            }
            let mut o = a.load(SeqCst);
            loop {
                let nv = $op(o, v);
                match a.compare_exchange(o, nv, SeqCst, SeqCst) {
                    Ok(_) => {
                        if !rt && race::ON {
                            race::atomic_rmw(p as usize, o as u64, nv as u64, is_acq(mo), is_rel(mo));
                        }
                        return o;
                    }
                    Err(x) => o = x,
                }
            }
        }
    };
}
atomics!(AtomicU8, u8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(AtomicU16, u16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(AtomicU32, u32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(AtomicU64, u64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if !in_rt() {
        sched::point(sched::K_ATOMIC);
        if race::ON {
            race::fence(is_acq(mo), is_rel(mo));
        }
    }
    fence(SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
