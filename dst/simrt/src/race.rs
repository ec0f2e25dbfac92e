//! Happens-before race detection (vector clocks) over arena addresses.
use crate::{arena, sched};
use std::collections::HashMap;

pub const MAXT: usize = 16;
const CELLS: usize = 0x1200_0000_0000;
const CELL: usize = 128;

pub static mut ON: bool = false;
type Vc = [u32; MAXT];
#[derive(Clone, Copy)]
struct ThVc {
    vc: Vc,
    rel_fence: Vc,
    has_rel: bool,
    acq_pend: Vc,
}
const Z: ThVc = ThVc { vc: [0; MAXT], rel_fence: [0; MAXT], has_rel: false, acq_pend: [0; MAXT] };
static mut TH: [ThVc; MAXT] = [Z; MAXT];
struct Loc {
    val: u64,
    rel: Vc,
}
static mut LOCS: Option<HashMap<usize, Loc>> = None;
pub static mut SYNCS: u64 = 0;

#[repr(C)]
struct Cell {
    w_tid: u8,
    w_mask: u8,
    _p: [u8; 2],
    w_clk: u32,
    r_mask: [u8; MAXT],
    r_clk: [u32; MAXT],
}

pub unsafe fn init(on: bool) {
    if on {
        crate::raw::mmap_fixed(CELLS, arena::SIZE / 8 * CELL);
        LOCS = Some(HashMap::new());
    }
    ON = on;
}
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}
#[inline]
fn me() -> usize {
    let t = sched::cur_tid();
    if t as usize >= MAXT {
        crate::harness_error("race detector: too many threads");
    }
    t as usize
}
pub unsafe fn thread_start(parent: i32, child: usize) {
    if !ON {
        return;
    }
    if child >= MAXT {
        crate::harness_error("race detector: too many threads");
    }
    TH[child] = Z;
    if parent >= 0 {
        let p = TH[parent as usize].vc;
        TH[child].vc = p;
        TH[parent as usize].vc[parent as usize] += 1;
    }
    TH[child].vc[child] += 1;
}
/// the caller learns everything `other` has done so far
pub unsafe fn sync_from(other: usize) {
    if !ON {
        return;
    }
    let m = me();
    let o = TH[other].vc;
    join(&mut TH[m].vc, &o);
    TH[other].vc[other] += 1;
}
unsafe fn full_sync(m: usize) {
    for i in 0..MAXT {
        if i != m {
            let o = TH[i].vc;
            join(&mut TH[m].vc, &o);
            TH[i].vc[i] += 1;
        }
    }
    SYNCS += 1;
}
unsafe fn loc(addr: usize, val: u64, m: usize) -> &'static mut Loc {
    let l = LOCS.as_mut().unwrap();
    let e = l.entry(addr).or_insert(Loc { val, rel: [0; MAXT] });
    if e.val != val {
        // written by code outside the instrumentation (pre-built std): assume it synchronised
        full_sync(m);
        e.val = val;
        e.rel = TH[m].vc;
    }
    e
}
pub unsafe fn atomic_load(addr: usize, val: u64, acq: bool) {
    let m = me();
    let rel = loc(addr, val, m).rel;
    if acq {
        join(&mut TH[m].vc, &rel);
    } else {
        join(&mut TH[m].acq_pend, &rel);
    }
}
pub unsafe fn atomic_store(addr: usize, val: u64, rel: bool) {
    let m = me();
    let l = LOCS.as_mut().unwrap().entry(addr).or_insert(Loc { val, rel: [0; MAXT] });
    l.val = val;
    l.rel = if rel {
        TH[m].vc
    } else if TH[m].has_rel {
        TH[m].rel_fence
    } else {
        [0; MAXT]
    };
    if rel {
        TH[m].vc[m] += 1;
    }
}
pub unsafe fn atomic_rmw(addr: usize, old: u64, new: u64, acq: bool, rel: bool) {
    let m = me();
    let r = loc(addr, old, m).rel;
    if acq {
        join(&mut TH[m].vc, &r);
    } else {
        join(&mut TH[m].acq_pend, &r);
    }
    let l = LOCS.as_mut().unwrap().get_mut(&addr).unwrap();
    l.val = new;
    // continues the release sequence
    if rel {
        let v = TH[m].vc;
        join(&mut l.rel, &v);
        TH[m].vc[m] += 1;
    } else if TH[m].has_rel {
        let v = TH[m].rel_fence;
        join(&mut l.rel, &v);
    }
}
pub unsafe fn fence(acq: bool, rel: bool) {
    let m = me();
    if acq {
        let p = TH[m].acq_pend;
        join(&mut TH[m].vc, &p);
    }
    if rel {
        TH[m].rel_fence = TH[m].vc;
        TH[m].has_rel = true;
        TH[m].vc[m] += 1;
    }
}
#[inline]
unsafe fn cell(addr: usize) -> &'static mut Cell {
    &mut *((CELLS + (addr - arena::BASE) / 8 * CELL) as *mut Cell)
}
pub unsafe fn access(addr: usize, len: usize, write: bool) {
    let m = me();
    let vc = &TH[m].vc;
    let mut a = addr;
    let end = addr + len;
    while a < end {
        let off = a & 7;
        let take = std::cmp::min(8 - off, end - a);
        let mask = (((1u32 << take) - 1) << off) as u8;
        let c = cell(a);
        if c.w_clk != 0 && c.w_mask & mask != 0 && c.w_tid as usize != m && c.w_clk > vc[c.w_tid as usize] {
            race(m, c.w_tid as usize, write, true);
        }
        if write {
            for t in 0..MAXT {
                if t != m && c.r_clk[t] > vc[t] && c.r_mask[t] & mask != 0 {
                    race(m, t, true, false);
                }
            }
            c.w_tid = m as u8;
            c.w_clk = vc[m];
            c.w_mask = mask;
        } else {
            c.r_clk[m] = vc[m];
            c.r_mask[m] = mask;
        }
        a += take;
    }
}
#[cold]
fn race(a: usize, b: usize, aw: bool, bw: bool) -> ! {
    let n = |w| if w { "write" } else { "read" };
    crate::violation(
        "data-race",
        &format!(
            "{} by thread {} not ordered with earlier {} by thread {} of the same heap memory",
            n(aw),
            sched::describe(a as i32),
            n(bw),
            sched::describe(b as i32)
        ),
    )
}
pub unsafe fn on_alloc(addr: usize, size: usize) {
    if !ON {
        return;
    }
    let n = (size + 7) / 8;
    std::ptr::write_bytes(cell(addr) as *mut Cell as *mut u8, 0, n * CELL);
    if let Some(l) = LOCS.as_mut() {
        let _g = crate::RtGuard::new();
        if n < 64 {
            for i in 0..n * 8 {
                l.remove(&(addr + i));
            }
        } else {
            l.retain(|k, _| *k < addr || *k >= addr + size);
        }
    }
}
/// freeing counts as a write of the whole block
pub unsafe fn on_free(addr: usize, size: usize) {
    if ON && !crate::in_rt() && size > 0 {
        let _g = crate::RtGuard::new();
        access(addr, size, true);
    }
}
