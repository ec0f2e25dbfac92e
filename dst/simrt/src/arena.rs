//! Allocator used by the code under test inside a simulated run: fixed addresses, red zones, no early
//! reuse, shadow state per byte range, so that double frees, invalid frees, leaks, use after free and
//! overflows are detected deterministically.
use crate::{in_rt, raw};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 2 << 30;
pub const SHADOW: usize = 0x1100_0000_0000;
const MAGIC_LIVE: u64 = 0xA11C_0DE5_11FE_0001;
const MAGIC_FREE: u64 = 0xDEAD_0DE5_F4EE_0002;
const HDR: usize = 32;
const TAIL: usize = 16;
pub const FREED: u8 = 0xF0;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    /// address of the start of the raw block and its rounded size (0: never reused)
    raw: usize,
    class: u32,
    tid: u32,
}

pub struct Arena {
    pub on: bool,
    next: usize,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub allocs: u64,
    /// count of live blocks whose size lies in this range
    pub watch: (usize, usize),
    pub watched: i64,
    /// FIFO of freed big blocks per power-of-two class
    fifo_head: [usize; 40],
    fifo_tail: [usize; 40],
    fifo_len: [u32; 40],
}
pub static mut ARENA: Arena = Arena {
    on: false,
    next: BASE,
    live_blocks: 0,
    live_bytes: 0,
    allocs: 0,
    watch: (1, 0),
    watched: 0,
    fifo_head: [0; 40],
    fifo_tail: [0; 40],
    fifo_len: [0; 40],
};

/// Called in the run's process before the simulation starts.
pub unsafe fn init() {
    raw::mmap_fixed(BASE, SIZE);
    raw::mmap_fixed(SHADOW, SIZE / 8);
    ARENA.on = true;
}
#[inline(always)]
pub fn contains(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

unsafe fn set_shadow(user: usize, size: usize, freed: bool) {
    let s = (SHADOW + (user - BASE) / 8) as *mut u8;
    let full = size / 8;
    if freed {
        std::ptr::write_bytes(s, FREED, (size + 7) / 8);
    } else {
        std::ptr::write_bytes(s, 8, full);
        if size % 8 != 0 {
            *s.add(full) = (size % 8) as u8;
        }
    }
}

/// Validity of an access; None if fine.
#[inline]
pub unsafe fn check(addr: usize, len: usize) -> Option<&'static str> {
    let mut a = addr;
    let end = addr + len;
    while a < end {
        let s = *((SHADOW + (a - BASE) / 8) as *const u8);
        let off = a & 7;
        let take = std::cmp::min(8 - off, end - a);
        if s != 8 {
            if s == FREED {
                return Some("use-after-free");
            }
            if off + take > s as usize {
                return Some("out-of-bounds");
            }
        }
        a += take;
    }
    None
}

unsafe fn alloc_in(layout: Layout) -> *mut u8 {
    let a = &mut *std::ptr::addr_of_mut!(ARENA);
    let align = std::cmp::max(16, layout.align());
    let size = layout.size();
    if size > 1 << 30 {
        return std::ptr::null_mut();
    }
    let need = HDR + size + TAIL + if align > 16 { align } else { 0 };
    let mut class = 0u32;
    let rawp;
    if need > 1024 && align == 16 {
        class = usize::BITS - (need - 1).leading_zeros();
        let c = class as usize;
        if a.fifo_len[c] > 24 {
            rawp = a.fifo_head[c];
            a.fifo_head[c] = *(rawp as *const usize);
            a.fifo_len[c] -= 1;
        } else {
            rawp = a.next;
            a.next += 1 << class;
        }
    } else {
        rawp = a.next;
        a.next += (need + 15) & !15;
    }
    if a.next > BASE + SIZE {
        crate::violation("memory-exhausted", "more than 2 GB allocated in one run");
    }
    let user = (rawp + HDR + align - 1) & !(align - 1);
    let h = (user - HDR) as *mut Hdr;
    if class != 0 {
        // reset stale shadow of the whole block
        let s = (SHADOW + (rawp - BASE) / 8) as *mut u8;
        std::ptr::write_bytes(s, 0, (1usize << class) / 8);
    }
    (*h).magic = MAGIC_LIVE;
    (*h).size = size;
    (*h).raw = rawp;
    (*h).class = class;
    (*h).tid = crate::sched::cur_tid() as u32;
    set_shadow(user, size, false);
    crate::race::on_alloc(user, size);
    a.live_blocks += 1;
    a.live_bytes += size as i64;
    a.allocs += 1;
    if size >= a.watch.0 && size <= a.watch.1 {
        a.watched += 1;
    }
    user as *mut u8
}

unsafe fn dealloc_in(p: *mut u8) {
    let a = &mut *std::ptr::addr_of_mut!(ARENA);
    let user = p as usize;
    let h = (user - HDR) as *mut Hdr;
    if !contains(h as usize) || (*h).magic != MAGIC_LIVE {
        let dbl = contains(h as usize) && (*h).magic == MAGIC_FREE;
        if std::thread::panicking() {
            // keep the report even when found while unwinding
        }
        crate::memory_violation(
            if dbl { "double-free" } else { "invalid-free" },
            "heap block freed twice or never allocated",
        );
    }
    (*h).magic = MAGIC_FREE;
    let size = (*h).size;
    crate::race::on_free(user, size);
    set_shadow(user, size, true);
    if size > 0 && size <= 512 {
        // poison small blocks so that uninstrumented readers misbehave deterministically
        std::ptr::write_bytes(p, 0xDD, size);
    }
    a.live_blocks -= 1;
    a.live_bytes -= size as i64;
    if size >= a.watch.0 && size <= a.watch.1 {
        a.watched -= 1;
    }
    let c = (*h).class as usize;
    if c != 0 {
        let r = (*h).raw;
        if a.fifo_len[c] == 0 {
            a.fifo_head[c] = r;
        } else {
            *(a.fifo_tail[c] as *mut usize) = r;
        }
        // header occupies raw..raw+32: the link overlays the magic word only when reused
        a.fifo_tail[c] = r;
        a.fifo_len[c] += 1;
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ARENA.on && !in_rt() {
            alloc_in(layout)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if contains(p as usize) {
            dealloc_in(p)
        } else {
            System.dealloc(p, layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ARENA.on && !in_rt() {
            let p = alloc_in(layout);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, layout.size());
            }
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        if contains(p as usize) || (ARENA.on && !in_rt()) {
            let nl = Layout::from_size_align_unchecked(new, layout.align());
            let n = self.alloc(nl);
            if n.is_null() {
                return n;
            }
            std::ptr::copy_nonoverlapping(p, n, std::cmp::min(layout.size(), new));
            self.dealloc(p, layout);
            n
        } else {
            System.realloc(p, layout, new)
        }
    }
}
