//! Direct system calls (never intercepted) and a few libc declarations.
use std::arch::asm;

#[inline]
pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub const SYS_READ: usize = 0;
pub const SYS_WRITE: usize = 1;
pub const SYS_MMAP: usize = 9;
pub const SYS_FUTEX: usize = 202;
pub const SYS_SCHED_SETAFFINITY: usize = 203;
pub const SYS_EXIT_GROUP: usize = 231;
pub const SYS_GETRANDOM: usize = 318;
pub const SYS_CLOCK_GETTIME: usize = 228;

extern "C" {
    pub fn dlsym(handle: *mut u8, name: *const i8) -> *mut u8;
    pub fn __errno_location() -> *mut i32;
}
pub const RTLD_NEXT: *mut u8 = -1isize as *mut u8;

pub unsafe fn mmap_fixed(addr: usize, len: usize) {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let r = sys(SYS_MMAP, addr, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0);
    if r != addr as isize {
        write_str(2, "simrt: mmap_fixed failed\n");
        exit(70);
    }
}
/// Anonymous shared mapping (survives fork).
pub unsafe fn mmap_shared(len: usize) -> *mut u8 {
    let r = sys(SYS_MMAP, 0, len, 3, 0x1 | 0x20 | 0x4000, usize::MAX, 0);
    if r < 0 && r > -4096 {
        write_str(2, "simrt: mmap_shared failed\n");
        exit(70);
    }
    r as *mut u8
}
pub fn write_str(fd: usize, s: &str) {
    unsafe {
        sys(SYS_WRITE, fd, s.as_ptr() as usize, s.len(), 0, 0, 0);
    }
}
pub fn exit(code: i32) -> ! {
    unsafe {
        sys(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub unsafe fn futex_wait(w: *const u32, val: u32) {
    sys(SYS_FUTEX, w as usize, 128, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(w: *const u32, n: u32) {
    sys(SYS_FUTEX, w as usize, 129, n as usize, 0, 0, 0);
}
pub fn pin_to_cpu(cpu: usize) {
    let mut set = [0u64; 16];
    set[(cpu / 64) & 15] |= 1 << (cpu % 64);
    unsafe {
        sys(SYS_SCHED_SETAFFINITY, 0, 128, set.as_ptr() as usize, 0, 0, 0);
    }
}
pub fn now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        sys(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}
