//! Definitions of the libc functions the code under test uses: inside the simulation they act on the
//! simulated world, otherwise they pass through to the kernel.
use crate::raw::{self, sys};
use crate::vfs::{self, fail, FD0};
use crate::{in_rt, sched, RtGuard};
use std::ffi::CStr;

type PtCreate = unsafe extern "C" fn(
    *mut usize,
    *const u8,
    unsafe extern "C" fn(*mut u8) -> *mut u8,
    *mut u8,
) -> i32;
unsafe fn next(name: &'static [u8]) -> *mut u8 {
    raw::dlsym(raw::RTLD_NEXT, name.as_ptr() as *const i8)
}
static mut REAL: [usize; 8] = [0; 8];
/// Resolve the real functions once, before anything is simulated.
pub unsafe fn init() {
    let names: [&'static [u8]; 8] = [
        b"pthread_create\0",
        b"pthread_join\0",
        b"opendir\0",
        b"fdopendir\0",
        b"readdir64\0",
        b"closedir\0",
        b"dirfd\0",
        b"realpath\0",
    ];
    for (i, n) in names.iter().enumerate() {
        REAL[i] = next(n) as usize;
        if REAL[i] == 0 {
            crate::harness_error("dlsym failed");
        }
    }
}
unsafe fn real(i: usize) -> usize {
    if REAL[i] == 0 {
        init();
    }
    REAL[i]
}
pub unsafe fn real_pthread_create() -> PtCreate {
    std::mem::transmute(real(0))
}

#[inline(always)]
fn active() -> bool {
    !in_rt() && unsafe { sched::S.on }
}
unsafe fn sim(path: *const i8) -> Option<&'static str> {
    if path.is_null() {
        return None;
    }
    let s = CStr::from_ptr(path).to_str().ok()?;
    vfs::sim_path(s).map(|_| s)
}
unsafe fn cpath(path: *const i8) -> &'static str {
    CStr::from_ptr(path).to_str().unwrap_or("")
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        fail(-r as i32, -1)
    } else {
        r
    }
}
macro_rules! out {
    ($e:expr) => {{
        let _g = RtGuard::new();
        match $e {
            Ok(v) => v as _,
            Err(e) => fail(e, -1),
        }
    }};
}
macro_rules! hook {
    ($( fn $n:ident($($a:ident : $t:ty),*) -> $r:ty $b:block )*) => {
        $( #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> $r $b )*
        pub fn force_link() -> usize {
            let mut x = 0usize;
            $( x ^= std::hint::black_box($n as *const () as usize); )*
            x
        }
    };
}
hook! {
    fn open64(p: *const i8, flags: i32, mode: u32) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::open(-1, s, flags)); } }
        ret(sys(2, p as usize, flags as usize, mode as usize, 0, 0, 0)) as i32
    }
    fn open(p: *const i8, flags: i32, mode: u32) -> i32 { open64(p, flags, mode) }
    fn openat64(d: i32, p: *const i8, flags: i32, mode: u32) -> i32 {
        if active() && (d >= FD0 || sim(p).is_some()) { return out!(vfs::open(d, cpath(p), flags)); }
        ret(sys(257, d as isize as usize, p as usize, flags as usize, mode as usize, 0, 0)) as i32
    }
    fn openat(d: i32, p: *const i8, flags: i32, mode: u32) -> i32 { openat64(d, p, flags, mode) }
    fn close(fd: i32) -> i32 {
        if fd >= FD0 { return out!(vfs::close(fd).map(|_| 0)); }
        ret(sys(3, fd as usize, 0, 0, 0, 0, 0)) as i32
    }
    fn read(fd: i32, b: *mut u8, n: usize) -> isize {
        if fd >= FD0 { return out!(vfs::read(fd, b, n, None)); }
        ret(sys(0, fd as usize, b as usize, n, 0, 0, 0))
    }
    fn write(fd: i32, b: *const u8, n: usize) -> isize {
        if fd >= FD0 { return out!(vfs::write(fd, b, n, None)); }
        if active() && fd < 3 { return n as isize; }
        ret(sys(1, fd as usize, b as usize, n, 0, 0, 0))
    }
    fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
        if fd >= FD0 { return out!(vfs::read(fd, b, n, Some(o as u64))); }
        ret(sys(17, fd as usize, b as usize, n, o as usize, 0, 0))
    }
    fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
        if fd >= FD0 { return out!(vfs::write(fd, b, n, Some(o as u64))); }
        ret(sys(18, fd as usize, b as usize, n, o as usize, 0, 0))
    }
    fn readv(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
        if fd >= FD0 {
            for i in 0..n as usize { let v = *iov.add(i); if v[1] > 0 { return read(fd, v[0] as *mut u8, v[1]); } }
            return 0;
        }
        ret(sys(19, fd as usize, iov as usize, n as usize, 0, 0, 0))
    }
    fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
        if fd >= FD0 {
            for i in 0..n as usize { let v = *iov.add(i); if v[1] > 0 { return write(fd, v[0] as *const u8, v[1]); } }
            return 0;
        }
        if active() && fd < 3 { let mut t = 0; for i in 0..n as usize { t += (*iov.add(i))[1]; } return t as isize; }
        ret(sys(20, fd as usize, iov as usize, n as usize, 0, 0, 0))
    }
    fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
        if fd >= FD0 { return out!(vfs::lseek(fd, o, w)); }
        ret(sys(8, fd as usize, o as usize, w as usize, 0, 0, 0)) as i64
    }
    fn ftruncate64(fd: i32, n: i64) -> i32 {
        if fd >= FD0 { return out!(vfs::ftruncate(fd, n).map(|_| 0)); }
        ret(sys(77, fd as usize, n as usize, 0, 0, 0, 0)) as i32
    }
    fn fallocate64(fd: i32, m: i32, o: i64, n: i64) -> i32 {
        if fd >= FD0 { return fail(95, -1); }
        ret(sys(285, fd as usize, m as usize, o as usize, n as usize, 0, 0)) as i32
    }
    fn fsync(fd: i32) -> i32 {
        if fd >= FD0 { return out!(vfs::sync(fd).map(|_| 0)); }
        ret(sys(74, fd as usize, 0, 0, 0, 0, 0)) as i32
    }
    fn fdatasync(fd: i32) -> i32 {
        if fd >= FD0 { return out!(vfs::sync(fd).map(|_| 0)); }
        ret(sys(75, fd as usize, 0, 0, 0, 0, 0)) as i32
    }
    fn fstat64(fd: i32, b: *mut u8) -> i32 {
        if fd >= FD0 { return out!(vfs::fstat(fd).map(|s| put_stat(b, s))); }
        ret(sys(5, fd as usize, b as usize, 0, 0, 0, 0)) as i32
    }
    fn stat64(p: *const i8, b: *mut u8) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::stat(-1, s).map(|s| put_stat(b, s))); } }
        ret(sys(4, p as usize, b as usize, 0, 0, 0, 0)) as i32
    }
    fn lstat64(p: *const i8, b: *mut u8) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::stat(-1, s).map(|s| put_stat(b, s))); } }
        ret(sys(6, p as usize, b as usize, 0, 0, 0, 0)) as i32
    }
    fn fstatat64(d: i32, p: *const i8, b: *mut u8, f: i32) -> i32 {
        if active() && (d >= FD0 || sim(p).is_some()) { return out!(vfs::stat(d, cpath(p)).map(|s| put_stat(b, s))); }
        ret(sys(262, d as isize as usize, p as usize, b as usize, f as usize, 0, 0)) as i32
    }
    fn statx(d: i32, p: *const i8, f: i32, m: u32, b: *mut u8) -> i32 {
        if d >= FD0 || (active() && sim(p).is_some()) {
            return out!(vfs::stat(d, cpath(p)).map(|s| put_statx(b, s)));
        }
        ret(sys(332, d as isize as usize, p as usize, f as usize, m as usize, b as usize, 0)) as i32
    }
    fn mkdir(p: *const i8, m: u32) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::mkdir(-1, s).map(|_| 0)); } }
        ret(sys(83, p as usize, m as usize, 0, 0, 0, 0)) as i32
    }
    fn rmdir(p: *const i8) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::unlink(-1, s, true).map(|_| 0)); } }
        ret(sys(84, p as usize, 0, 0, 0, 0, 0)) as i32
    }
    fn unlink(p: *const i8) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::unlink(-1, s, false).map(|_| 0)); } }
        ret(sys(87, p as usize, 0, 0, 0, 0, 0)) as i32
    }
    fn unlinkat(d: i32, p: *const i8, f: i32) -> i32 {
        if active() && (d >= FD0 || sim(p).is_some()) { return out!(vfs::unlink(d, cpath(p), f & 0x200 != 0).map(|_| 0)); }
        ret(sys(263, d as isize as usize, p as usize, f as usize, 0, 0, 0)) as i32
    }
    fn rename(a: *const i8, b: *const i8) -> i32 {
        if active() { if let (Some(x), Some(y)) = (sim(a), sim(b)) { return out!(vfs::rename(-1, x, -1, y).map(|_| 0)); } }
        ret(sys(82, a as usize, b as usize, 0, 0, 0, 0)) as i32
    }
    fn renameat(d: i32, a: *const i8, e: i32, b: *const i8) -> i32 {
        if active() && (sim(a).is_some() || d >= FD0) { return out!(vfs::rename(d, cpath(a), e, cpath(b)).map(|_| 0)); }
        ret(sys(264, d as isize as usize, a as usize, e as isize as usize, b as usize, 0, 0)) as i32
    }
    fn access(p: *const i8, m: i32) -> i32 {
        if active() { if let Some(s) = sim(p) { return out!(vfs::stat(-1, s).map(|_| 0)); } }
        ret(sys(21, p as usize, m as usize, 0, 0, 0, 0)) as i32
    }
    fn chmod(p: *const i8, m: u32) -> i32 {
        if active() { if sim(p).is_some() { return 0; } }
        ret(sys(90, p as usize, m as usize, 0, 0, 0, 0)) as i32
    }
    fn fchmod(fd: i32, m: u32) -> i32 {
        if fd >= FD0 { return 0; }
        ret(sys(91, fd as usize, m as usize, 0, 0, 0, 0)) as i32
    }
    fn fcntl(fd: i32, c: i32, a: usize) -> i32 {
        if fd >= FD0 {
            return match c { 1 => 1, 2 => 0, 3 => 2, 4 => 0, _ => fail(22, -1) };
        }
        ret(sys(72, fd as usize, c as usize, a, 0, 0, 0)) as i32
    }
    fn fcntl64(fd: i32, c: i32, a: usize) -> i32 { fcntl(fd, c, a) }
    fn ioctl(fd: i32, c: usize, a: usize) -> i32 {
        if fd >= FD0 { return 0; }
        ret(sys(16, fd as usize, c, a, 0, 0, 0)) as i32
    }
    fn flock(fd: i32, c: i32) -> i32 {
        if fd >= FD0 { return 0; }
        ret(sys(73, fd as usize, c as usize, 0, 0, 0, 0)) as i32
    }
    fn readlink(p: *const i8, b: *mut u8, n: usize) -> isize {
        if active() && sim(p).is_some() { return fail(22, -1); }
        ret(sys(89, p as usize, b as usize, n, 0, 0, 0))
    }
    fn realpath(p: *const i8, b: *mut i8) -> *mut i8 {
        if active() { if let Some(s) = sim(p) {
            extern "C" { fn strdup(s: *const i8) -> *mut i8; }
            let _g = RtGuard::new();
            return match vfs::stat(-1, s) {
                Ok(_) if b.is_null() => strdup(p),
                Ok(_) => { std::ptr::copy(p, b, s.len() + 1); b }
                Err(e) => fail(e, std::ptr::null_mut()),
            };
        } }
        let f: unsafe extern "C" fn(*const i8, *mut i8) -> *mut i8 = std::mem::transmute(real(7));
        f(p, b)
    }
    fn opendir(p: *const i8) -> *mut Dir {
        if active() { if let Some(s) = sim(p) {
            let _g = RtGuard::new();
            return match vfs::opendir(s) { Ok(fd) => Dir::new(fd), Err(e) => fail(e, std::ptr::null_mut()) };
        } }
        let f: unsafe extern "C" fn(*const i8) -> *mut Dir = std::mem::transmute(real(2));
        f(p)
    }
    fn fdopendir(fd: i32) -> *mut Dir {
        if fd >= FD0 {
            let _g = RtGuard::new();
            return match vfs::fdopendir(fd) { Ok(()) => Dir::new(fd), Err(e) => fail(e, std::ptr::null_mut()) };
        }
        let f: unsafe extern "C" fn(i32) -> *mut Dir = std::mem::transmute(real(3));
        f(fd)
    }
    fn readdir64(d: *mut Dir) -> *mut u8 {
        if (*d).magic == MAGIC {
            let _g = RtGuard::new();
            return match vfs::readdir((*d).fd) {
                Ok(None) => std::ptr::null_mut(),
                Err(e) => fail(e, std::ptr::null_mut()),
                Ok(Some((name, ino, dir))) => {
                    let e = (*d).ent.as_mut_ptr() as *mut u8;
                    *(e as *mut u64) = ino as u64 + 1;
                    *(e.add(8) as *mut i64) = 0;
                    *(e.add(16) as *mut u16) = 280;
                    *e.add(18) = if dir { 4 } else { 8 };
                    let n = name.len().min(255);
                    std::ptr::copy(name.as_ptr(), e.add(19), n);
                    *e.add(19 + n) = 0;
                    e
                }
            };
        }
        let f: unsafe extern "C" fn(*mut Dir) -> *mut u8 = std::mem::transmute(real(4));
        f(d)
    }
    fn readdir(d: *mut Dir) -> *mut u8 { readdir64(d) }
    fn closedir(d: *mut Dir) -> i32 {
        if (*d).magic == MAGIC {
            let _g = RtGuard::new();
            let fd = (*d).fd;
            drop(Box::from_raw(d));
            return out!(vfs::close(fd).map(|_| 0));
        }
        let f: unsafe extern "C" fn(*mut Dir) -> i32 = std::mem::transmute(real(5));
        f(d)
    }
    fn dirfd(d: *mut Dir) -> i32 {
        if (*d).magic == MAGIC { return (*d).fd; }
        let f: unsafe extern "C" fn(*mut Dir) -> i32 = std::mem::transmute(real(6));
        f(d)
    }
    fn copy_file_range(a: i32, ao: *mut i64, b: i32, bo: *mut i64, n: usize, f: u32) -> isize {
        if a >= FD0 || b >= FD0 { return fail(38, -1); }
        ret(sys(326, a as usize, ao as usize, b as usize, bo as usize, n, f as usize))
    }
    fn sendfile64(a: i32, b: i32, o: *mut i64, n: usize) -> isize {
        if a >= FD0 || b >= FD0 { return fail(38, -1); }
        ret(sys(40, a as usize, b as usize, o as usize, n, 0, 0))
    }
    fn pthread_create(pt: *mut usize, attr: *const u8, start: unsafe extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
        if active() { return sched::create(pt, attr, start, arg); }
        real_pthread_create()(pt, attr, start, arg)
    }
    fn pthread_join(pt: usize, r: *mut *mut u8) -> i32 {
        if active() { sched::join(pt); }
        let f: unsafe extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(real(1));
        f(pt, r)
    }
    fn sched_yield() -> i32 {
        if active() { let _g = RtGuard::new(); sched::point(sched::K_THREAD); return 0; }
        sys(24, 0, 0, 0, 0, 0, 0);
        0
    }
    fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
        if active() {
            let _g = RtGuard::new();
            sched::sleep_ns((*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64);
            return 0;
        }
        ret(sys(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
    }
    fn clock_nanosleep(c: i32, f: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
        if active() {
            let _g = RtGuard::new();
            let t = (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
            sched::sleep_ns(if f & 1 != 0 { t.saturating_sub(sched::S.now) } else { t });
            return 0;
        }
        -(sys(230, c as usize, f as usize, req as usize, rem as usize, 0, 0) as i32)
    }
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32 {
        if active() {
            sched::S.now += 100;
            let n = sched::S.now;
            *ts = [(n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64];
            return 0;
        }
        ret(sys(228, c as usize, ts as usize, 0, 0, 0, 0)) as i32
    }
    fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
        if sched::TID >= 0 && sched::S.on {
            let _g = RtGuard::new();
            sched::random_bytes(b, n);
            return n as isize;
        }
        ret(sys(318, b as usize, n, f as usize, 0, 0, 0))
    }
    fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
        if sched::TID >= 0 && sched::S.on {
            match n {
                318 => return getrandom(a as *mut u8, b, c as u32) as i64,
                202 if active() => {
                    let _g = RtGuard::new();
                    let op = b & 0x7f;
                    match op {
                        0 | 9 => {
                            let to = if d == 0 { None } else {
                                let ts = &*(d as *const [i64; 2]);
                                let t = ts[0] as u64 * 1_000_000_000 + ts[1] as u64;
                                Some(if op == 9 { t.saturating_sub(sched::S.now) } else { t })
                            };
                            let e = sched::futex_wait(a, c as u32, to);
                            return if e == 0 { 0 } else { fail(e, -1) };
                        }
                        1 | 10 => return sched::futex_wake(a, c as u32) as i64,
                        _ => return fail(38, -1),
                    }
                }
                332 if (a as i32) >= FD0 || (active() && sim(b as *const i8).is_some()) =>
                    return statx(a as i32, b as *const i8, c as i32, d as u32, e as *mut u8) as i64,
                326 => return fail(38, -1),
                _ => {}
            }
        }
        ret(sys(n as usize, a, b, c, d, e, f)) as i64
    }
}
const MAGIC: u64 = 0x51D1_2D1F_51D1_2D1F;
#[repr(C)]
pub struct Dir {
    magic: u64,
    fd: i32,
    ent: [u64; 40],
}
impl Dir {
    fn new(fd: i32) -> *mut Dir {
        Box::into_raw(Box::new(Dir { magic: MAGIC, fd, ent: [0; 40] }))
    }
}
unsafe fn put_stat(b: *mut u8, s: (bool, usize, u32)) -> i32 {
    std::ptr::write_bytes(b, 0, 144);
    *(b.add(8) as *mut u64) = s.2 as u64 + 1;
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = if s.0 { 0o040755 } else { 0o100644 };
    *(b.add(48) as *mut i64) = s.1 as i64;
    *(b.add(56) as *mut i64) = 4096;
    *(b.add(64) as *mut i64) = ((s.1 + 511) / 512) as i64;
    0
}
unsafe fn put_statx(b: *mut u8, s: (bool, usize, u32)) -> i32 {
    std::ptr::write_bytes(b, 0, 256);
    *(b as *mut u32) = 0x7ff;
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(16) as *mut u32) = 1;
    *(b.add(28) as *mut u16) = if s.0 { 0o040755 } else { 0o100644 };
    *(b.add(32) as *mut u64) = s.2 as u64 + 1;
    *(b.add(40) as *mut u64) = s.1 as u64;
    *(b.add(48) as *mut u64) = ((s.1 + 511) / 512) as u64;
    0
}
