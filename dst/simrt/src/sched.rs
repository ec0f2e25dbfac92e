//! The scheduler: decides which simulated thread runs at every scheduling point, when threads stall, what
//! simulated time it is, and which fault hits which call. Everything derives from the run's seed, or from
//! an explicit recorded plan.
use crate::rng::{hash2, hash3, Rng};
use crate::{harness_error, race, raw, trace, violation, RtGuard, RT};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[thread_local]
pub static mut TID: i32 = -1;
pub const MAX: usize = 2048;
static WORDS: [AtomicU32; MAX] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const W: AtomicU32 = AtomicU32::new(0);
    [W; MAX]
};

pub const K_ATOMIC: u8 = 0;
pub const K_CAS: u8 = 1;
pub const K_IO: u8 = 2;
pub const K_THREAD: u8 = 3;
pub const K_FUTEX: u8 = 4;
pub const K_TIME: u8 = 5;
pub const K_USER: u8 = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex(usize),
    Join(usize),
    Sleep,
    Quiet,
    Stalled,
    Exited,
}
pub struct Th {
    pub st: St,
    pub key: u64,
    /// label of the client operation this thread works for
    pub op: u32,
    /// scheduling points within the label
    pub step: u32,
    /// I/O calls within the label
    pub io: u32,
    pub spawns: u32,
    pub wake_at: u64,
    pub timed_out: bool,
    prio: u64,
    pub pt: usize,
    pub parent: i32,
    pub points: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Switch {
    pub key: u64,
    pub op: u32,
    pub step: u32,
    pub to: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub key: u64,
    pub op: u32,
    /// I/O index (I/O faults) or step (stalls) or callback index
    pub n: u32,
    pub kind: u32,
    pub arg: i64,
}
pub const F_EIO: u32 = 1;
pub const F_ENOSPC: u32 = 2;
pub const F_EMFILE: u32 = 3;
pub const F_SHORT: u32 = 4;
pub const F_EINTR: u32 = 5;
pub const F_EAGAIN: u32 = 6;
pub const F_STALL: u32 = 7;
pub const F_PANIC: u32 = 8;
pub const F_EACCES: u32 = 9;
pub const F_KILL: u32 = 10;
pub const F_TORN: u32 = 11;
pub fn fault_name(k: u32) -> &'static str {
    match k {
        F_EIO => "eio",
        F_ENOSPC => "enospc",
        F_EMFILE => "emfile",
        F_SHORT => "short-io",
        F_EINTR => "eintr",
        F_EAGAIN => "thread-refused",
        F_STALL => "stall",
        F_PANIC => "caller-panic",
        F_EACCES => "eacces",
        F_KILL => "kill",
        F_TORN => "torn-kill",
        _ => "?",
    }
}
pub fn fault_from(s: &str) -> u32 {
    (1..=11).find(|k| fault_name(*k) == s).unwrap_or(0)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Policy {
    /// stay until the burst ends, then pick any runnable thread
    Burst { max: u64 },
    /// random priorities, random demotions with probability 1/q
    Pct { q: u64 },
    /// switch only when blocked
    Coarse,
}

pub struct Sched {
    pub on: bool,
    pub cur: usize,
    pub ths: Vec<Th>,
    pub by_key: BTreeMap<u64, usize>,
    pub rng: Option<Rng>,
    pub policy: Policy,
    burst: u64,
    low: u64,
    pub explicit: Option<BTreeMap<(u64, u32, u32), u64>>,
    pub switches: Vec<Switch>,
    pub faults: Vec<Fault>,
    pub efaults: Option<BTreeMap<(u64, u32, u32, u32), i64>>,
    pub steps: u64,
    pub limit: u64,
    pub now: u64,
    pub nswitch: u64,
    pub preempt: u64,
    pub cas_fail: u64,
    pub stall_den: u64,
    pub stall_max: u32,
    pub stalled: u32,
    /// thread keys that may be stalled: all but root
    pub io_rate: (u64, u64),
    pub io_kinds: Vec<u32>,
    /// which classes of calls may fail (bit per class)
    pub io_classes: u64,
    /// an error burst in progress: remaining calls, kind
    pub burst_io: (u32, u32),
    pub burst_max: u32,
    /// disk-full / descriptor exhaustion modes switched on by the scenario
    pub io_on: bool,
    pub fired: BTreeMap<u32, u64>,
    pub quiet_mode: bool,
    futex_order: BTreeMap<usize, Vec<usize>>,
    pub panic_rate: (u64, u64),
    pub callbacks: u32,
    rand_ctr: BTreeMap<u64, u64>,
    pub seed: u64,
    pub spawned: u64,
    pub op_hook: Option<fn(u32)>,
    /// scheduling points only count towards the limit; used for phases that must be sequential
    pub frozen: bool,
    pub mutio: u64,
}
pub static mut S: Sched = Sched {
    on: false,
    cur: 0,
    ths: Vec::new(),
    by_key: BTreeMap::new(),
    rng: None,
    policy: Policy::Coarse,
    burst: 0,
    low: 0,
    explicit: None,
    switches: Vec::new(),
    faults: Vec::new(),
    efaults: None,
    steps: 0,
    limit: 0,
    now: 1_600_000_000_000_000_000,
    nswitch: 0,
    preempt: 0,
    cas_fail: 0,
    stall_den: 0,
    stall_max: 0,
    stalled: 0,
    io_rate: (0, 1),
    io_kinds: Vec::new(),
    io_classes: !0,
    burst_io: (0, 0),
    burst_max: 1,
    io_on: false,
    fired: BTreeMap::new(),
    quiet_mode: false,
    futex_order: BTreeMap::new(),
    panic_rate: (0, 1),
    callbacks: 0,
    rand_ctr: BTreeMap::new(),
    seed: 0,
    spawned: 0,
    op_hook: None,
    frozen: false,
    mutio: 0,
};

#[inline(always)]
pub fn cur_tid() -> i32 {
    unsafe { TID }
}
pub fn describe(t: i32) -> String {
    unsafe {
        match S.ths.get(t as usize) {
            Some(th) => format!("thread {} at op {} step {}", t, th.op, th.step),
            None => format!("thread {}", t),
        }
    }
}
fn new_th(key: u64, op: u32, parent: i32) -> Th {
    Th {
        st: St::Runnable,
        key,
        op,
        step: 0,
        io: 0,
        spawns: 0,
        wake_at: u64::MAX,
        timed_out: false,
        prio: unsafe { hash2(S.seed ^ 0x9, key) | (1 << 63) },
        pt: 0,
        parent,
        points: 0,
    }
}
pub fn set_op(op: u32) {
    let _g = RtGuard::new();
    unsafe {
        let t = &mut S.ths[TID as usize];
        t.op = op;
        t.step = 0;
        t.io = 0;
        t.spawns = 0;
        trace(0x0900_0000 | op as u64);
        crate::log(|| format!("t{} op {}", TID, op));
    }
}
unsafe fn runnable(i: usize) -> bool {
    match S.ths[i].st {
        St::Runnable => true,
        St::Quiet => S.ths.iter().enumerate().all(|(j, t)| j == i || matches!(t.st, St::Exited | St::Stalled)),
        _ => false,
    }
}
unsafe fn runnables() -> Vec<usize> {
    (0..S.ths.len()).filter(|i| runnable(*i)).collect()
}
/// Choose who runs next. `must`: the current thread cannot continue.
unsafe fn choose(must: bool) -> Option<usize> {
    let cur = S.cur;
    if must {
        loop {
            let mut r = runnables();
            if r.is_empty() {
                // advance simulated time to the next deadline
                let mut best: Option<usize> = None;
                for i in 0..S.ths.len() {
                    let t = &S.ths[i];
                    if t.wake_at != u64::MAX
                        && matches!(t.st, St::Sleep | St::Futex(_))
                        && best.map_or(true, |b| t.wake_at < S.ths[b].wake_at)
                    {
                        best = Some(i);
                    }
                }
                match best {
                    Some(b) => {
                        S.now = S.now.max(S.ths[b].wake_at);
                        wake(b, true);
                        continue;
                    }
                    None => return None,
                }
            }
            let dflt = r[0];
            let to = if r.len() == 1 {
                dflt
            } else if let Some(e) = &S.explicit {
                let t = &S.ths[cur];
                match e.get(&(t.key, t.op, t.step)).and_then(|k| S.by_key.get(k)) {
                    Some(i) if runnable(*i) => *i,
                    _ => dflt,
                }
            } else if S.frozen {
                dflt
            } else {
                match S.policy {
                    Policy::Pct { .. } => *r.iter().max_by_key(|i| S.ths[**i].prio).unwrap(),
                    _ => {
                        let n = r.len() as u64;
                        let x = S.rng.as_mut().unwrap().below(n) as usize;
                        new_burst();
                        r.swap_remove(x)
                    }
                }
            };
            if to != dflt {
                let t = &S.ths[cur];
                S.switches.push(Switch { key: t.key, op: t.op, step: t.step, to: S.ths[to].key });
            }
            return Some(to);
        }
    }
    if S.frozen {
        return Some(cur);
    }
    if let Some(e) = &S.explicit {
        let t = &S.ths[cur];
        return Some(match e.get(&(t.key, t.op, t.step)).and_then(|k| S.by_key.get(k)) {
            Some(i) if runnable(*i) => *i,
            _ => cur,
        });
    }
    let to = match S.policy {
        Policy::Coarse => cur,
        Policy::Burst { .. } => {
            if S.burst > 0 {
                S.burst -= 1;
                cur
            } else {
                let r = runnables();
                let x = S.rng.as_mut().unwrap().below(r.len() as u64) as usize;
                new_burst();
                r[x]
            }
        }
        Policy::Pct { q } => {
            if S.rng.as_mut().unwrap().below(q) == 0 {
                S.low += 1;
                S.ths[cur].prio = (1 << 62) - S.low;
            }
            let mut best = cur;
            for i in 0..S.ths.len() {
                if runnable(i) && S.ths[i].prio > S.ths[best].prio {
                    best = i;
                }
            }
            best
        }
    };
    if to != cur {
        let t = &S.ths[cur];
        S.switches.push(Switch { key: t.key, op: t.op, step: t.step, to: S.ths[to].key });
    }
    Some(to)
}
unsafe fn new_burst() {
    if let Policy::Burst { max } = S.policy {
        let r = S.rng.as_mut().unwrap();
        // log-uniform length in 0..max
        let bits = 64 - max.leading_zeros() as u64;
        let b = r.below(bits + 1);
        S.burst = r.below((1u64 << b).min(max + 1));
    }
}
unsafe fn wake(i: usize, timeout: bool) {
    let t = &mut S.ths[i];
    if let St::Futex(a) = t.st {
        if let Some(v) = S.futex_order.get_mut(&a) {
            v.retain(|x| *x != i);
        }
    }
    t.st = St::Runnable;
    t.timed_out = timeout;
    t.wake_at = u64::MAX;
}
unsafe fn transfer(to: usize) {
    let me = TID as usize;
    if to == me {
        return;
    }
    S.cur = to;
    S.nswitch += 1;
    trace(hash2(0x5117, S.ths[to].key));
    WORDS[to].store(1, SeqCst);
    raw::futex_wake(WORDS[to].as_ptr(), 1);
}
unsafe fn wait_baton(me: usize) {
    loop {
        if WORDS[me].swap(0, SeqCst) == 1 {
            return;
        }
        raw::futex_wait(WORDS[me].as_ptr(), 0);
    }
}
unsafe fn tick() {
    S.steps += 1;
    S.now += 1_000;
    let t = &mut S.ths[TID as usize];
    t.step += 1;
    t.points += 1;
    if S.steps > S.limit {
        violation(
            "no-progress",
            &format!("step limit {} exceeded; running {}; {}", S.limit, describe(TID), states()),
        );
    }
}
pub fn states() -> String {
    unsafe {
        S.ths
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Exited)
            .map(|(i, t)| format!("[{} op {} {:?}]", i, t.op, match t.st {
                St::Futex(_) => St::Futex(0),
                s => s,
            }))
            .collect::<Vec<_>>()
            .join(" ")
    }
}
/// A scheduling point.
pub fn point(kind: u8) {
    unsafe {
        if TID < 0 || !S.on {
            return;
        }
        let _g = RtGuard::new();
        tick();
        let me = TID as usize;
        if me != 0 && (S.stall_den > 0 || S.efaults.is_some()) {
            let t = &S.ths[me];
            let stall = if let Some(f) = &S.efaults {
                f.contains_key(&(t.key, t.op, t.step, F_STALL))
            } else {
                S.stalled < S.stall_max
                    && (kind == K_CAS || kind == K_ATOMIC)
                    && S.rng.as_mut().unwrap().below(S.stall_den) == 0
            };
            if stall {
                S.stalled += 1;
                *S.fired.entry(F_STALL).or_insert(0) += 1;
                let t = &mut S.ths[me];
                t.st = St::Stalled;
                let f = Fault { key: t.key, op: t.op, n: t.step, kind: F_STALL, arg: 0 };
                crate::log(|| format!("t{} stalled op {} step {}", me, f.op, f.n));
                trace(hash2(0x57a1, f.key));
                S.faults.push(f);
                reschedule();
                return;
            }
        }
        if S.ths.len() == 1 {
            return;
        }
        let to = choose(false).unwrap();
        if to != me {
            S.preempt += 1;
            crate::log(|| format!("t{} -> t{} (op {} step {})", me, to, S.ths[me].op, S.ths[me].step));
            transfer(to);
            wait_baton(me);
        }
    }
}
/// The current thread cannot run: hand over and wait until it is runnable and chosen.
unsafe fn reschedule() {
    let me = TID as usize;
    match choose(true) {
        None => violation("deadlock", &format!("no thread can run: {}", states())),
        Some(to) => {
            if to == me {
                if S.ths[me].st == St::Quiet {
                    S.ths[me].st = St::Runnable;
                }
                return;
            }
            crate::log(|| format!("t{} blocks -> t{}", me, to));
            transfer(to);
            wait_baton(me);
            if S.ths[me].st == St::Quiet {
                S.ths[me].st = St::Runnable;
            }
        }
    }
}
/// Wait until every other thread has ended (or is stalled).
pub fn wait_quiet() {
    unsafe {
        let _g = RtGuard::new();
        tick();
        S.ths[TID as usize].st = St::Quiet;
        reschedule();
    }
}
/// number of other live threads
pub fn others() -> usize {
    unsafe { S.ths.iter().enumerate().filter(|(i, t)| *i != TID as usize && t.st != St::Exited).count() }
}
pub fn sleep_ns(ns: u64) {
    unsafe {
        tick();
        let me = TID as usize;
        S.ths[me].st = St::Sleep;
        S.ths[me].wake_at = S.now + ns;
        reschedule();
    }
}
/// returns 0, or an errno
pub unsafe fn futex_wait(addr: usize, val: u32, timeout: Option<u64>) -> i32 {
    point(K_FUTEX);
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        return 11;
    }
    tick();
    let me = TID as usize;
    S.ths[me].st = St::Futex(addr);
    S.ths[me].timed_out = false;
    S.ths[me].wake_at = timeout.map_or(u64::MAX, |t| S.now + t);
    S.futex_order.entry(addr).or_default().push(me);
    reschedule();
    if S.ths[me].timed_out {
        110
    } else {
        0
    }
}
pub unsafe fn futex_wake(addr: usize, n: u32) -> i32 {
    let mut c = 0;
    while c < n as i32 {
        let q = match S.futex_order.get_mut(&addr) {
            Some(q) if !q.is_empty() => q,
            _ => break,
        };
        let i = q.remove(0);
        wake(i, false);
        if race::ON {
            // the woken thread continues after what the waker did
            let m = TID;
            TID = i as i32;
            race::sync_from(m as usize);
            TID = m;
        }
        c += 1;
    }
    point(K_FUTEX);
    c
}

// ---- threads -----------------------------------------------------------------------------------------
type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
struct Boot {
    start: Start,
    arg: *mut u8,
    id: usize,
}
static mut KEY: u32 = 0;
extern "C" {
    fn pthread_key_create(k: *mut u32, d: unsafe extern "C" fn(*mut u8)) -> i32;
    fn pthread_setspecific(k: u32, v: *const u8) -> i32;
}
unsafe extern "C" fn thread_end(v: *mut u8) {
    let n = v as usize;
    RT += 1;
    if n < 4 {
        pthread_setspecific(KEY, (n + 1) as *const u8);
        RT -= 1;
        return;
    }
    let me = TID as usize;
    tick();
    S.ths[me].st = St::Exited;
    crate::log(|| format!("t{} ends", me));
    trace(hash2(0xE4D, S.ths[me].key));
    for i in 0..S.ths.len() {
        if S.ths[i].st == St::Join(me) {
            S.ths[i].st = St::Runnable;
        }
    }
    if me == 0 {
        harness_error("root thread returned");
    }
    let to = match choose(true) {
        Some(t) => t,
        None => violation("deadlock", &format!("no thread can run: {}", states())),
    };
    TID = me as i32;
    transfer(to);
    TID = -1;
}
unsafe extern "C" fn trampoline(b: *mut u8) -> *mut u8 {
    RT = 1;
    let b = Box::from_raw(b as *mut Boot);
    let id = b.id;
    TID = id as i32;
    wait_baton(id);
    pthread_setspecific(KEY, 1 as *const u8);
    let (s, a) = (b.start, b.arg);
    drop(b);
    RT = 0;
    let r = s(a);
    r
}
pub unsafe fn create(pt: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let _g = RtGuard::new();
    point(K_THREAD);
    if let Some((F_EAGAIN, _)) = io_fault(IoClass::Thread, 0) {
        return 11;
    }
    let id = S.ths.len();
    if id >= MAX {
        violation("thread-leak", "more than 2000 threads were created");
    }
    let me = &mut S.ths[TID as usize];
    let key = hash3(me.key, me.op as u64, me.spawns as u64 + 1);
    me.spawns += 1;
    let op = me.op;
    S.ths.push(new_th(key, op, TID));
    S.by_key.insert(key, id);
    S.spawned += 1;
    race::thread_start(TID, id);
    let b = Box::into_raw(Box::new(Boot { start, arg, id }));
    let r = (crate::hooks::real_pthread_create())(pt, attr, trampoline, b as *mut u8);
    if r != 0 {
        harness_error("real pthread_create failed");
    }
    S.ths[id].pt = *pt;
    crate::log(|| format!("t{} spawns t{} (op {})", TID, id, op));
    trace(hash2(0x59a, key));
    point(K_THREAD);
    0
}
pub unsafe fn join(pt: usize) -> bool {
    let _g = RtGuard::new();
    point(K_THREAD);
    let id = match (0..S.ths.len()).rev().find(|i| S.ths[*i].pt == pt) {
        Some(i) => i,
        None => return false,
    };
    if S.ths[id].st != St::Exited {
        tick();
        S.ths[TID as usize].st = St::Join(id);
        reschedule();
    }
    S.ths[id].pt = 0;
    race::sync_from(id);
    true
}

/// Start the simulation: runs `root` in a fresh thread; never returns.
pub fn start(root: fn()) -> ! {
    unsafe {
        if pthread_key_create(std::ptr::addr_of_mut!(KEY), thread_end) != 0 {
            harness_error("pthread_key_create");
        }
        S.ths.push(new_th(1, 0, -1));
        S.by_key.insert(1, 0);
        race::thread_start(-1, 0);
        S.cur = 0;
        unsafe extern "C" fn go(a: *mut u8) -> *mut u8 {
            let f: fn() = std::mem::transmute(a);
            RT = 1;
            f();
            harness_error("root returned");
        }
        let b = Box::into_raw(Box::new(Boot { start: go, arg: root as *mut u8, id: 0 }));
        let mut pt = 0usize;
        S.on = true;
        WORDS[0].store(1, SeqCst);
        // 8 MB stack for the root thread
        let mut attr = [0u64; 16];
        extern "C" {
            fn pthread_attr_init(a: *mut u64) -> i32;
            fn pthread_attr_setstacksize(a: *mut u64, n: usize) -> i32;
        }
        pthread_attr_init(attr.as_mut_ptr());
        pthread_attr_setstacksize(attr.as_mut_ptr(), 16 << 20);
        if (crate::hooks::real_pthread_create())(&mut pt, attr.as_ptr() as *const u8, trampoline, b as *mut u8) != 0 {
            harness_error("cannot create root thread");
        }
        let w = AtomicU32::new(0);
        loop {
            raw::futex_wait(w.as_ptr(), 0);
        }
    }
}
pub unsafe fn init(seed: u64) {
    S.seed = seed;
    S.rng = Some(Rng::new(hash2(seed, 0x5c4ed)));
    S.limit = 2_000_000;
    new_burst();
}

// ---- randomness --------------------------------------------------------------------------------------
pub unsafe fn random_bytes(p: *mut u8, n: usize) {
    let (key, op) = if TID >= 0 { (S.ths[TID as usize].key, S.ths[TID as usize].op) } else { (0, 0) };
    let k = hash2(key, op as u64);
    let c = S.rand_ctr.entry(k).or_insert(0);
    let mut r = Rng::new(hash3(S.seed ^ 0x7a7d, k, *c));
    *c += 1;
    for i in 0..n {
        *p.add(i) = r.next() as u8;
    }
}

// ---- faults ------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IoClass {
    Open,
    Create,
    Read,
    Write,
    Seek,
    Truncate,
    Stat,
    Dir,
    Mkdir,
    Unlink,
    Rename,
    Sync,
    Thread,
}
fn applies(kind: u32, c: IoClass) -> bool {
    use IoClass::*;
    match kind {
        F_EIO => !matches!(c, Thread),
        F_ENOSPC => matches!(c, Write | Create | Mkdir | Truncate | Rename),
        F_EMFILE => matches!(c, Open | Create | Dir),
        F_SHORT => matches!(c, Read | Write),
        F_EINTR => matches!(c, Read | Write | Open | Create),
        F_EAGAIN => c == Thread,
        F_EACCES => matches!(c, Open | Create | Unlink | Mkdir | Rename),
        _ => false,
    }
}
/// Ask whether this call fails. Returns (kind, arg).
pub unsafe fn io_fault(c: IoClass, _size: usize) -> Option<(u32, i64)> {
    let me = TID as usize;
    S.ths[me].io += 1;
    let (key, op, n) = (S.ths[me].key, S.ths[me].op, S.ths[me].io);
    if let Some(f) = &S.efaults {
        for kind in [F_EIO, F_ENOSPC, F_EMFILE, F_SHORT, F_EINTR, F_EAGAIN, F_EACCES] {
            if applies(kind, c) {
                if let Some(a) = f.get(&(key, op, n, kind)) {
                    let a = *a;
                    return Some(fire(key, op, n, kind, a));
                }
            }
        }
        return None;
    }
    if !S.io_on || S.io_kinds.is_empty() || S.io_classes >> (c as u32) & 1 == 0 {
        return None;
    }
    if S.burst_io.0 > 0 {
        S.burst_io.0 -= 1;
        let k = S.burst_io.1;
        if applies(k, c) {
            let a = (S.rng.as_mut().unwrap().next() >> 32) as i64;
            return Some(fire(key, op, n, k, a));
        }
    }
    let rng = S.rng.as_mut().unwrap();
    if rng.chance(S.io_rate.0, S.io_rate.1) {
        let k = *rng.pick(&S.io_kinds);
        if S.burst_max > 1 && rng.below(3) == 0 {
            S.burst_io = (1 + rng.below(S.burst_max as u64) as u32, k);
        }
        if applies(k, c) {
            let a = (rng.next() >> 32) as i64;
            return Some(fire(key, op, n, k, a));
        }
    }
    None
}
unsafe fn fire(key: u64, op: u32, n: u32, kind: u32, arg: i64) -> (u32, i64) {
    *S.fired.entry(kind).or_insert(0) += 1;
    trace(hash3(0xFA, kind as u64, n as u64));
    crate::log(|| format!("t{} FAULT {} at op {} io {}", TID, fault_name(kind), op, n));
    S.faults.push(Fault { key, op, n, kind, arg });
    (kind, arg)
}
/// A call back into caller code (comparison, destructor): returns true if it must panic now.
pub fn callback_panics() -> bool {
    unsafe {
        if TID < 0 || !S.on {
            return false;
        }
        let _g = RtGuard::new();
        let me = TID as usize;
        S.callbacks += 1;
        S.ths[me].io += 1;
        let (key, op, n) = (S.ths[me].key, S.ths[me].op, S.ths[me].io);
        let hit = if let Some(f) = &S.efaults {
            f.contains_key(&(key, op, n, F_PANIC))
        } else {
            let (a, b) = S.panic_rate;
            a > 0 && S.rng.as_mut().unwrap().chance(a, b)
        };
        if hit {
            fire(key, op, n, F_PANIC, 0);
        }
        hit
    }
}
pub fn fired_total() -> u64 {
    unsafe { S.fired.values().sum() }
}

/// Position in the recorded plan; `reset` forgets everything since (used between independent kill points).
pub struct Mark(usize, usize, BTreeMap<u64, u64>);
pub fn mark() -> Mark {
    unsafe { Mark(S.switches.len(), S.faults.len(), S.rand_ctr.clone()) }
}
pub fn reset(m: &Mark) {
    unsafe {
        S.switches.truncate(m.0);
        S.faults.truncate(m.1);
        S.rand_ctr = m.2.clone();
    }
}
