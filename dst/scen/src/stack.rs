//! S01-S04: the concurrent stack.
use crate::tracked::{self, Val};
use crate::*;
use extended_collections::sync::Stack;
use simrt::sched::{self, S};
use simrt::violation;
use std::collections::HashSet;
use std::sync::Arc;

pub fn info(id: &str) -> Info {
    Info {
        rule: match id {
            "S03" => "per run: 2-5 threads, 1-8 operations each, random schedule, one or more threads stalled for ever at random instructions; non-trivial: a thread was stalled inside an operation and at least one other thread completed an operation afterwards",
            "S04" => "per run: 2-5 threads pushing, popping and reading the length under a random schedule; non-trivial: a length was read while another thread was inside an operation",
            _ => "per run: 1-5 threads, up to 10 operations each, random schedule at every atomic operation; non-trivial: at least two operations overlapped and at least one preemption happened inside an operation",
        },
        level: "exploration",
        real: REAL,
        stub: STUB,
        assumptions: vec![
            "interleavings are explored at atomic operations (sequentially consistent execution); weaker memory orders are judged by the happens-before race detector in S02",
        ],
    }
}
pub fn gen(s: &mut Spec, r: &mut Rng, thorough: bool, _i: u64) {
    gen_policy(s, r);
    if s.c("policy") == 0 && r.below(4) != 0 {
        s.cfg.insert("policy".into(), 1);
        s.cfg.insert("burst".into(), 4);
    }
    if r.below(3) == 0 {
        s.cfg.insert("policy".into(), 1);
        s.cfg.insert("burst".into(), *r.pick(&[0, 1, 2, 3]));
    }
    let p = s.prop.clone();
    let n = 2 + r.below(if thorough { 4 } else { 3 }) as i64;
    s.cfg.insert("threads".into(), n);
    s.cfg.insert("prefill".into(), *r.pick(&[0, 0, 0, 1, 2, 3]));
    let maxops = if p == "S02" { *r.pick(&[2, 4, 8, 30]) } else { 1 + r.below(if n > 3 { 5 } else { 7 }) as i64 };
    let pushy = 1 + r.below(9);
    let lens = match p.as_str() {
        "S04" => 2 + r.below(5),
        _ => r.below(2),
    };
    let mut id = 1;
    for t in 0..n {
        let k = 1 + r.below(maxops as u64);
        for _ in 0..k {
            let nm = if r.below(10) < lens {
                if r.below(3) == 0 {
                    "empty"
                } else {
                    "len"
                }
            } else if r.below(10) < pushy {
                "push"
            } else {
                "pop"
            };
            s.ops.push(op(id, t as u8, nm, id as i64, 0));
            id += 1;
        }
    }
    match p.as_str() {
        "S02" => {
            s.cfg.insert("race".into(), 1);
            s.cfg.insert("end".into(), r.below(3) as i64);
        }
        "S03" => {
            s.cfg.insert("stall_den".into(), *r.pick(&[10, 20, 40, 80]));
            s.cfg.insert("stall_max".into(), 1 + r.below(n as u64 - 1) as i64);
            s.cfg.insert("limit".into(), 60_000);
        }
        _ => {}
    }
}
#[derive(Clone, Debug)]
struct Ev {
    thr: u8,
    push: Option<u64>,
    pop: Option<Option<u64>>,
    len: Option<i64>,
    inv: u64,
    res: u64,
    name: String,
}
static mut EVS: Vec<Ev> = Vec::new();
static mut SEQ: u64 = 0;
static mut INSIDE: i32 = 0;

fn tick() -> u64 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}
trait Item: Send + Sync + 'static {
    fn make(t: u64) -> Self;
    fn get(self) -> u64;
}
/// plain data: nothing to destroy
struct Plain(u64);
impl Item for Plain {
    fn make(t: u64) -> Plain {
        Plain(t)
    }
    fn get(self) -> u64 {
        self.0
    }
}
impl Item for Val {
    fn make(t: u64) -> Val {
        Val::new(t)
    }
    fn get(self) -> u64 {
        self.tag()
    }
}
fn client<T: Item>(stack: &Stack<T>, ops: &[Op]) {
    for o in ops {
        sched::set_op(o.id);
        let i = unsafe {
            EVS.push(Ev {
                thr: o.thr,
                push: None,
                pop: None,
                len: None,
                inv: tick(),
                res: u64::MAX,
                name: o.name.clone(),
            });
            if o.name == "push" {
                EVS.last_mut().unwrap().push = Some(o.a as u64);
            }
            if INSIDE > 0 {
                simrt::probe("overlapping operations");
            }
            INSIDE += 1;
            EVS.len() - 1
        };
        match o.name.as_str() {
            "push" => {
                if let Err(m) = call(|| stack.push(T::make(o.a as u64))) {
                    violation("panic", &strip(&m));
                }
            }
            "pop" => match call(|| stack.try_pop().map(|v| v.get())) {
                Ok(v) => unsafe { EVS[i].pop = Some(v) },
                Err(m) => violation("panic", &strip(&m)),
            },
            "len" => match call(|| stack.len()) {
                Ok(v) => unsafe { EVS[i].len = Some(v as i64) },
                Err(m) => violation("panic", &strip(&m)),
            },
            "empty" => match call(|| stack.is_empty()) {
                Ok(v) => unsafe { EVS[i].len = Some(if v { 0 } else { -1 }) },
                Err(m) => violation("panic", &strip(&m)),
            },
            _ => {}
        }
        unsafe {
            INSIDE -= 1;
            EVS[i].res = tick();
            let e = EVS[i].clone();
            simrt::hist(|| format!("t{} {} -> {} [{}..{}]", e.thr, show(&e), shown(&e), e.inv, e.res));
            simrt::trace(simrt::rng::hash3(
                0xE5,
                e.len.unwrap_or(-9) as u64,
                e.pop.flatten().unwrap_or(0),
            ));
            if S.stalled > 0 {
                simrt::probe("operations completed after a stall");
            }
        }
    }
}
fn show(e: &Ev) -> String {
    match e.push {
        Some(v) => format!("push({})", v),
        None => e.name.clone(),
    }
}
fn shown(e: &Ev) -> String {
    if let Some(p) = &e.pop {
        format!("{:?}", p)
    } else if let Some(l) = e.len {
        if e.name == "empty" {
            format!("{}", l == 0)
        } else {
            format!("{}", l)
        }
    } else {
        "ok".into()
    }
}
pub fn run(s: &Spec) {
    if s.prop == "S02" {
        run_with::<Val>(s)
    } else {
        run_with::<Plain>(s)
    }
}
fn run_with<T: Item>(s: &Spec) {
    unsafe {
        // a node: the value, a link, nothing else of this size is allocated
        simrt::arena::ARENA.watch = (tracked::VAL_SIZE, tracked::VAL_SIZE + 64);
    }
    let stack = call(|| Arc::new(Stack::<T>::new())).unwrap_or_else(|m| violation("panic", &m));
    // one-time initialisation of the reclamation library happens here, not inside a measured operation
    let _ = call(|| drop(crossbeam_epoch::pin()));
    // prefill, sequential
    let prefill: Vec<Op> = (0..s.c("prefill")).map(|i| op(100 + i as u32, 99, "push", 1000 + i, 0)).collect();
    unsafe { S.frozen = true };
    client(&stack, &prefill);
    sched::set_op(0);
    let n = s.c("threads");
    let mut hs = vec![];
    for t in 0..n {
        let ops: Vec<Op> = s.ops.iter().filter(|o| o.thr as i64 == t).cloned().collect();
        let st = simrt::sut(|| Arc::clone(&stack));
        // the closure and its handle belong to the harness; the clone of the Arc is dropped by the thread
        let h = simrt::sut(|| {
            std::thread::spawn(move || {
                simrt::rt(|| {
                    client(&st, &ops);
                    drop(ops);
                    simrt::sut(|| drop(st));
                })
            })
        });
        hs.push(h);
    }
    unsafe {
        S.frozen = false;
    }
    let stalls = s.prop == "S03";
    if stalls {
        sched::wait_quiet();
        let inop = unsafe { EVS.iter().filter(|e| e.res == u64::MAX).count() };
        if inop > 0 && unsafe { S.stalled } > 0 {
            simrt::probe_n("operations abandoned by a stall", inop as u64);
            if unsafe { *simrt::PROBES.get("operations completed after a stall").unwrap_or(&0) } > 0 {
                simrt::probe("nontrivial");
            }
        }
        check_lin();
        return;
    }
    for h in hs {
        if simrt::sut(|| h.join()).is_err() {
            violation("panic", "a client thread died");
        }
    }
    unsafe {
        S.frozen = true;
        let over = simrt::PROBES.get("overlapping operations").copied().unwrap_or(0);
        if S.cas_fail > 0 {
            simrt::probe("compare-and-swap failed");
        }
        if over > 0 && S.preempt > 0 {
            simrt::probe("nontrivial");
        }
    }
    sched::set_op(5000);
    match s.prop.as_str() {
        "S01" => {
            check_lin();
            drain(&stack, s);
        }
        "S04" => {
            check_len();
            let rest = remaining();
            let l = call(|| stack.len()).unwrap_or_else(|m| violation("panic", &m));
            let e = call(|| stack.is_empty()).unwrap_or_else(|m| violation("panic", &m));
            if l as i64 != rest || e != (rest == 0) {
                violation(
                    "quiet-length",
                    &format!("no operation in progress: {} values in the stack, len() = {}, is_empty() = {}", rest, l, e),
                );
            }
            drain(&stack, s);
            let l = call(|| stack.len()).unwrap_or(1);
            if l != 0 {
                violation("quiet-length", &format!("drained stack reports length {}", l));
            }
        }
        _ => {
            let k = match s.c("end") {
                0 => 0,
                1 => 1,
                _ => i64::MAX,
            };
            let mut i = 0;
            while i < k {
                match call(|| stack.try_pop().map(|v| v.get())) {
                    Ok(None) => break,
                    Ok(Some(_)) => {}
                    Err(m) => violation("panic", &strip(&m)),
                }
                i += 1;
            }
            if let Err(m) = call(move || drop(stack)) {
                violation("panic", &strip(&m));
            }
            // let deferred destruction run
            for _ in 0..600 {
                let _ = call(|| crossbeam_epoch::pin().flush());
            }
            let live = tracked::live_count();
            if live != 0 {
                violation(
                    "leak",
                    &format!("{} of {} values never destroyed although the stack is gone", live, unsafe { tracked::CREATED }),
                );
            }
            unsafe {
                let w = simrt::arena::ARENA.watched;
                if w != 0 {
                    violation("leak", &format!("{} stack nodes never released", w));
                }
            }
        }
    }
}
fn remaining() -> i64 {
    unsafe {
        EVS.iter().filter(|e| e.push.is_some()).count() as i64
            - EVS.iter().filter(|e| matches!(e.pop, Some(Some(_)))).count() as i64
    }
}
/// Pop everything: the values left must be exactly those not popped, and order must be consistent
fn drain<T: Item>(stack: &Stack<T>, s: &Spec) {
    let mut left: HashSet<u64> = unsafe { EVS.iter().filter_map(|e| e.push).collect() };
    unsafe {
        for e in EVS.iter() {
            if let Some(Some(v)) = e.pop {
                if !left.remove(&v) {
                    violation("exactly-once", &format!("value {} popped twice or never pushed", v));
                }
            }
        }
    }
    let before = unsafe { EVS.len() };
    loop {
        client(stack, &[op(6000, 98, "pop", 0, 0)]);
        let e = unsafe { EVS.last().unwrap().clone() };
        match e.pop {
            Some(Some(v)) => {
                if !left.remove(&v) {
                    violation("exactly-once", &format!("value {} popped twice or never pushed", v));
                }
            }
            _ => break,
        }
        if unsafe { EVS.len() } - before > 500 {
            violation("exactly-once", "the stack never becomes empty");
        }
    }
    if !left.is_empty() {
        violation("lost-value", &format!("{} pushed values were never returned", left.len()));
    }
    if s.prop == "S01" {
        check_lin();
    }
}
fn check_len() {
    unsafe {
        for e in EVS.iter().filter(|e| e.len.is_some()) {
            let l = e.len.unwrap();
            let pb = EVS.iter().filter(|p| p.push.is_some() && p.inv < e.res).count() as i64;
            let pc = EVS.iter().filter(|p| p.push.is_some() && p.res < e.inv).count() as i64;
            let succ = |p: &&Ev| matches!(p.pop, Some(Some(_)));
            let qb = EVS.iter().filter(succ).filter(|p| p.inv < e.res).count() as i64;
            let qc = EVS.iter().filter(succ).filter(|p| p.res < e.inv).count() as i64;
            let (lo, hi) = (pc - qb, pb - qc);
            let bad = if e.name == "empty" {
                (l == 0 && lo > 0) || (l != 0 && hi <= 0)
            } else {
                l < lo || l > hi
            };
            if bad {
                violation(
                    "absurd-length",
                    &format!(
                        "t{} {} returned {} [{}..{}] while between {} and {} values can be in the stack",
                        e.thr,
                        e.name,
                        shown(e),
                        e.inv,
                        e.res,
                        lo.max(0),
                        hi
                    ),
                );
            }
        }
    }
}
/// Search for a sequential order that explains the recorded history.
fn check_lin() {
    let evs: Vec<Ev> = unsafe {
        EVS.iter().filter(|e| e.push.is_some() || e.name == "pop").cloned().collect()
    };
    // pops that never answered may be left out; so may unanswered pushes
    let n = evs.len();
    if n > 120 {
        return;
    }
    let mut seen: HashSet<(u128, Vec<u64>)> = HashSet::new();
    let need: u128 = (0..n).filter(|i| evs[*i].res != u64::MAX).fold(0, |m, i| m | 1 << i);
    let mut stack: Vec<(u128, Vec<u64>)> = vec![(0, vec![])];
    let mut visited = 0u64;
    while let Some((mask, st)) = stack.pop() {
        if mask & need == need {
            return;
        }
        visited += 1;
        if visited > 400_000 {
            simrt::probe("linearizability search gave up");
            return;
        }
        // earliest response among the operations not yet placed
        let mut first = u64::MAX;
        for i in 0..n {
            if mask >> i & 1 == 0 {
                first = first.min(evs[i].res);
            }
        }
        for i in 0..n {
            if mask >> i & 1 == 1 || evs[i].inv > first {
                continue;
            }
            let e = &evs[i];
            let mut st2 = st.clone();
            if let Some(v) = e.push {
                st2.push(v);
            } else {
                match e.pop {
                    Some(Some(v)) => {
                        if st2.last() != Some(&v) {
                            continue;
                        }
                        st2.pop();
                    }
                    Some(None) => {
                        if !st2.is_empty() {
                            continue;
                        }
                    }
                    None => {
                        // unanswered: takes whatever is on top
                        st2.pop();
                    }
                }
            }
            let k = (mask | 1 << i, st2);
            if seen.insert(k.clone()) {
                stack.push(k);
            }
        }
    }
    let h: Vec<String> =
        evs.iter().map(|e| format!("t{} {}={} [{}..{}]", e.thr, show(e), shown(e), e.inv, e.res as i64)).collect();
    violation("not-linearizable", &h.join("; "));
}
