//! The on-disk B+ tree map: one client, a simulated disk that kills, fails reads, fills up, splits transfers.
use crate::lsm::{Key, Value, BAD};
use crate::*;
use extended_collections::bp_tree::BpMap;
use simrt::rng::{hash3, Rng};
use simrt::sched::{self, S};
use simrt::vfs::{self, Snap, V};
use simrt::{probe, violation};
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---- further key and value kinds ---------------------------------------------------------------------
/// Encoded size, worked out independently of the library.
trait Size {
    fn size(&self) -> u64;
}
macro_rules! fixed {
    ($($t:ty: $n:expr),*) => { $(impl Size for $t { fn size(&self) -> u64 { $n } })* };
}
fixed!(u8: 1, u32: 4, u64: 8, i64: 8, (i32, bool): 5, (u8, u16): 3);
impl Size for String {
    fn size(&self) -> u64 {
        8 + self.len() as u64
    }
}
impl Size for (String,) {
    fn size(&self) -> u64 {
        self.0.size()
    }
}
impl Size for Box<[u32]> {
    fn size(&self) -> u64 {
        8 + 4 * self.len() as u64
    }
}
impl Key for u8 {
    type Q = u8;
    fn of(k: i64) -> u8 {
        k as u8
    }
    fn to(&self) -> i64 {
        *self as i64
    }
}
impl Key for (String,) {
    type Q = (String,);
    fn of(k: i64) -> Self {
        (format!("{:07}", k),)
    }
    fn to(&self) -> i64 {
        self.0.parse().unwrap_or(BAD)
    }
}
impl Value for u8 {
    fn of(v: i64) -> u8 {
        v as u8
    }
    fn to(&self) -> i64 {
        *self as i64
    }
}
impl Value for Box<[u32]> {
    fn of(v: i64) -> Self {
        (0..=(v % 5)).map(|i| (v + i) as u32).collect::<Vec<u32>>().into_boxed_slice()
    }
    fn to(&self) -> i64 {
        let v = self.first().map_or(BAD, |x| *x as i64);
        if v != BAD && simrt::rt(|| <Box<[u32]> as Value>::of(v) == *self) {
            v
        } else {
            BAD
        }
    }
}

type Res<T> = Result<T, String>;
type Pair = (i64, i64);
trait Bp {
    fn ins(&mut self, k: i64, v: i64) -> Res<Option<Pair>>;
    fn rem(&mut self, k: i64) -> Res<Option<Pair>>;
    fn get(&mut self, k: i64) -> Res<Option<i64>>;
    fn has(&mut self, k: i64) -> Res<bool>;
    fn len(&self) -> usize;
    fn empty(&self) -> bool;
    fn clear(&mut self) -> Res<()>;
    fn min(&mut self) -> Res<Option<i64>>;
    fn max(&mut self) -> Res<Option<i64>>;
    /// items and errors in the order the iterator yields them
    fn scan(&mut self, into: bool, errors: usize) -> Res<Vec<Res<Pair>>>;
    fn canon(&self, v: i64) -> i64;
}
fn es<T>(r: extended_collections::bp_tree::Result<T>) -> Res<T> {
    r.map_err(|e| simrt::rt(|| e.to_string()))
}
fn pair<K: Key, U: Value>(p: (K, U)) -> Pair {
    (p.0.to(), p.1.to())
}
struct M<K, U>(BpMap<K, U>);
impl<K: Key, U: Value> Bp for M<K, U> {
    fn ins(&mut self, k: i64, v: i64) -> Res<Option<Pair>> {
        es(self.0.insert(K::of(k), U::of(v)).map(|p| p.map(pair)))
    }
    fn rem(&mut self, k: i64) -> Res<Option<Pair>> {
        es(self.0.remove::<K::Q>(K::of(k).borrow()).map(|p| p.map(pair)))
    }
    fn get(&mut self, k: i64) -> Res<Option<i64>> {
        es(self.0.get::<K::Q>(K::of(k).borrow()).map(|v| v.map(|v| v.to())))
    }
    fn has(&mut self, k: i64) -> Res<bool> {
        es(self.0.contains_key::<K::Q>(K::of(k).borrow()))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn empty(&self) -> bool {
        self.0.is_empty()
    }
    fn clear(&mut self) -> Res<()> {
        es(self.0.clear())
    }
    fn min(&mut self) -> Res<Option<i64>> {
        es(self.0.min().map(|k| k.map(|k| k.to())))
    }
    fn max(&mut self) -> Res<Option<i64>> {
        es(self.0.max().map(|k| k.map(|k| k.to())))
    }
    fn scan(&mut self, into: bool, errors: usize) -> Res<Vec<Res<Pair>>> {
        let it = if into { (&mut self.0).into_iter() } else { es(self.0.iter_mut())? };
        let mut out = simrt::rt(Vec::new);
        let mut bad = 0;
        for x in it {
            let e = x.is_err();
            let x = es(x.map(pair));
            simrt::rt(|| out.push(x));
            bad += e as usize;
            if bad > errors || out.len() > 20_000 {
                break;
            }
        }
        Ok(out)
    }
    fn canon(&self, v: i64) -> i64 {
        U::of(v).to()
    }
}

#[derive(Clone)]
struct Par {
    kind: i64,
    ks: u64,
    vs: u64,
    /// 0: degrees worked out by the library
    leaf: usize,
    internal: usize,
    keys: i64,
    path: String,
}
fn sizes<K: Key + Size, U: Value + Size>(keys: i64, vals: &[i64]) -> (u64, u64) {
    (
        (0..keys).map(|k| K::of(k).size()).max().unwrap_or(1),
        vals.iter().map(|v| U::of(*v).size()).max().unwrap_or(1),
    )
}
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            1 => $f::<String, String>($($a),*),
            2 => $f::<i64, (i32, bool)>($($a),*),
            3 => $f::<u8, u8>($($a),*),
            4 => $f::<u32, Box<[u32]>>($($a),*),
            5 => $f::<(u8, u16), String>($($a),*),
            6 => $f::<(String,), u64>($($a),*),
            _ => $f::<u32, u64>($($a),*),
        }
    };
}
fn build<K: Key + Size, U: Value + Size>(p: &Par, new: bool) -> Res<Box<dyn Bp>> {
    let m = if !new {
        BpMap::<K, U>::open(&p.path)
    } else if p.leaf == 0 {
        BpMap::<K, U>::new(&p.path, p.ks, p.vs)
    } else {
        BpMap::<K, U>::with_degrees(&p.path, p.ks, p.vs, p.leaf, p.internal)
    };
    es(m.map(|m| Box::new(M(m)) as Box<dyn Bp>))
}
impl Par {
    fn of(s: &Spec) -> Par {
        Par {
            kind: s.c("kind"),
            ks: s.c("ks") as u64,
            vs: s.c("vs") as u64,
            leaf: s.c("leaf") as usize,
            internal: s.c("internal") as usize,
            keys: s.c("keys").max(1),
            path: format!("{}/bp", vfs::ROOT),
        }
    }
    /// entries a fresh map holds in one page for certain
    fn one_page(&self) -> usize {
        if self.leaf == 0 {
            3
        } else {
            self.leaf
        }
    }
    fn build(&self, new: bool) -> Res<Box<dyn Bp>> {
        kinds!(self.kind, build, self, new)
    }
}

type Model = BTreeMap<i64, i64>;
struct Span {
    op: u32,
    before: Rc<Model>,
    after: Rc<Model>,
    len: (usize, usize),
    why: &'static str,
}
#[derive(PartialEq, Clone, Copy)]
enum Mode {
    /// no failure expected
    Exact,
    /// reads may fail
    Reads,
    /// disk may be full
    Space,
}
struct D {
    par: Par,
    map: Option<Box<dyn Bp>>,
    mode: Mode,
    m: Model,
    /// the length was left off by a kill inside an operation
    drift: bool,
    /// most entries since creation or clear
    most: usize,
    /// an operation failed half way: nothing is claimed from here on
    over: bool,
    errors: usize,
    spans: Vec<Span>,
    peek: bool,
    grew: bool,
}
fn bad(class: &str, m: String) -> ! {
    violation(class, &strip(&m))
}
fn fired() -> u64 {
    sched::fired_total() + unsafe { V.full_hits }
}
impl D {
    fn new(par: Par, mode: Mode) -> D {
        D {
            par,
            map: None,
            mode,
            m: Model::new(),
            drift: false,
            most: 0,
            over: false,
            errors: 0,
            spans: vec![],
            peek: false,
            grew: false,
        }
    }
    /// One call: panics are violations, and so are errors that nothing was made to cause.
    fn act<T>(&mut self, what: &str, may_fail: bool, f: impl FnOnce(&mut D) -> Res<T>) -> Option<T> {
        let (fi, mu) = (fired(), unsafe { V.mutations });
        match call(|| f(self)) {
            Err(m) => bad("panic", format!("{} panicked: {}", what, m)),
            Ok(Ok(v)) => Some(v),
            Ok(Err(e)) => {
                simrt::hist(|| format!("{} -> error: {}", what, e));
                simrt::trace(0xE44);
                if self.mode == Mode::Exact || !may_fail || fired() == fi {
                    bad("unexpected-error", format!("{} failed although nothing kept it from working: {}", what, e));
                }
                self.errors += 1;
                probe("operations that returned an error");
                if self.mode == Mode::Reads && unsafe { V.mutations } != mu {
                    self.over = true;
                    probe("runs ended by a failure after a change");
                }
                None
            }
        }
    }
    fn make(&mut self, new: bool) {
        let par = self.par.clone();
        let what = if new { "create" } else { "open" };
        let may = self.mode == Mode::Reads && !new;
        if let Some(m) = self.act(what, may, |_| par.build(new)) {
            self.map = Some(m);
            return;
        }
        let on = unsafe { S.io_on };
        unsafe {
            S.io_on = false;
            S.burst_io = (0, 0);
        }
        let par = self.par.clone();
        let e = std::mem::replace(&mut self.mode, Mode::Exact);
        self.map = self.act(what, false, |_| par.build(new));
        self.mode = e;
        unsafe { S.io_on = on };
    }
    fn close(&mut self, kill: bool) {
        if let Some(m) = self.map.take() {
            if kill {
                std::mem::forget(m);
            } else if let Err(m) = call(move || drop(m)) {
                bad("panic", format!("drop panicked: {}", m));
            }
        }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) {
        if got != want {
            bad("wrong-answer", format!("{} is {:?}, must be {:?}", what, got, want));
        }
    }
    fn lens(&mut self, how: &str) {
        let n = self.m.len();
        let r = call(|| {
            let m = self.map.as_ref().unwrap();
            (m.len(), m.empty())
        });
        let (l, e) = match r {
            Ok(x) => x,
            Err(m) => bad("panic", format!("{} len panicked: {}", how, m)),
        };
        simrt::trace(l as u64);
        if !self.drift {
            self.eq(&format!("{} len", how), l, n);
            self.eq(&format!("{} is_empty", how), e, n == 0);
        }
    }
    fn min_max(&mut self, how: &str) {
        let (lo, hi) = (self.m.keys().next().copied(), self.m.keys().next_back().copied());
        if let Some(k) = self.act(&format!("{} min", how), true, |d| d.map.as_mut().unwrap().min()) {
            self.eq(&format!("{} min", how), k, lo);
        }
        if let Some(k) = self.act(&format!("{} max", how), true, |d| d.map.as_mut().unwrap().max()) {
            self.eq(&format!("{} max", how), k, hi);
        }
    }
    fn get(&mut self, k: i64, how: &str) {
        if let Some(v) = self.act(&format!("{} get({})", how, k), true, |d| d.map.as_mut().unwrap().get(k)) {
            simrt::trace(v.unwrap_or(-1) as u64);
            self.eq(&format!("{} get({})", how, k), v, self.m.get(&k).copied());
        }
    }
    /// The entries, if no read failed.
    fn scan(&mut self, how: &str, into: bool) -> Option<Vec<Pair>> {
        let (fi, errors) = (fired(), if self.mode == Mode::Reads { 200 } else { 0 });
        let v = self.act(&format!("{} iteration", how), true, |d| d.map.as_mut().unwrap().scan(into, errors))?;
        let mut out = vec![];
        let mut failed = 0;
        for x in v {
            match x {
                Ok(p) => out.push(p),
                Err(e) => {
                    failed += 1;
                    if self.mode != Mode::Reads || fired() == fi {
                        bad("unexpected-error", format!("{} iteration failed although nothing kept it from working: {}", how, e));
                    }
                    probe("iteration resumed after an error");
                }
            }
        }
        if out.len() > 15_000 {
            bad("wrong-answer", format!("{} iteration does not end", how));
        }
        if failed > errors {
            // given up: a prefix was yielded
            let want: Vec<Pair> = self.m.iter().map(|x| (*x.0, *x.1)).take(out.len()).collect();
            self.eq(&format!("{} iteration (up to the error)", how), &out, &want);
            return None;
        }
        Some(out)
    }
    fn contents(&mut self, how: &str, into: bool) {
        if let Some(v) = self.scan(how, into) {
            let want: Vec<Pair> = self.m.iter().map(|x| (*x.0, *x.1)).collect();
            self.eq(&format!("{} iteration", how), v, want);
        }
    }
    fn verify(&mut self, how: &str) {
        self.contents(how, false);
        for k in 0..self.par.keys.min(60) {
            self.get(k, how);
        }
        self.min_max(how);
        self.lens(how);
    }
    /// What another process would see now.
    fn second(&mut self, how: &str) {
        let mut d = D::new(self.par.clone(), Mode::Exact);
        let st = unsafe { (S.io_on, V.full, V.budget) };
        unsafe {
            if self.mode != Mode::Exact {
                S.io_on = false;
            }
            V.full = false;
            V.budget = -1;
        }
        d.m = self.m.clone();
        d.drift = self.drift;
        d.make(false);
        d.contents(how, false);
        d.lens(how);
        d.min_max(how);
        d.close(false);
        unsafe {
            S.io_on = st.0;
            V.full = st.1;
            V.budget = st.2;
        }
    }
    fn exec(&mut self, o: &Op) {
        sched::set_op(o.id);
        unsafe {
            V.ctx = o.id as i64;
            V.op_pos = 0;
            V.op_multi = false;
        }
        let n = o.name.as_str();
        if n != "get" && n != "has" {
            simrt::hist(|| format!("#{} {} {} {}", o.id, o.name, o.a, o.b));
        }
        match n {
            "ins" | "rem" => {
                let before = Rc::new(self.m.clone());
                let old = self.m.get(&o.a).map(|v| (o.a, *v));
                let one_page = self.most <= self.par.one_page();
                let room = one_page && self.m.len() < self.par.one_page();
                let what = format!("{} {}", n, o.a);
                let (k, v) = (o.a, o.b);
                let r = if n == "ins" {
                    let may = self.mode == Mode::Reads || (old.is_none() && !room);
                    self.act(&what, may, |d| d.map.as_mut().unwrap().ins(k, v))
                } else {
                    let may = self.mode == Mode::Reads;
                    self.act(&what, may, |d| d.map.as_mut().unwrap().rem(k))
                };
                if let Some(r) = r {
                    self.eq(&what, r, old);
                    if n == "ins" {
                        let v = self.map.as_ref().unwrap().canon(v);
                        self.m.insert(k, v);
                    } else {
                        self.m.remove(&k);
                    }
                    self.most = self.most.max(self.m.len());
                    if self.errors > 0 && self.mode == Mode::Space && self.m.len() > before.len() {
                        self.grew = true;
                    }
                    let multi = unsafe { V.op_multi };
                    let why = if n == "ins" && old.is_some() {
                        "replacement"
                    } else if n == "ins" && room {
                        "insertion with room"
                    } else if n == "rem" && one_page {
                        "removal without rebalancing"
                    } else if !multi {
                        "one page changed"
                    } else {
                        ""
                    };
                    self.spans.push(Span {
                        op: o.id,
                        len: (before.len(), self.m.len()),
                        before,
                        after: Rc::new(self.m.clone()),
                        why,
                    });
                } else if self.mode == Mode::Space {
                    probe("insertion refused for lack of space");
                    if !self.drift {
                        self.contents("after the refused insertion", false);
                        self.lens("after the refused insertion");
                        self.second("reopened after the refused insertion");
                    }
                }
            }
            "get" => self.get(o.a, ""),
            "has" => {
                let k = o.a;
                if let Some(b) = self.act("contains_key", true, |d| d.map.as_mut().unwrap().has(k)) {
                    self.eq("contains_key", b, self.m.contains_key(&k));
                }
            }
            "len" => self.lens(""),
            "min" => self.min_max(""),
            "scan" => self.contents("", o.a != 0 && self.mode != Mode::Reads),
            "verify" => self.verify(""),
            "clear" => {
                let st = unsafe { (V.full, V.budget) };
                unsafe {
                    V.full = false;
                    V.budget = -1;
                }
                if self.act("clear", true, |d| d.map.as_mut().unwrap().clear()).is_some() {
                    self.m.clear();
                    self.most = 0;
                    self.drift = false;
                    probe("cleared");
                }
                unsafe {
                    V.full = st.0;
                    V.budget = st.1;
                }
            }
            "again" => {
                // create anew over the same file
                self.close(false);
                let st = unsafe { (V.full, V.budget, S.io_on) };
                unsafe {
                    V.full = false;
                    V.budget = -1;
                    if self.mode != Mode::Exact {
                        S.io_on = false;
                    }
                }
                self.make(true);
                unsafe {
                    V.full = st.0;
                    V.budget = st.1;
                    S.io_on = st.2;
                }
                self.m.clear();
                self.most = 0;
                self.drift = false;
            }
            "reopen" => {
                self.close(o.a == 0);
                self.make(false);
                probe(if o.a == 0 { "killed and reopened" } else { "dropped and reopened" });
                if o.b != 0 {
                    self.verify("after reopen");
                }
            }
            "peek" => self.second("reopened elsewhere"),
            "fon" => unsafe { S.io_on = true },
            "foff" => unsafe {
                S.io_on = false;
                S.burst_io = (0, 0);
            },
            "space" => unsafe { V.budget = o.a },
            _ => {}
        }
        if self.peek && !self.over && matches!(n, "ins" | "rem" | "clear" | "again") {
            self.second(&format!("reopened after {} {}", n, o.a));
        }
        simrt::trace(hash3(0xB0, o.id as u64, self.m.len() as u64));
    }
}

/// Reopen the disk as it was at each recorded kill point inside a single-page update.
fn judge(s: &Spec, d: &D) {
    let snaps: Vec<Snap> = unsafe { std::mem::take(&mut V.snaps) };
    unsafe {
        V.snap_on = false;
        V.snap_seen = 0;
    }
    for sn in snaps {
        let sp = match d.spans.iter().find(|x| x.op as i64 == sn.ctx) {
            Some(x) if !x.why.is_empty() => x,
            _ => continue,
        };
        let mark = sched::mark();
        unsafe { simrt::KILLS.push((sn.key, sn.op, sn.n, sn.torn)) };
        unsafe { *S.fired.entry(sched::F_KILL).or_insert(0) += 1 };
        probe(match sp.why {
            "replacement" => "kill inside a replacement",
            "insertion with room" => "kill inside an insertion with room",
            "removal without rebalancing" => "kill inside a removal without rebalancing",
            _ => "kill inside an operation that changed one page",
        });
        simrt::hist(|| format!("KILL in op {} ({}) at io {}", sn.op, sp.why, sn.n));
        vfs::restore(&sn.image);
        let base = 20_000;
        let mut n = D::new(d.par.clone(), Mode::Exact);
        sched::set_op(base);
        n.make(false);
        let got: Model = {
            let v = n.scan("after the kill", false).unwrap();
            if v.windows(2).any(|w| w[0].0 >= w[1].0) {
                bad("wrong-answer", format!("after the kill: out of order: {:?}", v));
            }
            v.into_iter().collect()
        };
        if got != *sp.before && got != *sp.after {
            bad(
                "torn-update",
                format!("after a kill in op {} ({}): contents {:?}, must be {:?} or {:?}", sn.op, sp.why, got, sp.before, sp.after),
            );
        }
        let l = match call(|| n.map.as_ref().unwrap().len()) {
            Ok(l) => l,
            Err(m) => bad("panic", format!("len panicked: {}", m)),
        };
        if l != sp.len.0 && l != sp.len.1 {
            bad("torn-update", format!("after a kill in op {}: len {}, must be {} or {}", sn.op, l, sp.len.0, sp.len.1));
        }
        n.drift = l != got.len();
        n.m = got;
        n.most = usize::MAX;
        n.verify("after the kill");
        // life goes on
        let mut r = Rng::new(hash3(s.seed, sn.key ^ sn.op as u64, sn.n as u64));
        let m = 1 + r.below(12) as u32;
        for i in 1..=m {
            let k = r.below(d.par.keys as u64) as i64;
            let (nm, a, b) = match r.below(9) {
                0..=3 => ("ins", k, s.c("v0") + r.below(40) as i64),
                4..=6 => ("rem", k, 0),
                7 => ("reopen", r.below(2) as i64, 0),
                _ => ("get", k, 0),
            };
            n.exec(&op(base + i, 0, nm, a, b));
        }
        n.exec(&op(base + m + 1, 0, "reopen", 0, 1));
        n.close(true);
        unsafe { simrt::KILLS.pop() };
        sched::reset(&mark);
        probe("nontrivial");
    }
}

// ---- properties --------------------------------------------------------------------------------------
pub fn info(id: &str) -> Info {
    let rule = match id {
        "B01" => "per run: a random history of 10-400 operations over up to 250 keys with random types, sizes and degrees, killed or dropped and reopened at random points (after every change in some runs); non-trivial: reopened with more entries than one page holds",
        "B02" => "per run: a random history with windows of failing reads and seeks; non-trivial: an operation reported an error and later ones were checked",
        "B03" => "per run: a random history; up to 24 kill points between the system calls of single-page updates are reopened and checked; non-trivial: such a kill point was judged",
        "F01" => "per run: a random history on either on-disk map with partial and interrupted transfers throughout; non-trivial: a transfer was cut short or interrupted",
        _ => "per run: a random history while space runs out after 0-3 more blocks or extensions and comes back; non-trivial: an insertion was refused and a later one succeeded",
    };
    Info {
        rule,
        level: if id == "B03" { "fault_enumeration" } else { "exploration" },
        real: REAL,
        stub: STUB,
        assumptions: vec![
            "one client uses a map at a time (the API takes &mut self)",
            "a process kill preserves every completed system call",
        ],
    }
}
pub fn gen(s: &mut Spec, r: &mut Rng, thorough: bool, i: u64) {
    let p = s.prop.clone();
    let set = |s: &mut Spec, k: &str, v: i64| {
        s.cfg.insert(k.into(), v);
    };
    set(s, "policy", 0);
    let kind = *r.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6]);
    let mut n = match r.below(6) {
        0 => 3 + r.below(15),
        1 | 2 => 10 + r.below(60),
        _ => 60 + r.below(240),
    };
    if thorough && r.below(3) == 0 {
        n *= 2;
    }
    let keys = match r.below(4) {
        0 => 2 + r.below(6),
        1 => 4 + r.below(30),
        _ => 30 + r.below(200),
    } as i64;
    // values: a small range, so that sizes are known
    let v0 = *r.pick(&[0i64, 1, 13, 600, 70_000]);
    let v0 = if kind == 3 { v0 % 200 } else { v0 };
    let vals: Vec<i64> = (v0..v0 + 50).collect();
    let (ks, vs) = kinds!(kind, sizes, keys, &vals);
    let slack = *r.pick(&[0, 0, 0, 1, 7]);
    let (mut ks, mut vs) = (ks + slack, vs + slack);
    if r.below(4) == 0 {
        // degrees chosen by the library: declare more than is used so that they stay small
        ks = ks.max(200 + r.below(250));
        vs = vs.max(100 + r.below(1300 - ks - 100));
        set(s, "leaf", 0);
        set(s, "internal", 0);
    } else {
        let cap = |want: u64, per: u64| want.min((4096 - 40) / per).max(3) as i64;
        let (x, y) = (*r.pick(&[18, 4, 4]), *r.pick(&[7, 2, 2]));
        let (a, b) = (3 + r.below(x), 3 + r.below(y));
        set(s, "leaf", cap(a, ks + vs + 9));
        set(s, "internal", cap(b, ks + 17));
    }
    set(s, "kind", kind);
    set(s, "keys", keys);
    set(s, "v0", v0);
    set(s, "ks", ks as i64);
    set(s, "vs", vs as i64);
    let mut w: Vec<(&str, u64)> = vec![
        ("get", r.below(6)),
        ("has", r.below(3)),
        ("len", r.below(3)),
        ("min", r.below(4)),
        ("scan", r.below(4)),
    ];
    if r.below(5) == 0 {
        w.push(("clear", 1));
    }
    if r.below(10) == 0 {
        w.push(("again", 1));
    }
    match p.as_str() {
        "B01" => {
            w.push(("reopen", 1 + r.below(4)));
            w.push(("peek", r.below(4)));
            set(s, "peek", (r.below(4) == 0) as i64);
        }
        "B02" => {
            w.push(("reopen", r.below(2)));
            w.push(("fon", 2 + r.below(4)));
            w.push(("foff", 2 + r.below(4)));
            set(s, "io_kinds", 1 << sched::F_EIO);
            set(s, "io_classes", (1 << 2) | (1 << 4));
            set(s, "io_den", *r.pick(&[3, 8, 20, 50]));
            set(s, "io_burst", *r.pick(&[1, 1, 6]));
        }
        "B03" => {
            set(s, "snap_max", 24);
            w.push(("reopen", r.below(2)));
        }
        "F01" => {
            w.push(("reopen", 1 + r.below(3)));
            set(s, "io_kinds", *r.pick(&[1 << sched::F_SHORT, 1 << sched::F_EINTR, (1 << sched::F_SHORT) | (1 << sched::F_EINTR)]));
            set(s, "io_den", *r.pick(&[2, 3, 6, 20]));
            set(s, "io_burst", *r.pick(&[1, 5, 30]));
        }
        _ => {
            w.push(("reopen", 1 + r.below(3)));
            w.push(("space", 3 + r.below(8)));
            set(s, "sparse", r.below(2) as i64);
        }
    }
    let edit: u64 = 20 + r.below(40);
    let total: u64 = w.iter().map(|x| x.1).sum::<u64>() + edit;
    // the map grows and shrinks in phases, in some key order
    let mut phase = 0;
    let mut grow = 85;
    let mut order = 0;
    let mut cur = 0i64;
    for i in 0..n {
        if phase == 0 {
            phase = 5 + r.below(120);
            grow = if i == 0 { 85 } else { *r.pick(&[10, 25, 50, 70, 90]) };
            order = r.below(5);
            cur = r.below(keys as u64) as i64;
        }
        phase -= 1;
        let id = i as u32 + 1;
        let mut x = r.below(total);
        let mut nm = "";
        for (a, b) in &w {
            if x < *b {
                nm = a;
                break;
            }
            x -= b;
        }
        let k = match order {
            0 => {
                cur = (cur + 1) % keys;
                cur
            }
            1 => {
                cur = (cur + keys - 1) % keys;
                cur
            }
            _ => r.below(keys as u64) as i64,
        };
        let (nm, a, b) = match nm {
            "" => {
                if r.below(100) < grow {
                    ("ins", k, v0 + r.below(50) as i64)
                } else {
                    ("rem", k, 0)
                }
            }
            "get" | "has" => (nm, k, 0),
            "scan" => (nm, r.below(2) as i64, 0),
            "reopen" => (nm, r.below(2) as i64, r.below(2) as i64),
            "space" => (nm, *r.pick(&[-1, 0, 0, 1, 2, 3]), 0),
            _ => (nm, 0, 0),
        };
        s.ops.push(op(id, 0, nm, a, b));
    }
    let _ = i;
}
pub fn run(s: &Spec) {
    let p = s.prop.as_str();
    let mode = match p {
        "B02" => Mode::Reads,
        "B04" => Mode::Space,
        _ => Mode::Exact,
    };
    let mut d = D::new(Par::of(s), mode);
    d.peek = s.c("peek") != 0;
    unsafe { S.io_on = p == "F01" };
    sched::set_op(0);
    d.make(true);
    let kills = s.c("snap_max") > 0;
    let mut deep = false;
    for o in &s.ops {
        unsafe { V.snap_on = kills && matches!(o.name.as_str(), "ins" | "rem") };
        d.exec(o);
        if o.name == "reopen" && d.m.len() > d.par.one_page() {
            deep = true;
        }
        if d.over {
            break;
        }
    }
    unsafe {
        V.snap_on = false;
        V.budget = -1;
        if p != "F01" {
            S.io_on = false;
            S.burst_io = (0, 0);
        }
    }
    sched::set_op(15_000);
    if !d.over {
        d.mode = Mode::Exact;
        d.verify("at the end");
        d.exec(&op(15_001, 0, "reopen", 0, 1));
        // and keeps working
        for k in 0..d.par.keys.min(12) {
            d.exec(&op(15_010 + k as u32, 0, "ins", k, s.c("v0")));
        }
        for k in 0..d.par.keys.min(6) {
            d.exec(&op(15_030 + k as u32, 0, "rem", k, 0));
        }
        d.exec(&op(15_050, 0, "reopen", 0, 1));
    }
    match p {
        "B01" if deep => probe("nontrivial"),
        "B02" if d.errors > 0 => probe("nontrivial"),
        "B04" if d.grew => probe("nontrivial"),
        "F01" if sched::fired_total() > 0 => probe("nontrivial"),
        _ => {}
    }
    d.close(false);
    if kills {
        judge(s, &d);
    }
}
