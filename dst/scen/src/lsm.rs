//! The log-structured map: one client (the root thread) against background compaction threads.
use crate::*;
use extended_collections::lsm_tree::compaction::{CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::LsmMap;
use serde::de::DeserializeOwned;
use serde::Serialize;
use simrt::rng::{hash3, Rng};
use simrt::sched::{self, S};
use simrt::vfs::{self, Snap, V};
use simrt::{probe, violation};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hash;
use std::rc::Rc;

// ---- key and value kinds -----------------------------------------------------------------------------
pub trait Key: Clone + Ord + Hash + Serialize + DeserializeOwned + Send + Sync + Borrow<Self::Q> + 'static {
    type Q: Ord + Hash + ?Sized;
    fn of(k: i64) -> Self;
    fn to(&self) -> i64;
}
pub trait Value: Clone + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn of(v: i64) -> Self;
    fn to(&self) -> i64;
}
pub const BAD: i64 = i64::MIN;
impl Key for u32 {
    type Q = u32;
    fn of(k: i64) -> u32 {
        k as u32 * 3
    }
    fn to(&self) -> i64 {
        if self % 3 == 0 {
            (*self / 3) as i64
        } else {
            BAD
        }
    }
}
impl Key for i64 {
    type Q = i64;
    fn of(k: i64) -> i64 {
        (k - 7) << 33
    }
    fn to(&self) -> i64 {
        (*self >> 33) + 7
    }
}
impl Key for (u8, u16) {
    type Q = (u8, u16);
    fn of(k: i64) -> Self {
        ((k / 4) as u8, (k % 4) as u16)
    }
    fn to(&self) -> i64 {
        self.0 as i64 * 4 + self.1 as i64
    }
}
impl Key for String {
    type Q = str;
    fn of(k: i64) -> String {
        let mut s = format!("{:04}", k);
        for _ in 0..(k % 3) * 11 {
            s.push('k');
        }
        s
    }
    fn to(&self) -> i64 {
        match self.get(..4).and_then(|s| s.parse().ok()) {
            Some(k) if <String as Key>::of(k) == *self => k,
            _ => BAD,
        }
    }
}
impl Value for u64 {
    fn of(v: i64) -> u64 {
        v as u64
    }
    fn to(&self) -> i64 {
        *self as i64
    }
}
impl Value for (i32, bool) {
    fn of(v: i64) -> Self {
        (-(v as i32), v % 2 == 0)
    }
    fn to(&self) -> i64 {
        let v = -(self.0 as i64);
        if (v % 2 == 0) == self.1 {
            v
        } else {
            BAD
        }
    }
}
impl Value for String {
    fn of(v: i64) -> String {
        let mut s = format!("v{}", v);
        for i in 0..(v % 7) * 13 {
            s.push((b'a' + ((v + i) % 26) as u8) as char);
        }
        s
    }
    fn to(&self) -> i64 {
        let n: String = self.chars().skip(1).take_while(|c| c.is_ascii_digit()).collect();
        match n.parse() {
            Ok(v) if <String as Value>::of(v) == *self => v,
            _ => BAD,
        }
    }
}
impl Value for Vec<u8> {
    fn of(v: i64) -> Vec<u8> {
        let mut o = (v as u32).to_le_bytes().to_vec();
        let n = (v as u64).wrapping_mul(7919) % 2500;
        let n = if v % 4 == 0 { n * 4 } else { n / 8 };
        o.extend((0..n).map(|i| (v as u64 * 31 + i * 7) as u8));
        o
    }
    fn to(&self) -> i64 {
        if self.len() < 4 {
            return BAD;
        }
        let v = u32::from_le_bytes([self[0], self[1], self[2], self[3]]) as i64;
        if simrt::rt(|| <Vec<u8> as Value>::of(v) == *self) {
            v
        } else {
            BAD
        }
    }
}

type Res<T> = Result<T, String>;
type It = Box<dyn Iterator<Item = Res<(i64, i64)>>>;
pub trait Lsm {
    fn ins(&mut self, k: i64, v: i64) -> Res<()>;
    fn rem(&mut self, k: i64) -> Res<()>;
    fn get(&mut self, k: i64) -> Res<Option<i64>>;
    fn has(&mut self, k: i64) -> Res<bool>;
    fn len(&mut self) -> Res<usize>;
    fn empty(&mut self) -> Res<bool>;
    fn hint(&mut self) -> Res<usize>;
    fn min(&mut self) -> Res<Option<i64>>;
    fn max(&mut self) -> Res<Option<i64>>;
    fn flush(&mut self) -> Res<()>;
    fn clear(&mut self) -> Res<()>;
    fn iter(&mut self) -> Res<It>;
}
fn es<T>(r: extended_collections::lsm_tree::Result<T>) -> Res<T> {
    r.map_err(|e| simrt::rt(|| e.to_string()))
}
struct M<K, U, C>(LsmMap<K, U, C>);
impl<K: Key, U: Value, C: CompactionStrategy<K, U>> Lsm for M<K, U, C> {
    fn ins(&mut self, k: i64, v: i64) -> Res<()> {
        es(self.0.insert(K::of(k), U::of(v)))
    }
    fn rem(&mut self, k: i64) -> Res<()> {
        es(self.0.remove(K::of(k)))
    }
    fn get(&mut self, k: i64) -> Res<Option<i64>> {
        es(self.0.get::<K::Q>(K::of(k).borrow()).map(|v| v.map(|v| v.to())))
    }
    fn has(&mut self, k: i64) -> Res<bool> {
        es(self.0.contains_key::<K::Q>(K::of(k).borrow()))
    }
    fn len(&mut self) -> Res<usize> {
        es(self.0.len())
    }
    fn empty(&mut self) -> Res<bool> {
        es(self.0.is_empty())
    }
    fn hint(&mut self) -> Res<usize> {
        es(self.0.len_hint())
    }
    fn min(&mut self) -> Res<Option<i64>> {
        es(self.0.min().map(|k| k.map(|k| k.to())))
    }
    fn max(&mut self) -> Res<Option<i64>> {
        es(self.0.max().map(|k| k.map(|k| k.to())))
    }
    fn flush(&mut self) -> Res<()> {
        es(self.0.flush())
    }
    fn clear(&mut self) -> Res<()> {
        es(self.0.clear())
    }
    fn iter(&mut self) -> Res<It> {
        let it = es(self.0.iter())?;
        Ok(Box::new(it.map(|r| es(r.map(|(k, v)| (k.to(), v.to()))))))
    }
}

// ---- parameters --------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Par {
    leveled: bool,
    kind: i64,
    mem: u64,
    cnt: usize,
    p1: u64,
    p2: i64,
    p3: i64,
    path: String,
    keys: i64,
}
impl Par {
    fn of(s: &Spec) -> Par {
        let mut path = format!("{}/s", vfs::ROOT);
        for _ in 0..s.c("pathlen") {
            path.push('p');
        }
        Par {
            leveled: s.c("leveled") != 0,
            kind: s.c("kind"),
            mem: s.c("mem") as u64,
            cnt: s.c("cnt") as usize,
            p1: s.c("p1") as u64,
            p2: s.c("p2"),
            p3: s.c("p3"),
            path,
            keys: s.c("keys").max(1),
        }
    }
    fn make<K: Key, U: Value>(&self, new: bool) -> Res<Box<dyn Lsm>> {
        if self.leveled {
            let st = if new {
                LeveledStrategy::<K, U>::new(
                    &self.path,
                    self.mem,
                    self.cnt,
                    self.p1,
                    self.p2.max(1) as usize,
                    self.p3.max(1) as u64,
                )
            } else {
                LeveledStrategy::<K, U>::open(&self.path)
            };
            es(st.map(|s| Box::new(M(LsmMap::new(s))) as Box<dyn Lsm>))
        } else {
            let st = if new {
                SizeTieredStrategy::<K, U>::new(
                    &self.path,
                    self.mem,
                    self.cnt,
                    self.p1,
                    self.p2 as f64 / 100.0,
                    self.p3 as f64 / 100.0,
                )
            } else {
                SizeTieredStrategy::<K, U>::open(&self.path)
            };
            es(st.map(|s| Box::new(M(LsmMap::new(s))) as Box<dyn Lsm>))
        }
    }
    fn build(&self, new: bool) -> Res<Box<dyn Lsm>> {
        match self.kind {
            1 => self.make::<String, String>(new),
            2 => self.make::<i64, Vec<u8>>(new),
            3 => self.make::<(u8, u16), (i32, bool)>(new),
            _ => self.make::<u32, u64>(new),
        }
    }
    fn dirs(&self, im: &vfs::Image) -> Vec<String> {
        let rel = &self.path[vfs::ROOT.len()..];
        im.list(rel).into_iter().filter(|(_, d)| *d).map(|(n, _)| n).collect()
    }
}

type Model = BTreeMap<i64, i64>;
type Poss = BTreeMap<i64, BTreeSet<Option<i64>>>;

struct Slot {
    id: i64,
    it: It,
    want: Vec<(i64, i64)>,
    pos: usize,
    dead: bool,
}
struct Span {
    op: u32,
    lo: usize,
    hi: usize,
}
struct D {
    par: Par,
    prop: String,
    map: Option<Box<dyn Lsm>>,
    /// no failures are being injected: every error is a violation
    exact: bool,
    poss: Poss,
    dur: Poss,
    states: Vec<Rc<Model>>,
    acked: usize,
    iters: Vec<Slot>,
    spans: Vec<Span>,
    reopened: bool,
    /// dropped with unflushed state: a compaction's output may have been left behind
    dirty: bool,
    cleared: bool,
    ever_failed: bool,
    seed: u64,
    /// failures that hit compaction threads, as of the last successful flush
    bg_seen: usize,
}
fn fired() -> u64 {
    sched::fired_total() + unsafe { V.full_hits }
}
fn bg_fired() -> usize {
    unsafe { S.faults.iter().filter(|f| f.key != 1).count() + V.full_hits_bg as usize }
}
enum Out<T> {
    Ok(T),
    Err(String),
}
fn bad(class: &str, m: String) -> ! {
    violation(class, &strip(&m))
}
impl D {
    fn new(par: Par, prop: &str, exact: bool, seed: u64) -> D {
        D {
            par,
            prop: prop.into(),
            map: None,
            exact,
            poss: BTreeMap::new(),
            dur: BTreeMap::new(),
            states: vec![Rc::new(Model::new())],
            acked: 0,
            iters: vec![],
            spans: vec![],
            reopened: false,
            dirty: false,
            cleared: false,
            ever_failed: false,
            seed,
            bg_seen: 0,
        }
    }
    /// Run one call of the map; panics are violations, errors too unless failures are being injected.
    fn act<T>(&mut self, what: &str, f: impl FnOnce(&mut D) -> Res<T>) -> Out<T> {
        let before = fired();
        let r = call(|| f(self));
        match r {
            Err(m) => bad("panic", format!("{} panicked: {}", what, m)),
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(e)) => {
                simrt::hist(|| format!("{} -> error: {}", what, e));
                simrt::trace(0xE44);
                if self.exact {
                    bad("unexpected-error", format!("{} failed although nothing was made to fail: {}", what, e));
                }
                self.ever_failed = true;
                probe("operations that returned an error");
                if fired() == before && bg_fired() == self.bg_seen {
                    bad("unexpected-error", format!("{} failed although nothing was made to fail: {}", what, e));
                }
                Out::Err(e)
            }
        }
    }
    fn set(&self, k: i64) -> BTreeSet<Option<i64>> {
        self.poss.get(&k).cloned().unwrap_or_else(|| std::iter::once(None).collect())
    }
    fn observe(&mut self, k: i64, v: Option<i64>, how: &str) {
        let s = self.set(k);
        if !s.contains(&v) {
            bad("wrong-answer", format!("{}: key {} is {:?}, but must be {}", how, k, v, fmt_set(&s)));
        }
        if s.len() > 1 {
            self.poss.insert(k, std::iter::once(v).collect());
        }
    }
    fn assign(&mut self, k: i64, v: Option<i64>, sure: bool) {
        let s = self.poss.entry(k).or_insert_with(|| std::iter::once(None).collect());
        if sure {
            s.clear();
        }
        s.insert(v);
        self.dur.entry(k).or_insert_with(|| std::iter::once(None).collect()).insert(v);
        if self.exact {
            let mut m = (**self.states.last().unwrap()).clone();
            match v {
                Some(x) => {
                    m.insert(k, x);
                }
                None => {
                    m.remove(&k);
                }
            }
            self.states.push(Rc::new(m));
        }
    }
    fn count_range(&self) -> (usize, usize) {
        let lo = self.poss.values().filter(|s| !s.contains(&None)).count();
        let hi = self.poss.values().filter(|s| s.iter().any(|v| v.is_some())).count();
        (lo, hi)
    }
    fn new_map(&mut self) {
        let par = self.par.clone();
        let ex = self.exact;
        self.exact = true;
        match self.act("create", |_| par.build(true)) {
            Out::Ok(m) => self.map = Some(m),
            Out::Err(_) => unreachable!(),
        }
        self.exact = ex;
    }
    fn drop_map(&mut self) {
        self.drop_iters();
        if let Some(m) = self.map.take() {
            if let Err(m) = call(move || drop(m)) {
                bad("panic", format!("drop panicked: {}", m));
            }
        }
    }
    fn drop_iters(&mut self) {
        for s in std::mem::take(&mut self.iters) {
            if let Err(m) = call(move || drop(s.it)) {
                bad("panic", format!("dropping an iterator panicked: {}", m));
            }
        }
    }
    fn open(&mut self) -> bool {
        let par = self.par.clone();
        match self.act("open", |_| par.build(false)) {
            Out::Ok(m) => {
                self.map = Some(m);
                true
            }
            Out::Err(_) => false,
        }
    }
    /// The contents, by iteration
    fn scan(&mut self, how: &str) -> Option<Vec<(i64, i64)>> {
        let it = match self.act(&format!("{} iter", how), |d| d.map.as_mut().unwrap().iter()) {
            Out::Ok(it) => it,
            Out::Err(_) => return None,
        };
        let mut it = Some(it);
        let mut v: Vec<(i64, i64)> = vec![];
        let mut failed = false;
        loop {
            let r = self.act(&format!("{} iteration", how), |_| match it.as_mut().unwrap().next() {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(x)),
                Some(Err(e)) => Err(e),
            });
            match r {
                Out::Ok(None) => break,
                Out::Ok(Some(x)) => v.push(x),
                Out::Err(_) => {
                    failed = true;
                    break;
                }
            }
            if v.len() > 4000 {
                bad("wrong-answer", format!("{}: iteration does not end", how));
            }
        }
        if let Err(m) = call(move || drop(it)) {
            bad("panic", format!("dropping an iterator panicked: {}", m));
        }
        for w in v.windows(2) {
            if w[0].0 >= w[1].0 {
                bad("wrong-answer", format!("{}: iteration yields key {} after {}", how, w[1].0, w[0].0));
            }
        }
        if failed {
            // what was yielded must be right
            if let Some(last) = v.last().map(|x| x.0) {
                self.check_contents(&v, how, Some(last));
            }
            return None;
        }
        Some(v)
    }
    fn check_contents(&mut self, v: &[(i64, i64)], how: &str, upto: Option<i64>) {
        let got: Model = v.iter().copied().collect();
        let ks: BTreeSet<i64> = self.poss.keys().chain(got.keys()).copied().collect();
        for k in ks {
            if upto.map_or(false, |u| k > u) {
                break;
            }
            self.observe(k, got.get(&k).copied(), how);
        }
    }
    /// every read agrees with the model
    fn verify(&mut self, how: &str) {
        if let Some(v) = self.scan(how) {
            simrt::hist(|| format!("{} contents {:?}", how, v));
            self.check_contents(&v, how, None);
        }
        for k in 0..self.par.keys {
            self.get(k, how);
        }
        self.min_max(true, how);
        self.min_max(false, how);
        self.len(how);
        self.hint(how);
    }
    fn get(&mut self, k: i64, how: &str) {
        if let Out::Ok(v) = self.act(&format!("{} get({})", how, k), |d| d.map.as_mut().unwrap().get(k)) {
            simrt::trace(v.unwrap_or(-1) as u64);
            self.observe(k, v, &format!("{} get", how));
        }
    }
    fn min_max(&mut self, min: bool, how: &str) {
        let what = format!("{} {}", how, if min { "min" } else { "max" });
        let r = self.act(&what, |d| {
            let m = d.map.as_mut().unwrap();
            if min {
                m.min()
            } else {
                m.max()
            }
        });
        if let Out::Ok(r) = r {
            simrt::trace(r.unwrap_or(-1) as u64);
            let ks: Vec<i64> = self.poss.keys().copied().collect();
            for k in ks {
                let beyond = match r {
                    None => true,
                    Some(m) => (min && k < m) || (!min && k > m),
                };
                let s = self.set(k);
                if beyond {
                    if !s.contains(&None) {
                        bad("wrong-answer", format!("{} is {:?} although key {} is {}", what, r, k, fmt_set(&s)));
                    }
                    self.poss.insert(k, std::iter::once(None).collect());
                }
            }
            if let Some(m) = r {
                let mut s = self.set(m);
                s.remove(&None);
                if s.is_empty() {
                    bad("wrong-answer", format!("{} is key {}, which is not present", what, m));
                }
                self.poss.insert(m, s);
            }
        }
    }
    fn len(&mut self, how: &str) {
        if let Out::Ok(n) = self.act(&format!("{} len", how), |d| d.map.as_mut().unwrap().len()) {
            let (lo, hi) = self.count_range();
            simrt::trace(n as u64);
            if n < lo || n > hi {
                bad("wrong-answer", format!("{} len is {}, must be {}..{}", how, n, lo, hi));
            }
        }
    }
    fn hint(&mut self, how: &str) {
        if let Out::Ok(n) = self.act(&format!("{} len_hint", how), |d| d.map.as_mut().unwrap().hint()) {
            let (lo, _) = self.count_range();
            if n < lo {
                bad("wrong-answer", format!("{} len_hint is {} with at least {} entries", how, n, lo));
            }
        }
    }
    fn flush(&mut self) -> bool {
        match self.act("flush", |d| d.map.as_mut().unwrap().flush()) {
            Out::Ok(()) => {
                self.acked = self.states.len() - 1;
                self.dur = self.poss.clone();
                self.bg_seen = bg_fired();
                true
            }
            Out::Err(_) => false,
        }
    }
    fn reopen(&mut self) {
        self.drop_map();
        self.reopened = true;
        self.dirty |= self.acked != self.states.len() - 1;
        if sched::others() > 0 {
            probe("reopened while a compaction thread was running");
        }
        if !self.open() {
            // with failures off it must work
            let on = unsafe { (S.io_on, V.full) };
            unsafe {
                S.io_on = false;
                V.full = false;
                S.burst_io = (0, 0);
            }
            let e = self.exact;
            self.exact = true;
            self.open();
            self.exact = e;
            unsafe {
                S.io_on = on.0;
                V.full = on.1;
            }
        }
        if self.exact {
            if self.acked == self.states.len() - 1 {
                probe("reopened after a flush");
                return;
            }
            probe("reopened without a flush");
            let lo = self.acked;
            let hi = self.states.len() - 1;
            self.adopt(lo, hi, "after reopen");
        } else {
            self.poss = self.dur.clone();
        }
    }
    /// The contents must be one of the states lo..=hi; continue from it.
    fn adopt(&mut self, lo: usize, hi: usize, how: &str) {
        let e = self.exact;
        self.exact = true;
        let v: Model = self.scan(how).unwrap().into_iter().collect();
        self.exact = e;
        let m = (lo..=hi).rev().find(|j| *self.states[*j] == v);
        match m {
            Some(_) => {
                self.states.push(Rc::new(v.clone()));
                self.acked = self.states.len() - 1;
                self.poss = v.iter().map(|(k, x)| (*k, std::iter::once(Some(*x)).collect())).collect();
                self.dur = self.poss.clone();
            }
            None => {
                let first = &self.states[lo];
                let last = &self.states[hi];
                bad(
                    "lost-data",
                    format!(
                        "{}: contents {:?} match no state between the last acknowledged flush {:?} and the latest state {:?}",
                        how, v, first, last
                    ),
                );
            }
        }
    }
    fn exec(&mut self, o: &Op) {
        sched::set_op(o.id);
        unsafe { V.ctx = o.id as i64 };
        let lo = self.acked;
        let n = o.name.as_str();
        if !matches!(n, "get" | "has") {
            simrt::hist(|| format!("#{} {} {} {}", o.id, o.name, o.a, o.b));
        }
        match n {
            "ins" => {
                let (k, v) = (o.a, o.b);
                let r = self.act(&format!("insert({}, {})", k, v), |d| d.map.as_mut().unwrap().ins(k, v));
                self.assign(k, Some(v), matches!(r, Out::Ok(_)));
            }
            "rem" => {
                let k = o.a;
                let r = self.act(&format!("remove({})", k), |d| d.map.as_mut().unwrap().rem(k));
                self.assign(k, None, matches!(r, Out::Ok(_)));
            }
            "get" => self.get(o.a, ""),
            "has" => {
                let k = o.a;
                if let Out::Ok(b) = self.act("contains_key", |d| d.map.as_mut().unwrap().has(k)) {
                    let mut s = self.set(k);
                    s.retain(|v| v.is_some() == b);
                    if s.is_empty() {
                        bad("wrong-answer", format!("contains_key({}) is {}, must be {}", k, b, fmt_set(&self.set(k))));
                    }
                    self.poss.insert(k, s);
                }
            }
            "min" => self.min_max(true, ""),
            "max" => self.min_max(false, ""),
            "len" => self.len(""),
            "hint" => self.hint(""),
            "empty" => {
                if let Out::Ok(b) = self.act("is_empty", |d| d.map.as_mut().unwrap().empty()) {
                    let (lo, hi) = self.count_range();
                    if (b && lo > 0) || (!b && hi == 0) {
                        bad("wrong-answer", format!("is_empty is {} with {}..{} entries", b, lo, hi));
                    }
                }
            }
            "scan" => {
                if let Some(v) = self.scan("") {
                    self.check_contents(&v, "iteration", None);
                }
            }
            "verify" => self.verify(""),
            "flush" => {
                self.flush();
                if self.prop == "L06" && !self.dirty && self.iters.is_empty() {
                    self.no_garbage();
                }
            }
            "settle" => sched::wait_quiet(),
            "clear" => {
                let iters = !self.iters.is_empty();
                if iters {
                    self.drop_iters();
                }
                if sched::others() > 0 {
                    probe("clear while a compaction thread was running");
                }
                let r = self.act("clear", |d| d.map.as_mut().unwrap().clear());
                if let Out::Ok(()) = r {
                    self.poss.clear();
                    self.dur.clear();
                    self.cleared = true;
                    if self.exact {
                        self.states.push(Rc::new(Model::new()));
                        self.acked = self.states.len() - 1;
                    }
                } else {
                    for s in self.poss.values_mut().chain(self.dur.values_mut()) {
                        s.insert(None);
                    }
                }
            }
            "reopen" => {
                if o.a != 0 {
                    self.flush();
                }
                self.reopen();
                if o.b != 0 {
                    self.verify("after reopen");
                }
            }
            "fon" => unsafe { S.io_on = true },
            "foff" => unsafe {
                S.io_on = false;
                S.burst_io = (0, 0);
            },
            "full" => unsafe { V.full = o.a != 0 },
            "inew" => {
                if self.iters.len() < 4 {
                    if let Out::Ok(it) = self.act("iter", |d| d.map.as_mut().unwrap().iter()) {
                        let want = self.sure();
                        self.iters.push(Slot { id: o.a, it, want, pos: 0, dead: false });
                        if self.iters.len() > 1 {
                            probe("several live iterators");
                        }
                    }
                }
            }
            "istep" => {
                for _ in 0..o.b.max(1) {
                    self.step(o.a);
                }
            }
            "idrop" => {
                if let Some(i) = self.iters.iter().position(|s| s.id == o.a) {
                    let s = self.iters.remove(i);
                    if let Err(m) = call(move || drop(s.it)) {
                        bad("panic", format!("dropping an iterator panicked: {}", m));
                    }
                }
            }
            "quiet" => self.progress(o.a as usize, o.b as usize),
            _ => {}
        }
        let hi = self.states.len() - 1;
        self.spans.push(Span { op: o.id, lo: lo.min(hi), hi });
        simrt::trace(hash3(0xD0, o.id as u64, self.states.len() as u64));
    }
    /// contents when they are certain
    fn sure(&self) -> Vec<(i64, i64)> {
        self.poss.iter().filter_map(|(k, s)| s.iter().next().unwrap().map(|v| (*k, v))).collect()
    }
    fn step(&mut self, id: i64) {
        let i = match self.iters.iter().position(|s| s.id == id) {
            Some(i) if !self.iters[i].dead => i,
            _ => return,
        };
        let r = self.act("iterator step", |d| match d.iters[i].it.next() {
            None => Ok(None),
            Some(Ok(x)) => Ok(Some(x)),
            Some(Err(e)) => Err(e),
        });
        let s = &mut self.iters[i];
        match r {
            Out::Ok(x) => {
                let want = s.want.get(s.pos).copied();
                if self.exact && x != want {
                    bad(
                        "wrong-answer",
                        format!("iterator {} yields {:?}, its snapshot has {:?} at position {}", id, x, want, s.pos),
                    );
                }
                if x.is_some() {
                    s.pos += 1;
                }
            }
            Out::Err(_) => s.dead = true,
        }
    }
    fn no_garbage(&mut self) {
        let im = vfs::image();
        let rel = self.par.path[vfs::ROOT.len()..].to_string();
        let dirs = self.par.dirs(&im);
        let files: Vec<Vec<u8>> = im
            .list(&rel)
            .into_iter()
            .filter(|(_, d)| !*d)
            .filter_map(|(n, _)| im.read_file(&format!("{}/{}", rel, n)))
            .collect();
        probe("folder inspected after a flush");
        if dirs.len() > 1 {
            probe("nontrivial");
        }
        for d in &dirs {
            let named = files.iter().any(|f| f.windows(d.len()).any(|w| w == d.as_bytes()));
            if named {
                continue;
            }
            // not mentioned anywhere: is it used all the same? open a copy of the store without it
            let mut cut = im.clone();
            cut.remove_tree(&format!("{}/{}", rel, d));
            let par = self.par.clone();
            vfs::swap_image(&cut);
            unsafe { S.frozen = true };
            let used = match call(|| par.build(false)) {
                Ok(Ok(m)) => {
                    let want = self.sure();
                    let mut probe_d = D::new(par.clone(), "", false, 0);
                    probe_d.map = Some(m);
                    probe_d.poss = self.poss.clone();
                    let got = probe_d.scan("copy");
                    probe_d.drop_map();
                    got.map_or(true, |g| g != want)
                }
                _ => true,
            };
            unsafe { S.frozen = false };
            vfs::swap_image(&im);
            if !used {
                bad(
                    "unused-table",
                    format!("after a flush the folder holds {} tables; {} is used by nothing", dirs.len(), d),
                );
            }
        }
    }
    /// Failures have stopped and no iterator is alive: flushing repeatedly must not grow the folder.
    fn progress(&mut self, rounds: usize, bound: usize) {
        self.drop_iters();
        unsafe {
            S.io_on = false;
            S.burst_io = (0, 0);
            V.full = false;
        }
        let e = self.exact;
        self.exact = true;
        // one flush to let whatever was pending settle
        self.flush();
        let before = self.par.dirs(&vfs::image()).len();
        let mut r = Rng::new(hash3(self.seed, 77, 1));
        let mut peak = 0;
        for i in 0..rounds {
            let k = r.below(self.par.keys as u64) as i64;
            let v = 5000 + i as i64;
            if r.below(3) == 0 {
                self.act("remove", |d| d.map.as_mut().unwrap().rem(k));
                self.poss.insert(k, std::iter::once(None).collect());
            } else {
                self.act("insert", |d| d.map.as_mut().unwrap().ins(k, v));
                self.poss.insert(k, std::iter::once(Some(v)).collect());
            }
            self.flush();
            let n = self.par.dirs(&vfs::image()).len();
            peak = peak.max(n);
        }
        let after = self.par.dirs(&vfs::image()).len();
        simrt::trace(after as u64);
        probe("quiet phase completed");
        if after > before.max(0) + bound {
            bad(
                "compaction-stuck",
                format!(
                    "{} flushes in quiet conditions took the folder from {} to {} tables (bound: {} more)",
                    rounds, before, after, bound
                ),
            );
        }
        self.verify("after quiet phase");
        self.exact = e;
    }
    fn forget(&mut self) {
        for s in self.iters.drain(..) {
            std::mem::forget(s.it);
        }
        if let Some(m) = self.map.take() {
            std::mem::forget(m);
        }
    }
}
fn fmt_set(s: &BTreeSet<Option<i64>>) -> String {
    if s.len() == 1 {
        format!("{:?}", s.iter().next().unwrap())
    } else {
        format!("one of {:?}", s.iter().collect::<Vec<_>>())
    }
}

// ---- kills -------------------------------------------------------------------------------------------
/// Judge the kill points recorded while `d` ran: reopen each image as a new process would.
fn judge_kills(s: &Spec, d: &D, states: &[Rc<Model>], spans: &[Span], depth: u32) {
    let snaps: Vec<Snap> = unsafe { std::mem::take(&mut V.snaps) };
    unsafe {
        V.snap_on = false;
        V.snap_seen = 0;
    }
    for sn in snaps {
        let mark = sched::mark();
        let sp = spans.iter().rev().find(|x| x.op as i64 == sn.ctx);
        let (lo, hi) = match sp {
            Some(x) => (x.lo, x.hi),
            None => continue,
        };
        unsafe { simrt::KILLS.push((sn.key, sn.op, sn.n, sn.torn)) };
        if sn.torn >= 0 {
            probe("kill inside a write");
        } else if sn.tid != 0 {
            probe("kill inside compaction");
        } else {
            probe("kill inside a client operation");
        }
        if depth > 0 {
            probe("kill after recovery from a kill");
        }
        simrt::hist(|| format!("KILL thread {} op {} io {} torn {}", sn.tid, sn.op, sn.n, sn.torn));
        unsafe { *S.fired.entry(if sn.torn >= 0 { sched::F_TORN } else { sched::F_KILL }).or_insert(0) += 1 };
        vfs::restore(&sn.image);
        let base = 20_000 * (depth + 1);
        let mut n = D::new(d.par.clone(), &d.prop, true, hash3(s.seed, sn.key ^ sn.op as u64, sn.n as u64));
        n.states = states.to_vec();
        // kill points of the second process
        unsafe {
            if depth == 0 && s.c("snap2") > 0 {
                V.snap_max = s.c("snap2") as usize;
                V.snap_only = s.plan.as_ref().map(|p| p.crash.get(1).copied().unwrap_or((0, 0, 0, -1)));
                V.snap_on = true;
            }
        }
        sched::set_op(base);
        unsafe { V.ctx = base as i64 };
        n.open();
        n.adopt(lo, hi, "after the kill");
        n.spans.push(Span { op: base, lo, hi: n.acked });
        n.verify("after the kill");
        // the store keeps working
        let mut r = Rng::new(n.seed);
        let m = 2 + r.below(10) as u32;
        for i in 1..=m {
            let k = r.below(d.par.keys as u64) as i64;
            let (nm, a, b) = match r.below(11) {
                0..=3 => ("ins", k, 9000 + (depth as i64 * 500) + i as i64),
                4 | 5 => ("rem", k, 0),
                6 => ("flush", 0, 0),
                7 => ("get", k, 0),
                8 => ("reopen", 1, 1),
                9 => ("scan", 0, 0),
                _ => ("settle", 0, 0),
            };
            n.exec(&op(base + i, 0, nm, a, b));
        }
        n.exec(&op(base + m + 1, 0, "flush", 0, 0));
        n.exec(&op(base + m + 2, 0, "reopen", 0, 1));
        unsafe { V.snap_on = false };
        n.forget();
        sched::wait_quiet();
        let deep = unsafe { !V.snaps.is_empty() };
        if deep {
            let st = n.states.clone();
            let sp = std::mem::take(&mut n.spans);
            judge_kills(s, &n, &st, &sp, depth + 1);
        }
        unsafe {
            simrt::KILLS.pop();
        }
        sched::reset(&mark);
        probe("nontrivial");
    }
}

// ---- properties --------------------------------------------------------------------------------------
pub fn info(id: &str) -> Info {
    let rule = match id {
        "L01" => "per run: a random history of 20-120 operations over 1-40 keys with random tuning, under a random schedule of the client and compaction threads; non-trivial: a compaction thread ran and was interleaved with the client",
        "L02" => "per run: a random history with many drop-and-reopen cycles; non-trivial: at least one reopen with tables on disk",
        "L03" => "per run: a random history; random kill points among all mutating system calls (client and compaction) and page boundaries inside writes are each recovered and checked, with a second kill during or after recovery; non-trivial: a kill point was recovered (counted once per run)",
        "L04" => "per run: a random history with windows of injected failures; non-trivial: at least one operation reported an error and later operations succeeded",
        "L05" => "per run: a random history with failures and iterators, then quiet rounds of flushes; non-trivial: at least one compaction thread ran",
        "L06" => "per run: a random failure-free history; the folder is inspected after every flush; non-trivial: the folder held more than one table when inspected",
        "L07" => "per run: a random history with up to 4 live iterators; non-trivial: an iterator was stepped after a mutation",
        _ => "per run: a random history rich in clear, with kills and reopens; non-trivial: a clear succeeded on a map with tables",
    };
    Info {
        rule,
        level: if id == "L03" { "fault_enumeration" } else { "exploration" },
        real: REAL,
        stub: STUB,
        assumptions: vec![
            "one client thread uses a map at a time (the API takes &mut self); compaction threads are the library's own",
            "a process kill preserves every completed system call; an interrupted write leaves a prefix ending at a page boundary",
        ],
    }
}
pub fn gen(s: &mut Spec, r: &mut Rng, thorough: bool, _i: u64) {
    gen_policy(s, r);
    let p = s.prop.clone();
    let leveled = r.below(2);
    let keys = match r.below(4) {
        0 => 1 + r.below(3),
        1 | 2 => 3 + r.below(8),
        _ => 10 + r.below(30),
    } as i64;
    let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
    s.cfg.insert("leveled".into(), leveled as i64);
    s.cfg.insert("keys".into(), keys);
    s.cfg.insert("kind".into(), kind);
    s.cfg.insert("mem".into(), *r.pick(&[0, 0, 30, 60, 100, 150, 300, 100000]));
    s.cfg.insert("cnt".into(), r.below(5) as i64);
    if leveled == 1 {
        s.cfg.insert("p1".into(), *r.pick(&[0, 20, 40, 80, 200, 1000, 100000]));
        s.cfg.insert("p2".into(), 1 + r.below(4) as i64);
        s.cfg.insert("p3".into(), 1 + r.below(4) as i64);
    } else {
        s.cfg.insert("p1".into(), *r.pick(&[0, 0, 50, 100, 200, 1000, 1000000]));
        s.cfg.insert("p2".into(), *r.pick(&[20, 50, 50, 70, 100]));
        s.cfg.insert("p3".into(), *r.pick(&[100, 120, 150, 150, 200, 400]));
    }
    s.cfg.insert("pathlen".into(), *r.pick(&[0, 0, 0, 30, 200]));
    let mut n = match r.below(5) {
        0 => 3 + r.below(10),
        1 | 2 => 10 + r.below(40),
        _ => 30 + r.below(90),
    };
    if thorough && r.below(4) == 0 {
        n *= 2;
    }
    // op mix: name, weight
    let mut w: Vec<(&str, u64)> = vec![
        ("ins", 10 + r.below(40)),
        ("rem", r.below(25)),
        ("get", r.below(12)),
        ("has", r.below(4)),
        ("min", r.below(4)),
        ("max", r.below(4)),
        ("len", r.below(3)),
        ("empty", r.below(2)),
        ("hint", r.below(3)),
        ("scan", r.below(3)),
        ("flush", r.below(8)),
        ("settle", r.below(6)),
    ];
    let has = |s: &mut Spec, k: &str, v: i64| {
        s.cfg.insert(k.into(), v);
    };
    match p.as_str() {
        "L01" => {
            if r.below(4) == 0 {
                w.push(("clear", 1));
            }
            if r.below(4) == 0 {
                w.push(("verify", 1));
            }
        }
        "L02" => w.push(("reopen", 2 + r.below(8))),
        "F01" => {
            w.push(("reopen", r.below(5)));
            if r.below(4) == 0 {
                w.push(("clear", 1));
            }
            let kinds = [1 << sched::F_SHORT, 1 << sched::F_EINTR, (1 << sched::F_SHORT) | (1 << sched::F_EINTR)];
            has(s, "io_kinds", *r.pick(&kinds));
            has(s, "io_den", *r.pick(&[2, 3, 6, 20, 60]));
            has(s, "io_burst", *r.pick(&[1, 5, 30]));
        }
        "L03" => {
            if r.below(2) == 0 {
                w.push(("reopen", 1 + r.below(3)));
            }
            if r.below(3) == 0 {
                w.push(("clear", 1 + r.below(2)));
            }
            has(s, "snap_max", 2 + r.below(5) as i64);
            has(s, "snap2", r.below(3) as i64);
            has(s, "torn", 1);
        }
        "L04" => {
            w.push(("fon", 3 + r.below(6)));
            w.push(("foff", 3 + r.below(6)));
            if r.below(3) == 0 {
                w.push(("full", 2));
            }
            if r.below(3) == 0 {
                w.push(("clear", 1));
            }
            w.push(("reopen", r.below(4)));
            let kinds = match r.below(6) {
                0 => 1 << sched::F_EIO,
                1 => 1 << sched::F_ENOSPC,
                2 => 1 << sched::F_EMFILE,
                3 => (1 << sched::F_EAGAIN) | (1 << sched::F_EIO),
                4 => (1 << sched::F_EIO) | (1 << sched::F_SHORT),
                _ => {
                    (1 << sched::F_EIO)
                        | (1 << sched::F_ENOSPC)
                        | (1 << sched::F_EMFILE)
                        | (1 << sched::F_EAGAIN)
                        | (1 << sched::F_EACCES)
                        | (1 << sched::F_SHORT)
                        | (1 << sched::F_EINTR)
                }
            };
            has(s, "io_kinds", kinds);
            has(s, "io_den", *r.pick(&[4, 10, 20, 40, 80, 150, 300]));
            has(s, "io_burst", *r.pick(&[1, 1, 5, 40]));
        }
        "L05" => {
            w.push(("inew", r.below(3)));
            w.push(("idrop", r.below(3)));
            if r.below(2) == 0 {
                w.push(("fon", 3));
                w.push(("foff", 3));
                has(s, "io_kinds", (1 << sched::F_EIO) | (1 << sched::F_ENOSPC) | (1 << sched::F_EMFILE) | (1 << sched::F_EAGAIN));
                has(s, "io_den", *r.pick(&[4, 10, 20, 40, 80, 150]));
                has(s, "io_burst", *r.pick(&[1, 5, 40]));
            }
            if r.below(4) == 0 {
                w.push(("reopen", 1));
            }
            has(s, "keys", 1 + r.below(4) as i64);
            if leveled == 0 {
                has(s, "p1", 1_000_000);
            }
            n = n.min(40);
        }
        "L06" => {
            w.push(("flush", 6));
            if r.below(3) == 0 {
                w.push(("reopen", 1));
            }
            if r.below(4) == 0 {
                w.push(("clear", 1));
            }
            if r.below(3) == 0 {
                w.push(("inew", 1));
                w.push(("idrop", 2));
            }
        }
        "L07" => {
            w.push(("inew", 3 + r.below(5)));
            w.push(("istep", 10 + r.below(20)));
            w.push(("idrop", 1 + r.below(4)));
        }
        "L08" => {
            w.push(("clear", 3 + r.below(6)));
            w.push(("reopen", r.below(5)));
            w.push(("verify", r.below(3)));
            has(s, "snap_max", r.below(4) as i64);
            has(s, "snap2", r.below(2) as i64);
            has(s, "torn", 1);
        }
        _ => {}
    }
    let keys = s.c("keys");
    let total: u64 = w.iter().map(|x| x.1).sum();
    // keys in use drift over time, so that some are left alone
    let hot = 1 + r.below(keys as u64);
    for i in 0..n {
        let id = i as u32 + 1;
        let mut x = r.below(total);
        let mut nm = w[0].0;
        for (a, b) in &w {
            if x < *b {
                nm = a;
                break;
            }
            x -= b;
        }
        let k = if r.below(3) == 0 { r.below(keys as u64) } else { r.below(hot) } as i64;
        let (a, b) = match nm {
            "ins" => (k, id as i64),
            "rem" | "get" | "has" => (k, 0),
            "inew" => (id as i64, 0),
            "istep" | "idrop" => {
                // one of the iterators created so far
                let c: Vec<i64> = s.ops.iter().filter(|o| o.name == "inew").map(|o| o.a).collect();
                if c.is_empty() {
                    (0, 1)
                } else {
                    let back = r.below(c.len().min(4) as u64) as usize;
                    (c[c.len() - 1 - back], 1 + r.below(4) as i64)
                }
            }
            "reopen" => ((r.below(3) > 0 || p == "L06") as i64, (r.below(2)) as i64),
            "full" => (r.below(2) as i64, 0),
            _ => (0, 0),
        };
        s.ops.push(op(id, 0, nm, a, b));
    }
    if p == "L05" {
        let bound = s.c("cnt") + 6 + if leveled == 1 { keys * (keys + 2) } else { 2 };
        s.ops.push(op(n as u32 + 1, 0, "quiet", 2 * bound + 12, bound));
    }
}
pub fn run(s: &Spec) {
    let par = Par::of(s);
    let p = s.prop.as_str();
    let exact = !(p == "L04" || p == "L05");
    let mut d = D::new(par, p, exact, s.seed);
    sched::set_op(0);
    d.new_map();
    let kills = s.c("snap_max") > 0;
    unsafe {
        V.snap_on = kills;
        S.io_on = p == "F01";
    }
    let mut stepped = false;
    for o in &s.ops {
        d.exec(o);
        if o.name == "istep" && !d.iters.is_empty() {
            stepped = true;
        }
        if o.name == "clear" && d.cleared {
            probe("cleared");
        }
    }
    let (spawned, preempt) = unsafe { (S.spawned, S.preempt) };
    match p {
        "L01" if spawned > 0 && preempt > 0 => probe("nontrivial"),
        "F01" if sched::fired_total() > 0 => probe("nontrivial"),
        "L02" if d.reopened => probe("nontrivial"),
        "L04" if d.ever_failed => probe("nontrivial"),
        "L05" if spawned > 0 => probe("nontrivial"),
        "L07" if stepped => probe("nontrivial"),
        "L08" if d.cleared => probe("nontrivial"),
        _ => {}
    }
    // final checks
    sched::set_op(15_000);
    unsafe {
        if p != "F01" {
            S.io_on = false;
            S.burst_io = (0, 0);
        }
        V.full = false;
        V.ctx = 15_000;
    }
    d.exact = true;
    if !exact {
        // states were not tracked: continue with certain knowledge only
        d.verify("at the end");
        d.states = vec![Rc::new(d.sure().into_iter().collect())];
        d.acked = 0;
    } else {
        for id in d.iters.iter().map(|s| s.id).collect::<Vec<_>>() {
            for _ in 0..60 {
                d.step(id);
            }
        }
        d.verify("at the end");
    }
    if p != "L06" && p != "L07" {
        d.exec(&op(15_001, 0, "flush", 0, 0));
        d.exec(&op(15_002, 0, "reopen", 0, 1));
    }
    if kills {
        unsafe { V.snap_on = false };
        d.forget();
        sched::wait_quiet();
        let st = d.states.clone();
        let sp = std::mem::take(&mut d.spans);
        judge_kills(s, &d, &st, &sp, 0);
    } else {
        d.drop_map();
        sched::wait_quiet();
    }
}
