//! M01: the in-memory collections, with caller code (comparisons, destructors) that panics at seeded points.
use crate::tracked::{self, Injected};
use crate::*;
use extended_collections::arena::{Entry, TypedArena};
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::radix::RadixMap;
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use simrt::sched::{self, S};
use simrt::{probe, rt, sut, violation};
use std::cmp::Ordering;
use std::collections::BTreeSet;

// ---- elements ----------------------------------------------------------------------------------------
/// Nothing panics while set (harness code disposing of what it was handed back).
static mut QUIET: bool = false;
const PROBE: u32 = u32::MAX;

#[repr(align(64))]
pub struct Wide;
/// A tracked element: owns memory, compares through code that may panic, has a destructor that may panic.
pub struct Elem<A> {
    align: [A; 0],
    id: u32,
    k: i64,
    own: Box<i64>,
}
impl<A> Elem<A> {
    fn new(k: i64) -> Elem<A> {
        Elem { align: [], id: tracked::create(), k, own: Box::new(k) }
    }
    fn probe(k: i64) -> Elem<A> {
        Elem { align: [], id: PROBE, k, own: Box::new(k) }
    }
    fn check(&self, what: &str) -> i64 {
        if self.id != PROBE && !tracked::alive(self.id) {
            rt(|| violation("use-after-destroy", &format!("{} reaches an element that was already destroyed (id {})", what, self.id)));
        }
        if self as *const Self as usize % std::mem::align_of::<Self>() != 0 {
            rt(|| violation("misaligned", &format!("{} reaches a misaligned element", what)));
        }
        if *self.own != self.k {
            rt(|| violation("garbage-value", &format!("{} reaches a corrupt element (id {})", what, self.id)));
        }
        self.k
    }
}
fn faulty() -> bool {
    unsafe { !QUIET && !std::thread::panicking() && sched::callback_panics() }
}
impl<A> PartialEq for Elem<A> {
    fn eq(&self, o: &Elem<A>) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl<A> Eq for Elem<A> {}
impl<A> PartialOrd for Elem<A> {
    fn partial_cmp(&self, o: &Elem<A>) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<A> Ord for Elem<A> {
    fn cmp(&self, o: &Elem<A>) -> Ordering {
        let (a, b) = (self.check("a comparison"), o.check("a comparison"));
        if faulty() {
            probe("a comparison panicked");
            std::panic::panic_any(Injected);
        }
        a.cmp(&b)
    }
}
impl<A> Drop for Elem<A> {
    fn drop(&mut self) {
        if self.id == PROBE {
            return;
        }
        if *self.own != self.k {
            rt(|| violation("garbage-value", "a destructor ran on a corrupt element"));
        }
        tracked::destroyed(self.id, "");
        if faulty() {
            probe("a destructor panicked");
            std::panic::panic_any(Injected);
        }
    }
}

// ---- collections -------------------------------------------------------------------------------------
type Seen = Vec<(i64, Vec<u32>)>;
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// ordered by key, one element set per key
    Keyed,
    /// by position
    List,
    /// by handle
    Arena,
}
trait Col: Sized {
    /// alignment of the elements
    type A;
    const SHAPE: Shape;
    const ALGEBRA: bool = false;
    const SPLIT: bool = false;
    const JOIN: bool = false;
    /// elements per entry
    const PER: usize;
    fn new(a: i64) -> Self;
    fn ins(&mut self, at: i64, es: Vec<Elem<Self::A>>) -> Vec<Elem<Self::A>>;
    fn rem(&mut self, at: i64) -> Vec<Elem<Self::A>>;
    fn look(&mut self, at: i64);
    fn seen(&self) -> Seen;
    fn part(&mut self, n: usize);
    fn len(&self) -> usize;
    fn clear(&mut self);
    fn into_part(self, n: usize) -> Vec<Vec<Elem<Self::A>>>;
    fn algebra(_kind: i64, _l: Self, _r: Self) -> Self {
        unreachable!()
    }
    fn split(&mut self, _at: i64, _incl: bool) -> Self {
        unreachable!()
    }
    fn join(_l: Self, _r: Self) -> Self {
        unreachable!()
    }
}
fn two<A>(es: Vec<Elem<A>>) -> (Elem<A>, Elem<A>) {
    let mut i = es.into_iter();
    (i.next().unwrap(), i.next().unwrap())
}
fn one<A>(es: Vec<Elem<A>>) -> Elem<A> {
    es.into_iter().next().unwrap()
}
fn pair<A>(p: Option<(Elem<A>, Elem<A>)>) -> Vec<Elem<A>> {
    p.map_or(Vec::new(), |(a, b)| vec![a, b])
}
fn note<A>(e: &Elem<A>, what: &str) -> u32 {
    e.check(what);
    e.id
}
macro_rules! map {
    ($t:ident, $alg:expr, |$x:ident, $y:ident, $k:ident| $ops:expr, $split:expr, |$s:ident, $a:ident, $i:ident| $sp:expr) => {
        impl<A> Col for $t<Elem<A>, Elem<A>> {
            type A = A;
            const SHAPE: Shape = Shape::Keyed;
            const PER: usize = 2;
            const ALGEBRA: bool = $alg;
            const SPLIT: bool = $split;
            fn new(_: i64) -> Self {
                $t::new()
            }
            fn ins(&mut self, _: i64, es: Vec<Elem<A>>) -> Vec<Elem<A>> {
                let (k, v) = two(es);
                pair(self.insert(k, v))
            }
            fn rem(&mut self, at: i64) -> Vec<Elem<A>> {
                pair(self.remove(&Elem::probe(at)))
            }
            fn look(&mut self, at: i64) {
                let p = Elem::probe(at);
                if let Some(e) = self.get(&p) {
                    e.check("get");
                }
                self.contains_key(&p);
                if let Some(e) = self.get_mut(&p) {
                    e.check("get_mut");
                }
                for e in [self.floor(&p), self.ceil(&p)].iter() {
                    if let Some(e) = e {
                        e.check("floor or ceil");
                    }
                }
                for e in [self.min(), self.max()].iter() {
                    if let Some(e) = e {
                        e.check("min or max");
                    }
                }
            }
            fn seen(&self) -> Seen {
                self.iter().map(|(k, v)| (k.k, vec![note(k, "an iterator"), note(v, "an iterator")])).collect()
            }
            fn part(&mut self, n: usize) {
                for (k, v) in self.iter_mut().take(n) {
                    k.check("a mutable iterator");
                    v.check("a mutable iterator");
                }
            }
            fn len(&self) -> usize {
                $t::len(self)
            }
            fn clear(&mut self) {
                $t::clear(self)
            }
            fn into_part(self, n: usize) -> Vec<Vec<Elem<A>>> {
                let mut it = self.into_iter();
                let mut out = vec![];
                for _ in 0..n {
                    match it.next() {
                        Some((k, v)) => out.push(vec![k, v]),
                        None => break,
                    }
                }
                out
            }
            fn algebra($k: i64, $x: Self, $y: Self) -> Self {
                $ops
            }
            fn split(&mut self, $a: i64, $i: bool) -> Self {
                let $s = self;
                $sp
            }
        }
    };
}
macro_rules! set {
    ($t:ident, $alg:expr, |$x:ident, $y:ident, $k:ident| $ops:expr, $split:expr, |$s:ident, $a:ident, $i:ident| $sp:expr) => {
        impl<A> Col for $t<Elem<A>> {
            type A = A;
            const SHAPE: Shape = Shape::Keyed;
            const PER: usize = 1;
            const ALGEBRA: bool = $alg;
            const SPLIT: bool = $split;
            fn new(_: i64) -> Self {
                $t::new()
            }
            fn ins(&mut self, _: i64, es: Vec<Elem<A>>) -> Vec<Elem<A>> {
                self.insert(one(es)).into_iter().collect()
            }
            fn rem(&mut self, at: i64) -> Vec<Elem<A>> {
                self.remove(&Elem::probe(at)).into_iter().collect()
            }
            fn look(&mut self, at: i64) {
                let p = Elem::probe(at);
                self.contains(&p);
                for e in [self.floor(&p), self.ceil(&p), self.min(), self.max()].iter() {
                    if let Some(e) = e {
                        e.check("a lookup");
                    }
                }
            }
            fn seen(&self) -> Seen {
                self.iter().map(|k| (k.k, vec![note(k, "an iterator")])).collect()
            }
            fn part(&mut self, n: usize) {
                for k in self.iter().take(n) {
                    k.check("an iterator");
                }
            }
            fn len(&self) -> usize {
                $t::len(self)
            }
            fn clear(&mut self) {
                $t::clear(self)
            }
            fn into_part(self, n: usize) -> Vec<Vec<Elem<A>>> {
                let mut it = self.into_iter();
                let mut out = vec![];
                for _ in 0..n {
                    match it.next() {
                        Some(k) => out.push(vec![k]),
                        None => break,
                    }
                }
                out
            }
            fn algebra($k: i64, $x: Self, $y: Self) -> Self {
                $ops
            }
            fn split(&mut self, $a: i64, $i: bool) -> Self {
                let $s = self;
                $sp
            }
        }
    };
}
macro_rules! list {
    ($t:ident) => {
        impl<A> Col for $t<Elem<A>> {
            type A = A;
            const SHAPE: Shape = Shape::List;
            const PER: usize = 1;
            const JOIN: bool = true;
            fn new(_: i64) -> Self {
                $t::new()
            }
            fn ins(&mut self, at: i64, es: Vec<Elem<A>>) -> Vec<Elem<A>> {
                let e = one(es);
                let n = $t::len(self);
                match at {
                    -1 => self.push_front(e),
                    -2 => self.push_back(e),
                    _ => self.insert(at as usize % (n + 1), e),
                }
                vec![]
            }
            fn rem(&mut self, at: i64) -> Vec<Elem<A>> {
                let n = $t::len(self);
                if n == 0 {
                    return vec![];
                }
                vec![match at {
                    -1 => self.pop_front(),
                    -2 => self.pop_back(),
                    _ => self.remove(at as usize % n),
                }]
            }
            fn look(&mut self, at: i64) {
                if let Some(e) = self.get(at as usize) {
                    e.check("get");
                }
                if let Some(e) = self.get_mut(at as usize) {
                    e.check("get_mut");
                }
            }
            fn seen(&self) -> Seen {
                self.iter().map(|k| (k.k, vec![note(k, "an iterator")])).collect()
            }
            fn part(&mut self, n: usize) {
                for k in self.iter_mut().take(n) {
                    k.check("a mutable iterator");
                }
            }
            fn len(&self) -> usize {
                $t::len(self)
            }
            fn clear(&mut self) {
                $t::clear(self)
            }
            fn into_part(self, n: usize) -> Vec<Vec<Elem<A>>> {
                let mut it = self.into_iter();
                let mut out = vec![];
                for _ in 0..n {
                    match it.next() {
                        Some(k) => out.push(vec![k]),
                        None => break,
                    }
                }
                out
            }
            fn join(l: Self, r: Self) -> Self {
                l + r
            }
        }
    };
}
macro_rules! algebra {
    ($t:ident, $x:expr, $y:expr, $k:expr) => {
        match $k {
            0 => $t::union($x, $y),
            1 => $t::intersection($x, $y),
            2 => $t::difference($x, $y),
            3 => $t::symmetric_difference($x, $y),
            4 => $x + $y,
            _ => $x - $y,
        }
    };
}
map!(AvlMap, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
map!(RedBlackMap, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
map!(SplayMap, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
map!(TreapMap, true, |x, y, k| algebra!(TreapMap, x, y, k), true, |s, a, i| s.split_off(&Elem::probe(a), i));
map!(SkipMap, true, |x, y, k| algebra!(SkipMap, x, y, k), false, |_s, _a, _i| unreachable!());
set!(AvlSet, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
set!(RedBlackSet, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
set!(SplaySet, false, |_x, _y, _k| unreachable!(), false, |_s, _a, _i| unreachable!());
set!(TreapSet, true, |x, y, k| algebra!(TreapSet, x, y, k), true, |s, a, i| s.split_off(&Elem::probe(a), i));
set!(SkipSet, true, |x, y, k| algebra!(SkipSet, x, y, k), false, |_s, _a, _i| unreachable!());
list!(TreapList);
list!(SkipList);

/// Byte strings with many shared prefixes: the bits of k + 1 after the leading one.
fn bytes(k: i64) -> Vec<u8> {
    let mut v = vec![];
    let mut x = k + 1;
    while x > 1 {
        v.push((x & 1) as u8 + b'a');
        x >>= 1;
    }
    v
}
fn unbytes(b: &[u8]) -> i64 {
    let mut x = 1;
    for c in b.iter().rev() {
        x = x * 2 + (*c - b'a') as i64;
    }
    x - 1
}
impl<A> Col for RadixMap<Elem<A>> {
    type A = A;
    const SHAPE: Shape = Shape::Keyed;
    const PER: usize = 1;
    fn new(_: i64) -> Self {
        RadixMap::new()
    }
    fn ins(&mut self, at: i64, es: Vec<Elem<A>>) -> Vec<Elem<A>> {
        self.insert(&bytes(at), one(es)).into_iter().map(|(_, v)| v).collect()
    }
    fn rem(&mut self, at: i64) -> Vec<Elem<A>> {
        self.remove(&bytes(at)).into_iter().map(|(_, v)| v).collect()
    }
    fn look(&mut self, at: i64) {
        let b = bytes(at);
        if let Some(e) = self.get(&b) {
            e.check("get");
        }
        if let Some(e) = self.get_mut(&b) {
            e.check("get_mut");
        }
        self.contains_key(&b);
        self.get_longest_prefix(&b);
        self.min();
        self.max();
    }
    fn seen(&self) -> Seen {
        let mut v: Seen = self.iter().map(|(k, v)| (unbytes(&k), vec![note(v, "an iterator")])).collect();
        v.sort();
        v
    }
    fn part(&mut self, n: usize) {
        for (_, v) in self.iter_mut().take(n) {
            v.check("a mutable iterator");
        }
    }
    fn len(&self) -> usize {
        RadixMap::len(self)
    }
    fn clear(&mut self) {
        RadixMap::clear(self)
    }
    fn into_part(self, n: usize) -> Vec<Vec<Elem<A>>> {
        let mut it = self.into_iter();
        let mut out = vec![];
        for _ in 0..n {
            match it.next() {
                Some((_, v)) => out.push(vec![v]),
                None => break,
            }
        }
        out
    }
}
struct Arena<A> {
    a: TypedArena<Elem<A>>,
    /// handles by number; freed ones stay known
    hs: Vec<(Entry, bool)>,
}
impl<A> Col for Arena<A> {
    type A = A;
    const SHAPE: Shape = Shape::Arena;
    const PER: usize = 1;
    fn new(a: i64) -> Self {
        Arena { a: TypedArena::new(1 + a as usize), hs: Vec::new() }
    }
    fn ins(&mut self, _: i64, es: Vec<Elem<A>>) -> Vec<Elem<A>> {
        let h = self.a.allocate(one(es));
        self.hs.push((h, true));
        vec![]
    }
    /// frees the at-th live handle
    fn rem(&mut self, at: i64) -> Vec<Elem<A>> {
        let live: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].1).collect();
        if live.is_empty() {
            return vec![];
        }
        let i = live[at as usize % live.len()];
        self.hs[i].1 = false;
        vec![self.a.free(&self.hs[i].0)]
    }
    fn look(&mut self, at: i64) {
        if self.hs.is_empty() {
            return;
        }
        let i = at as usize % self.hs.len();
        if let Some(e) = self.a.get(&self.hs[i].0) {
            e.check("get");
        }
        if let Some(e) = self.a.get_mut(&self.hs[i].0) {
            e.check("get_mut");
        }
    }
    fn seen(&self) -> Seen {
        let mut v = vec![];
        for (h, l) in &self.hs {
            if *l {
                match self.a.get(h) {
                    Some(e) => v.push((e.check("get"), vec![e.id])),
                    None => rt(|| violation("lost", "a live handle reaches nothing")),
                }
            }
        }
        v
    }
    fn part(&mut self, n: usize) {
        for (h, l) in self.hs.iter().take(n) {
            if *l {
                self.a[*h].check("an index");
            }
        }
    }
    fn len(&self) -> usize {
        self.hs.iter().filter(|h| h.1).count()
    }
    fn clear(&mut self) {
        while Col::len(self) > 0 {
            let v = self.rem(0);
            drop(v);
        }
    }
    fn into_part(mut self, n: usize) -> Vec<Vec<Elem<A>>> {
        let mut out = vec![];
        for _ in 0..n {
            let v = self.rem(0);
            if v.is_empty() {
                break;
            }
            out.push(v);
        }
        out
    }
}

// ---- workload ----------------------------------------------------------------------------------------
const KINDS: &[&str] = &[
    "AvlMap", "AvlSet", "RedBlackMap", "RedBlackSet", "SplayMap", "SplaySet", "TreapMap", "TreapSet", "TreapList", "SkipMap", "SkipSet",
    "SkipList", "RadixMap", "TypedArena",
];
pub fn info(_id: &str) -> Info {
    Info {
        rule: "per run: one kind of in-memory collection, up to three instances, 5-150 operations including set algebra, splitting, concatenation and abandoned owning iterators; half of the runs without faults, the others with comparisons and destructors that panic at seeded calls; non-trivial: a caller panic fired inside an operation, or a fault-free run handed back and destroyed at least ten elements",
        level: "fault_enumeration",
        real: "extended_collections (instrumented), std (compiled code, unmodified)",
        stub: "heap allocator; the caller's element type (comparison and destructor)",
        assumptions: vec![
            "memory errors are found at instrumented accesses: the collections' generic code, not accesses made inside the precompiled standard library except copies",
        ],
    }
}
pub fn gen(s: &mut Spec, r: &mut Rng, thorough: bool, i: u64) {
    s.cfg.insert("policy".into(), 0);
    // skip lists and treaps have most of the manual ownership
    let kind = if r.below(3) == 0 { 6 + r.below(6) } else { (i + r.below(2)) % KINDS.len() as u64 };
    s.cfg.insert("kind".into(), kind as i64);
    let panics = r.below(2);
    if panics == 1 {
        s.cfg.insert("panic_den".into(), *r.pick(&[5, 20, 60, 200, 600, 2000]));
    }
    if r.below(6) == 0 {
        s.cfg.insert("wide".into(), 1);
    }
    s.cfg.insert("chunk".into(), r.below(6) as i64);
    let keys = *r.pick(&[3, 8, 20, 60, 200]);
    let most = if thorough { 400 } else { *r.pick(&[20, 60, 150]) };
    let n = 5 + r.below(most);
    let grow = 1 + r.below(8);
    let rare = *r.pick(&[6, 12, 30]);
    let mut next = 0;
    let seq = r.below(4);
    for id in 0..n {
        let c = r.below(3) as i64;
        let mut a = r.below(keys) as i64;
        let nm = if r.below(rare) == 0 {
            *r.pick(&["clear", "into", "into", "alg", "alg", "alg", "split", "join", "drop", "reuse"])
        } else {
            match r.below(12) {
                x if x < grow => "ins",
                x if x < 9 => "rem",
                9 => "look",
                10 => "part",
                _ => "ins",
            }
        };
        if nm == "ins" && seq < 2 {
            next += 1;
            a = if seq == 0 { next } else { keys as i64 - next };
            a = a.rem_euclid(keys as i64);
        }
        if (nm == "ins" || nm == "rem") && r.below(6) == 0 && (kind == 8 || kind == 11) {
            a = -1 - r.below(2) as i64;
        }
        // b: target instance, and one more choice
        s.ops.push(op(id as u32 + 1, 0, nm, a, c + 3 * r.below(64) as i64));
    }
}

struct Slot<C> {
    c: Option<C>,
    model: Seen,
    /// an operation on it panicked: only memory safety and no second destruction are claimed
    dirty: bool,
}
pub fn run(s: &Spec) {
    probe(KINDS[s.c("kind") as usize]);
    match s.c("wide") {
        0 => run_with::<u64>(s),
        _ => run_with::<Wide>(s),
    }
}
fn run_with<A>(s: &Spec) {
    match s.c("kind") {
        0 => go::<AvlMap<Elem<A>, Elem<A>>>(s),
        1 => go::<AvlSet<Elem<A>>>(s),
        2 => go::<RedBlackMap<Elem<A>, Elem<A>>>(s),
        3 => go::<RedBlackSet<Elem<A>>>(s),
        4 => go::<SplayMap<Elem<A>, Elem<A>>>(s),
        5 => go::<SplaySet<Elem<A>>>(s),
        6 => go::<TreapMap<Elem<A>, Elem<A>>>(s),
        7 => go::<TreapSet<Elem<A>>>(s),
        8 => go::<TreapList<Elem<A>>>(s),
        9 => go::<SkipMap<Elem<A>, Elem<A>>>(s),
        10 => go::<SkipSet<Elem<A>>>(s),
        11 => go::<SkipList<Elem<A>>>(s),
        12 => go::<RadixMap<Elem<A>>>(s),
        _ => go::<Arena<A>>(s),
    }
}
/// Dispose of elements the collection handed back; their ids
fn dispose<A>(es: Vec<Elem<A>>) -> Vec<u32> {
    let ids: Vec<u32> = es.iter().map(|e| note(e, "an operation's result")).collect();
    unsafe { QUIET = true };
    if let Err(m) = call(move || drop(es)) {
        violation("panic", &strip(&m));
    }
    unsafe { QUIET = false };
    probe("elements handed back");
    ids
}
fn bad(o: &Op, kind: &str, msg: String) -> ! {
    violation("wrong-elements", &format!("{} {}({}): {}", kind, o.name, o.a, msg))
}
fn go<C: Col>(s: &Spec) {
    let kind = KINDS[s.c("kind") as usize];
    let mk = |n: i64| {
        let c = call(|| C::new(s.c("chunk") + n)).unwrap_or_else(|m| violation("panic", &m));
        Slot { c: Some(c), model: vec![], dirty: false }
    };
    let base = unsafe { simrt::arena::ARENA.live_blocks };
    let mut slots: Vec<Slot<C>> = (0..3).map(mk).collect();
    let mut panicked = false;
    let mut nhanded = 0;
    for o in &s.ops {
        sched::set_op(o.id);
        let i = (o.b % 3) as usize;
        let x = o.b / 3;
        let j = (i + 1 + (x % 2) as usize) % 3;
        let n = (x / 2) as usize;
        let empty = slots[i].c.is_none();
        if empty {
            slots[i] = mk(i as i64);
        }
        let before = sched::fired_total();
        let mut res: Result<Vec<u32>, String> = Ok(vec![]);
        // model after the operation, and the elements it must hand back
        let mut want: Option<Vec<u32>> = None;
        let mut touched = vec![i];
        match o.name.as_str() {
            "ins" => {
                let es: Vec<Elem<C::A>> = sut(|| (0..C::PER).map(|_| Elem::new(o.a)).collect());
                let ids: Vec<u32> = es.iter().map(|e| e.id).collect();
                let m = &mut slots[i].model;
                let mut back = vec![];
                match C::SHAPE {
                    Shape::Keyed => match m.binary_search_by(|e| e.0.cmp(&o.a)) {
                        Ok(p) => back = std::mem::replace(&mut m[p].1, ids),
                        Err(p) => m.insert(p, (o.a, ids)),
                    },
                    Shape::List => {
                        let p = match o.a {
                            -1 => 0,
                            -2 => m.len(),
                            a => a as usize % (m.len() + 1),
                        };
                        m.insert(p, (o.a, ids));
                    }
                    Shape::Arena => m.push((o.a, ids)),
                }
                let c = slots[i].c.as_mut().unwrap();
                want = Some(back);
                res = call(|| c.ins(o.a, es)).map(dispose);
            }
            "rem" => {
                let m = &mut slots[i].model;
                let mut back = vec![];
                match C::SHAPE {
                    Shape::Keyed => {
                        if let Ok(p) = m.binary_search_by(|e| e.0.cmp(&o.a)) {
                            back = m.remove(p).1;
                        }
                    }
                    _ => {
                        if !m.is_empty() {
                            let p = match o.a {
                                -1 => 0,
                                -2 => m.len() - 1,
                                a => a as usize % m.len(),
                            };
                            back = m.remove(p).1;
                        }
                    }
                }
                want = Some(back);
                let c = slots[i].c.as_mut().unwrap();
                res = call(|| c.rem(o.a)).map(dispose);
            }
            "look" => {
                let c = slots[i].c.as_mut().unwrap();
                res = call(|| c.look(o.a)).map(|_| vec![]);
            }
            "part" => {
                let c = slots[i].c.as_mut().unwrap();
                res = call(|| c.part(n)).map(|_| vec![]);
            }
            "clear" => {
                slots[i].model.clear();
                let c = slots[i].c.as_mut().unwrap();
                res = call(|| c.clear()).map(|_| vec![]);
            }
            "into" => {
                let c = slots[i].c.take().unwrap();
                let m = std::mem::replace(&mut slots[i].model, vec![]);
                match call(move || c.into_part(n)) {
                    Ok(es) => {
                        let mut got = vec![];
                        for e in es {
                            got.extend(dispose(e));
                        }
                        if !slots[i].dirty {
                            let mut w: Vec<u32> = vec![];
                            if kind == "RadixMap" {
                                let all: BTreeSet<u32> = m.iter().flat_map(|e| e.1.clone()).collect();
                                if got.len() != std::cmp::min(n, m.len()) || !got.iter().all(|g| all.contains(g)) {
                                    bad(o, kind, format!("an owning iterator yielded {:?} of {:?}", got, all));
                                }
                                w = got.clone();
                            } else {
                                m.iter().take(n).for_each(|e| w.extend(&e.1));
                            }
                            if got != w {
                                bad(o, kind, format!("an owning iterator yielded {:?} instead of {:?}", got, w));
                            }
                        }
                        if n < m.len() {
                            probe("owning iterator abandoned");
                        }
                        slots[i].dirty = false;
                    }
                    Err(m) => res = Err(m),
                }
            }
            "drop" => {
                let c = slots[i].c.take().unwrap();
                slots[i].model.clear();
                res = call(move || drop(c)).map(|_| vec![]);
                slots[i].dirty = false;
            }
            "reuse" => {
                // grow one instance a little
                let ks: Vec<i64> = (0..4).map(|q| o.a + q).collect();
                for k in ks {
                    let es: Vec<Elem<C::A>> = sut(|| (0..C::PER).map(|_| Elem::new(k)).collect());
                    let ids: Vec<u32> = es.iter().map(|e| e.id).collect();
                    let m = &mut slots[i].model;
                    match C::SHAPE {
                        Shape::Keyed => match m.binary_search_by(|e| e.0.cmp(&k)) {
                            Ok(p) => m[p].1 = ids,
                            Err(p) => m.insert(p, (k, ids)),
                        },
                        Shape::List => {
                            let p = k.max(0) as usize % (m.len() + 1);
                            m.insert(p, (k, ids));
                        }
                        Shape::Arena => m.push((k, ids)),
                    }
                    let c = slots[i].c.as_mut().unwrap();
                    res = call(|| c.ins(k.max(0), es)).map(dispose);
                    if res.is_err() {
                        break;
                    }
                }
            }
            "split" if C::SPLIT => {
                let m = std::mem::replace(&mut slots[i].model, vec![]);
                let incl = n % 2 == 1;
                let (l, r): (Seen, Seen) = m.into_iter().partition(|e| if incl { e.0 <= o.a } else { e.0 < o.a });
                slots[i].model = l;
                let d = slots[i].dirty;
                let c = slots[i].c.as_mut().unwrap();
                match call(|| c.split(o.a, incl)) {
                    Ok(nc) => {
                        touched.push(j);
                        let old = std::mem::replace(&mut slots[j], Slot { c: Some(nc), model: r, dirty: d });
                        if let Some(c) = old.c {
                            res = call(move || drop(c)).map(|_| vec![]);
                            if res.is_err() {
                                panicked = true;
                                res = Ok(vec![]);
                            }
                        }
                    }
                    Err(m) => res = Err(m),
                }
            }
            "alg" | "join" if (o.name == "alg" && C::ALGEBRA) || (o.name == "join" && C::JOIN) => {
                if slots[j].c.is_none() {
                    slots[j] = mk(j as i64);
                }
                touched.push(j);
                let k = (n % 6) as i64;
                let l = slots[i].c.take().unwrap();
                let r = slots[j].c.take().unwrap();
                let d = slots[i].dirty || slots[j].dirty;
                let lm = std::mem::replace(&mut slots[i].model, vec![]);
                let rm = std::mem::replace(&mut slots[j].model, vec![]);
                slots[j].dirty = false;
                let join = o.name == "join";
                match call(move || if join { C::join(l, r) } else { C::algebra(k, l, r) }) {
                    Ok(c) => {
                        let mut model: Seen = vec![];
                        if join {
                            model.extend(lm);
                            model.extend(rm);
                        } else {
                            let lk: BTreeSet<i64> = lm.iter().map(|e| e.0).collect();
                            let rk: BTreeSet<i64> = rm.iter().map(|e| e.0).collect();
                            let all: BTreeSet<i64> = lk.union(&rk).cloned().collect();
                            for q in all {
                                let (a, b) = (lk.contains(&q), rk.contains(&q));
                                let keep = match k {
                                    0 | 4 => true,
                                    1 => a && b,
                                    2 | 5 => a && !b,
                                    _ => a != b,
                                };
                                if keep {
                                    let f = |m: &Seen| m.iter().find(|e| e.0 == q).map(|e| e.1.clone()).unwrap();
                                    model.push((q, if a { f(&lm) } else { f(&rm) }));
                                }
                            }
                            if !lm.is_empty() && !rm.is_empty() {
                                probe("set algebra on two non-empty collections");
                            }
                        }
                        slots[i] = Slot { c: Some(c), model, dirty: d };
                    }
                    Err(m) => {
                        res = Err(m);
                        slots[i].dirty = false;
                    }
                }
            }
            _ => {}
        }
        simrt::hist(|| format!("#{} {}({}) -> {:?}", i, o.name, o.a, res));
        simrt::trace(simrt::rng::hash2(o.id as u64, res.as_ref().map_or(1, |v| v.len() as u64)));
        let fired = sched::fired_total() - before;
        if fired > 0 {
            panicked = true;
            probe("nontrivial");
        }
        match res {
            Ok(got) => {
                nhanded += got.len();
                if let (Some(w), false) = (want, slots[i].dirty) {
                    if got != w && fired == 0 {
                        bad(o, kind, format!("handed back elements {:?} instead of {:?}", got, w));
                    }
                }
            }
            Err(m) => {
                if m != "injected" && !slots[i].dirty {
                    violation("panic", &format!("{} {}({}): {}", kind, o.name, o.a, strip(&m)));
                }
                if m != "injected" {
                    probe("library panic after a caller's panic");
                }
                // whatever is left of the collections involved is used further
                if slots[i].c.is_some() {
                    slots[i].dirty = true;
                }
            }
        }
        // what every collection holds
        let check_all = !panicked && (o.id % 16 == 0);
        for (q, sl) in slots.iter().enumerate() {
            if let Some(c) = &sl.c {
                if !check_all && !touched.contains(&q) {
                    continue;
                }
                unsafe { QUIET = true };
                let got = call(|| (c.seen(), c.len()));
                unsafe { QUIET = false };
                match got {
                    Ok((v, len)) => {
                        if !sl.dirty {
                            if v != sl.model {
                                bad(o, kind, format!("holds {:?} instead of {:?}", v, sl.model));
                            }
                            if len != v.len() {
                                bad(o, kind, format!("length {} with {} entries", len, v.len()));
                            }
                        }
                        sut(|| drop(v));
                    }
                    Err(m) if !sl.dirty => violation("panic", &format!("{}: {}", kind, strip(&m))),
                    Err(_) => {}
                }
            }
        }
        if !panicked {
            let live = tracked::live_count();
            let held: usize = slots.iter().map(|s| s.model.len() * C::PER).sum();
            if live != held {
                bad(o, kind, format!("{} elements exist, {} are in collections", live, held));
            }
        }
    }
    sched::set_op(5000);
    for sl in slots.iter_mut() {
        if let Some(c) = sl.c.take() {
            let d = sl.dirty;
            match call(move || drop(c)) {
                Err(m) if m != "injected" && !d => violation("panic", &format!("{} drop: {}", kind, strip(&m))),
                Err(_) => panicked = true,
                Ok(_) => {}
            }
        }
    }
    if sched::fired_total() == 0 && !panicked {
        if nhanded >= 10 {
            probe("nontrivial");
        }
        let live = tracked::live_count();
        if live != 0 {
            violation("leak", &format!("{}: {} elements never destroyed", kind, live));
        }
        let b = unsafe { simrt::arena::ARENA.live_blocks } - base;
        if b != 0 {
            violation("leak", &format!("{}: {} heap blocks never released", kind, b));
        }
    }
    unsafe {
        simrt::probe_n("caller callbacks", S.callbacks as u64);
    }
}
