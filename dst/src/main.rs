//! Runner: generates runs from a seed, executes each in its own process under the simulator, minimises
//! and replays violations, and writes the evidence.
use simrt::json::J;
use simrt::rng::{hash2, hash3, Rng};
use simrt::spec::{Op, Plan, Spec};
use simrt::{raw, sched};
use std::collections::{BTreeMap, HashSet};

#[global_allocator]
static GLOBAL: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(a: i32, b: usize, c: usize, d: usize, e: usize) -> i32;
}
const RES: usize = 16 << 20;
static mut RESULT: *mut u8 = std::ptr::null_mut();
static mut SPEC: Option<Spec> = None;
static mut VERBOSE: bool = false;
/// limits of one run: processor time, and real time on a very busy machine
const RUN_CPU: i64 = 60;
const RUN_ALARM: u32 = 600;

unsafe fn put(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(RES - 8);
    std::ptr::copy(b.as_ptr(), RESULT.add(8), n);
    *(RESULT as *mut u64) = n as u64;
}
unsafe fn take() -> String {
    let n = *(RESULT as *const u64) as usize;
    String::from_utf8_lossy(std::slice::from_raw_parts(RESULT.add(8), n)).into_owned()
}

fn finish(v: Option<(&str, &str)>) -> ! {
    unsafe {
        simrt::arena::ARENA.on = false;
        let s = &*std::ptr::addr_of!(sched::S);
        let vf = &*std::ptr::addr_of!(simrt::vfs::V);
        let mut fired = J::obj();
        for (k, n) in &s.fired {
            fired.put(sched::fault_name(*k), *n);
        }
        let mut probes = J::obj();
        for (k, n) in (*std::ptr::addr_of!(simrt::PROBES)).iter() {
            probes.put(k, *n);
        }
        let mut j = J::obj()
            .set("steps", s.steps)
            .set("switches", s.nswitch)
            .set("preempt", s.preempt)
            .set("cas_fail", s.cas_fail)
            .set("threads", s.spawned)
            .set("sim_ns", s.now - 1_600_000_000_000_000_000)
            .set("calls", vf.calls)
            .set("mutations", vf.mutations)
            .set("callbacks", s.callbacks)
            .set("accesses", simrt::tsan::ACCESSES)
            .set("fired", fired)
            .set("probes", probes)
            .set("trace", simrt::TRACE);
        if let Some((c, m)) = v {
            j.put("class", c);
            j.put("msg", m);
            let plan = Plan {
                switches: s.switches.clone(),
                faults: s.faults.clone(),
                crash: (*std::ptr::addr_of!(simrt::KILLS)).clone(),
            };
            j.put("plan", plan.to_json());
        }
        if v.is_some() || VERBOSE {
            let h: Vec<J> = (*std::ptr::addr_of!(simrt::HISTORY)).iter().map(|x| J::from(x.as_str())).collect();
            j.put("history", h);
        }
        if VERBOSE {
            if let Some(l) = &*std::ptr::addr_of!(simrt::LOG) {
                j.put("log", l.iter().map(|x| J::from(x.as_str())).collect::<Vec<_>>());
            }
        }
        put(&j.text(true));
        raw::exit(0)
    }
}
fn root() {
    unsafe {
        let spec = (*std::ptr::addr_of!(SPEC)).as_ref().unwrap();
        let r = std::panic::catch_unwind(|| scen::run(spec));
        simrt::RT += 1;
        match r {
            Ok(()) => finish(None),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "?".into()
                };
                raw::write_str(2, &format!("HARNESS-ERROR: scenario panicked: {} ({})\n", m, spec.to_json().text(true)));
                raw::exit(70)
            }
        }
    }
}
/// Execute one run in a child process.
fn execute(spec: &Spec, verbose: bool) -> J {
    unsafe {
        *(RESULT as *mut u64) = 0;
        let pid = fork();
        if pid < 0 {
            harness("fork failed");
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            alarm(RUN_ALARM);
            let t = [0i64, 0, RUN_CPU, 0];
            raw::sys(38, 2, t.as_ptr() as usize, 0, 0, 0, 0);
            SPEC = Some(spec.clone());
            VERBOSE = verbose;
            if verbose {
                simrt::LOG = Some(vec![]);
            }
            simrt::FINISH = Some(finish);
            std::panic::set_hook(Box::new(panic_hook));
            simrt::init_run(spec);
            sched::start(root);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        if sig == 0 && code == 0 {
            let t = take();
            return match J::parse(&t) {
                Ok(j) => j,
                Err(e) => harness(&format!("bad result {}: {}", e, &t[..t.len().min(200)])),
            };
        }
        if sig != 0 {
            let class = match sig {
                27 => "hang",
                6 => "abort",
                11 | 7 => "memory-fault",
                4 | 5 => "trap",
                _ => harness(&format!("run killed by signal {}", sig)),
            };
            return J::obj().set("class", class).set("msg", format!("the process died with signal {}", sig));
        }
        harness(&format!("run ended with status {}: {}", code, spec.to_json().text(true)))
    }
}
pub static mut LAST_PANIC: Option<String> = None;
fn panic_hook(i: &std::panic::PanicInfo) {
    let _g = simrt::RtGuard::new();
    let m = i.to_string();
    simrt::log(|| format!("panic: {}", m));
    unsafe { scen::LAST_PANIC = Some(m) };
}
fn harness(m: &str) -> ! {
    simrt::harness_error(m)
}

fn cpus() -> Vec<usize> {
    let mut set = [0u64; 16];
    unsafe {
        raw::sys(204, 0, 128, set.as_mut_ptr() as usize, 0, 0, 0);
    }
    let v: Vec<usize> = (0..1024).filter(|i| set[i / 64] >> (i % 64) & 1 == 1).collect();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}

#[derive(Default)]
struct Stats {
    sums: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    probe_runs: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    samples: Vec<J>,
}
fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    if let Some(x) = m.get_mut(k) {
        *x += n;
    } else {
        m.insert(k.to_string(), n);
    }
}
impl Stats {
    fn record(&mut self, j: &J) {
        add(&mut self.sums, "runs", 1);
        for k in ["steps", "switches", "preempt", "cas_fail", "threads", "sim_ns", "calls", "mutations", "callbacks", "accesses"] {
            add(&mut self.sums, k, j.get(k).u());
        }
        for (k, v) in j.get("fired").map() {
            add(&mut self.fired, k, v.u());
            add(&mut self.fired_runs, k, 1);
        }
        for (k, v) in j.get("probes").map() {
            add(&mut self.probes, k, v.u());
            add(&mut self.probe_runs, k, 1);
        }
        let t = j.get("trace").u();
        self.traces.insert(t);
        if j.get("probes").get("nontrivial").u() > 0 {
            self.nontrivial.insert(t);
        }
    }
}

fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |h, b| hash2(h, b as u64));
    hash3(base, p, i)
}
fn gen(base: u64, prop: &str, tier: &str, i: u64) -> Spec {
    let seed = run_seed(base, prop, i);
    let mut rng = Rng::new(hash2(seed, 0x6e6));
    let mut s = Spec { prop: prop.to_string(), seed, ..Default::default() };
    scen::gen(&mut s, &mut rng, tier == "thorough", i);
    s
}

struct Args {
    v: Vec<String>,
}
impl Args {
    fn opt(&self, k: &str) -> Option<String> {
        self.v.iter().position(|x| x == k).and_then(|i| self.v.get(i + 1)).cloned()
    }
    fn flag(&self, k: &str) -> bool {
        self.v.iter().any(|x| x == k)
    }
}
fn main() {
    if simrt::hooks::force_link() == 1 {
        return;
    }
    let a = Args { v: std::env::args().collect() };
    unsafe { RESULT = raw::mmap_shared(RES) };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.v.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a, seed),
        Some("replay") => replay(&a),
        Some("one") => one(&a, seed),
        Some("selftest") => selftest(&a, seed),
        _ => {
            eprintln!("usage: dst check ID quick|thorough | replay FILE [-v] | one ID INDEX [-v] | selftest");
            raw::exit(64)
        }
    }
}
fn show(j: &J) {
    for l in j.get("log").arr() {
        println!("{}", l.s());
    }
    if j.get("log").is_null() {
        for l in j.get("history").arr() {
            println!("  {}", l.s());
        }
    }
}
fn one(a: &Args, seed: u64) {
    let id = &a.v[2];
    let i: u64 = a.v[3].parse().unwrap();
    let tier = a.opt("--tier").unwrap_or("quick".into());
    let s = gen(seed, id, &tier, i);
    raw::pin_to_cpu(cpus()[0]);
    let j = execute(&s, a.flag("-v"));
    println!("{}", s.to_json().text(false));
    show(&j);
    let mut k = j.clone();
    k.put("log", J::Null);
    k.put("history", J::Null);
    k.put("plan", J::Null);
    println!("{}", k.text(true));
}
fn replay(a: &Args) {
    let t = std::fs::read_to_string(&a.v[2]).unwrap_or_else(|e| harness(&e.to_string()));
    let j = J::parse(&t).unwrap_or_else(|e| harness(&e));
    let spec = Spec::from_json(j.get("run"));
    raw::pin_to_cpu(cpus()[0]);
    let r = execute(&spec, a.flag("-v"));
    show(&r);
    if r.get("class").is_null() {
        println!("replay: no violation (expected class {})", j.get("class").s());
        raw::exit(0);
    }
    let same = r.get("class") == j.get("class") && r.get("trace") == j.get("trace");
    println!("replay: {} {} (identical to the recorded execution: {})", r.get("class").s(), r.get("msg").s(), same);
    println!("VIOLATION property={} replay={}", spec.prop, a.v[2]);
    raw::exit(1);
}
/// Same seeds twice, in processes of differently sized worker pools: every run must give the same digest.
fn selftest(a: &Args, seed: u64) {
    let n: u64 = a.opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
    let ids: Vec<String> =
        a.opt("--id").map(|x| vec![x]).unwrap_or(scen::IDS.iter().map(|s| s.to_string()).collect());
    let mut bad = 0;
    for id in &ids {
        let dig = |workers: u64| -> Vec<u64> {
            let out = unsafe { raw::mmap_shared(n as usize * 16 + 64) as *mut u64 };
            let cp = cpus();
            let mut pids = vec![];
            for w in 0..workers {
                unsafe {
                    let pid = fork();
                    if pid == 0 {
                        RESULT = raw::mmap_shared(RES);
                        raw::pin_to_cpu(cp[w as usize % cp.len()]);
                        let mut i = w;
                        while i < n {
                            let s = gen(seed, id, "quick", i);
                            let j = execute(&s, false);
                            *out.add(i as usize) = j.get("trace").u() ^ hash2(j.get("steps").u(), j.get("accesses").u());
                            i += workers;
                        }
                        raw::exit(0);
                    }
                    pids.push(pid);
                }
            }
            for p in pids {
                let mut st = 0;
                unsafe { waitpid(p, &mut st, 0) };
                if st != 0 {
                    harness("selftest worker failed");
                }
            }
            unsafe { std::slice::from_raw_parts(out, n as usize).to_vec() }
        };
        let x = dig(3);
        let y = dig(13);
        let d: Vec<usize> = (0..n as usize).filter(|i| x[*i] != y[*i]).collect();
        println!("{}: {} runs twice, {} differ {:?}", id, n, d.len(), &d[..d.len().min(5)]);
        bad += d.len();
    }
    raw::exit(if bad == 0 { 0 } else { 2 });
}

const WST: usize = 64 << 20;
#[repr(C)]
struct Shared {
    stop: u32,
    found: u32,
    deadline: u64,
}
fn worker(w: u64, nw: u64, base: u64, id: &str, tier: &str, sh: *mut Shared, out: *mut u8, max: u64) -> ! {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        RESULT = raw::mmap_shared(RES);
        let cp = cpus();
        raw::pin_to_cpu(cp[w as usize % cp.len()]);
        let mut st = Stats::default();
        let mut i = w;
        let mut viol: Vec<J> = vec![];
        while i < max && std::ptr::read_volatile(&(*sh).stop) == 0 && raw::now_ns() < (*sh).deadline {
            let s = gen(base, id, tier, i);
            let j = execute(&s, false);
            st.record(&j);
            if !j.get("class").is_null() {
                viol.push(J::obj().set("spec", s.to_json()).set("result", j).set("index", i));
                std::ptr::write_volatile(&mut (*sh).stop, 1);
                break;
            }
            if st.samples.len() < 1 && j.get("probes").get("nontrivial").u() > 0 {
                let mut cfg = J::obj();
                for (k, v) in &s.cfg {
                    cfg.put(k, *v);
                }
                let ops: Vec<J> = s
                    .ops
                    .iter()
                    .take(25)
                    .map(|o| J::from(format!("t{} {} {} {}", o.thr, o.name, o.a, o.b)))
                    .collect();
                st.samples.push(
                    J::obj()
                        .set("index", i)
                        .set("seed", format!("{:x}", s.seed))
                        .set("config", cfg)
                        .set("ops", ops)
                        .set("ops_total", s.ops.len())
                        .set("steps", j.get("steps").u())
                        .set("context_switches", j.get("switches").u())
                        .set("faults", j.get("fired").clone())
                        .set("probes", j.get("probes").clone()),
                );
            }
            i += nw;
        }
        let m = |b: &BTreeMap<String, u64>| {
            let mut o = J::obj();
            for (k, v) in b {
                o.put(k, *v);
            }
            o
        };
        let j = J::obj()
            .set("sums", m(&st.sums))
            .set("fired", m(&st.fired))
            .set("fired_runs", m(&st.fired_runs))
            .set("probes", m(&st.probes))
            .set("probe_runs", m(&st.probe_runs))
            .set("samples", st.samples.clone())
            .set("violations", viol)
            .text(true);
        let b = j.as_bytes();
        if b.len() > WST / 2 {
            harness("worker report too large");
        }
        std::ptr::copy(b.as_ptr(), out.add(32), b.len());
        let tp = out.add(WST / 2) as *mut u64;
        let cap = WST / 32;
        let mut n = 0;
        for t in st.traces.iter().take(cap) {
            *tp.add(n) = *t;
            n += 1;
        }
        let mut k = 0;
        let np = tp.add(cap);
        for t in st.nontrivial.iter().take(cap) {
            *np.add(k) = *t;
            k += 1;
        }
        *(out as *mut u64) = b.len() as u64;
        *(out.add(8) as *mut u64) = n as u64;
        *(out.add(16) as *mut u64) = k as u64;
        raw::exit(0)
    }
}
fn merge(dst: &mut BTreeMap<String, u64>, j: &J) {
    for (k, v) in j.map() {
        add(dst, k, v.u());
    }
}
fn check(a: &Args, base: u64) {
    let t0 = raw::now_ns();
    let id = a.v[2].clone();
    let tier = a.v.get(3).cloned().unwrap_or("quick".into());
    if !scen::IDS.contains(&id.as_str()) {
        harness("unknown property");
    }
    let secs: f64 = a
        .opt("--secs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 1500.0 } else { 60.0 });
    let max: u64 = a.opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let out_dir = a.opt("--out").unwrap_or("/verif".into());
    let cp = cpus();
    let nw = a.opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(cp.len().min(16)) as u64;
    println!("check {} tier={} VERIF_SEED={} workers={} budget={}s", id, tier, base, nw, secs);
    let sh = unsafe { raw::mmap_shared(4096) } as *mut Shared;
    unsafe { (*sh).deadline = t0 + (secs * 1e9) as u64 };
    let mut ws = vec![];
    for w in 0..nw {
        unsafe {
            let out = raw::mmap_shared(WST);
            let pid = fork();
            if pid < 0 {
                harness("fork failed");
            }
            if pid == 0 {
                worker(w, nw, base, &id, &tier, sh, out, max);
            }
            ws.push((pid, out));
        }
    }
    let mut st = Stats::default();
    let mut viols = vec![];
    let mut failed = false;
    for (pid, out) in &ws {
        let mut s = 0;
        unsafe {
            while waitpid(*pid, &mut s, 0) < 0 {}
            if s != 0 {
                failed = true;
                (*sh).stop = 1;
                continue;
            }
            let n = *(*out as *const u64) as usize;
            let t = std::slice::from_raw_parts(out.add(32), n);
            let j = J::parse(std::str::from_utf8(t).unwrap()).unwrap();
            merge(&mut st.sums, j.get("sums"));
            merge(&mut st.fired, j.get("fired"));
            merge(&mut st.fired_runs, j.get("fired_runs"));
            merge(&mut st.probes, j.get("probes"));
            merge(&mut st.probe_runs, j.get("probe_runs"));
            st.samples.extend(j.get("samples").arr().iter().cloned());
            viols.extend(j.get("violations").arr().iter().cloned());
            let tp = out.add(WST / 2) as *const u64;
            let nt = *(out.add(8) as *const u64) as usize;
            st.traces.extend(std::slice::from_raw_parts(tp, nt));
            let nn = *(out.add(16) as *const u64) as usize;
            st.nontrivial.extend(std::slice::from_raw_parts(tp.add(WST / 32), nn));
        }
    }
    if failed {
        harness("a worker failed");
    }
    let explore_s = (raw::now_ns() - t0) as f64 / 1e9;
    viols.sort_by_key(|v| v.get("index").u());
    let mut replay_path = None;
    if let Some(v) = viols.first() {
        raw::pin_to_cpu(cp[0]);
        let spec = Spec::from_json(v.get("spec"));
        let res = v.get("result").clone();
        println!("found {}: {} (run {}, seed {:x})", res.get("class").s(), res.get("msg").s(), v.get("index").u(), spec.seed);
        let limit = raw::now_ns() + if tier == "thorough" { 300 } else { 90 } * 1_000_000_000;
        let (min, r) = minimise(&spec, &res, limit);
        let again = execute(&min, false);
        let exact = again.get("trace") == r.get("trace") && again.get("class") == r.get("class");
        if again.get("class").is_null() {
            harness("violation does not replay");
        }
        let f = J::obj()
            .set("property", id.as_str())
            .set("class", r.get("class").clone())
            .set("message", r.get("msg").clone())
            .set("trace", r.get("trace").clone())
            .set("replays_exactly", exact)
            .set("found_by", J::obj().set("verif_seed", base).set("index", v.get("index").u()).set("run_seed", format!("{:x}", spec.seed)))
            .set("original", J::obj().set("ops", spec.ops.len()).set("message", res.get("msg").clone()))
            .set("history", r.get("history").clone())
            .set("run", min.to_json());
        let dir = format!("{}/replays", out_dir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:08x}.json", dir, id, hash2(min.seed, min.ops.len() as u64) as u32);
        if std::fs::write(&path, f.text(false)).is_err() {
            harness("cannot write replay file");
        }
        println!(
            "minimised: {} of {} operations, {} switches, {} faults, {} kills; {}: {}",
            min.ops.len(),
            spec.ops.len(),
            min.plan.as_ref().map_or(0, |p| p.switches.len()),
            min.plan.as_ref().map_or(0, |p| p.faults.len()),
            min.plan.as_ref().map_or(0, |p| p.crash.len()),
            r.get("class").s(),
            r.get("msg").s()
        );
        for l in r.get("history").arr().iter().rev().take(30).rev() {
            println!("  {}", l.s());
        }
        replay_path = Some(path);
    }
    // ---- evidence
    let runs = st.sums.get("runs").copied().unwrap_or(0);
    let m = |b: &BTreeMap<String, u64>| {
        let mut o = J::obj();
        for (k, v) in b {
            o.put(k, *v);
        }
        o
    };
    let info = scen::info(&id);
    let mut cov = J::obj()
        .set("evaluations", runs)
        .set("distinct_nontrivial", st.nontrivial.len())
        .set("rule", info.rule)
        .set("samples", st.samples.iter().take(4).cloned().collect::<Vec<_>>())
        .set("runs_per_hour", runs as f64 / explore_s * 3600.0)
        .set("explore_s", explore_s)
        .set("distinct_executions", st.traces.len())
        .set("distinct_measure", "64-bit digest of the whole event log (thread switches, I/O calls and data, operation results, faults)")
        .set("simulated_seconds", st.sums.get("sim_ns").copied().unwrap_or(0) as f64 / 1e9)
        .set("totals", m(&st.sums))
        .set("faults_fired", m(&st.fired))
        .set("faults_fired_in_runs", m(&st.fired_runs))
        .set("probes", m(&st.probes))
        .set("probes_hit_in_runs", m(&st.probe_runs))
        .set("real_components", info.real)
        .set("stub_components", info.stub)
        .set("workers", nw);
    if let Some(p) = &replay_path {
        cov.put("replay", p.as_str());
    }
    let ev = J::obj()
        .set("property", id.as_str())
        .set("tier", tier.as_str())
        .set("seed", base)
        .set("level", info.level)
        .set("coverage", cov)
        .set("assumptions", info.assumptions.iter().map(|s| J::from(*s)).collect::<Vec<_>>())
        .set("wall_s", (raw::now_ns() - t0) as f64 / 1e9)
        .set("violations", viols.len().min(1));
    let dir = format!("{}/evidence", out_dir);
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, id), ev.text(false)).is_err() {
        harness("cannot write evidence");
    }
    println!(
        "{}: {} runs ({} distinct non-trivial) in {:.1}s, {} steps, {} switches, faults {:?}",
        id,
        runs,
        st.nontrivial.len(),
        explore_s,
        st.sums.get("steps").unwrap_or(&0),
        st.sums.get("switches").unwrap_or(&0),
        st.fired
    );
    println!("probes {:?}", st.probe_runs);
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", id, p);
        raw::exit(1);
    }
    if runs == 0 {
        harness("no run was made");
    }
    raw::exit(0)
}

// ---- minimisation ------------------------------------------------------------------------------------
fn ddmin<T: Clone>(items: &[T], mut test: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items.to_vec();
    if cur.is_empty() {
        return cur;
    }
    if test(&[]) {
        return vec![];
    }
    let mut n = 2;
    while cur.len() >= 2 {
        let chunk = (cur.len() + n - 1) / n;
        let mut i = 0;
        let mut reduced = false;
        while i < cur.len() {
            let e = (i + chunk).min(cur.len());
            let mut t = cur[..i].to_vec();
            t.extend_from_slice(&cur[e..]);
            if test(&t) {
                cur = t;
                reduced = true;
            } else {
                i = e;
            }
        }
        if reduced {
            n = n.max(3) - 1;
        } else if chunk == 1 {
            break;
        } else {
            n = (n * 2).min(cur.len());
        }
    }
    cur
}
fn minimise(spec: &Spec, res: &J, limit: u64) -> (Spec, J) {
    let class = res.get("class").s().to_string();
    if res.get("plan").is_null() {
        // the process died without a report: replay by seed
        return (spec.clone(), res.clone());
    }
    let mut s = spec.clone();
    s.plan = Some(Plan::from_json(res.get("plan")));
    let r = execute(&s, false);
    if r.get("class").s() != class {
        println!("note: recorded plan does not reproduce; keeping the seeded run");
        return (spec.clone(), res.clone());
    }
    let best = std::cell::RefCell::new((s, r));
    let mut tries = 0u64;
    let mut attempt = |c: Spec| -> bool {
        if raw::now_ns() > limit {
            return false;
        }
        tries += 1;
        let r = execute(&c, false);
        if r.get("class").s() == class {
            *best.borrow_mut() = (c, r);
            true
        } else {
            false
        }
    };
    for _round in 0..3 {
        let before = {
            let b = best.borrow();
            (b.0.ops.len(), b.0.plan.as_ref().unwrap().switches.len(), b.0.plan.as_ref().unwrap().faults.len())
        };
        let cur = best.borrow().0.clone();
        ddmin(&cur.ops, |ops| {
            let mut c = best.borrow().0.clone();
            c.ops = ops.to_vec();
            attempt(c)
        });
        let cur = best.borrow().0.clone();
        ddmin(&cur.plan.as_ref().unwrap().faults, |f| {
            let mut c = best.borrow().0.clone();
            c.plan.as_mut().unwrap().faults = f.to_vec();
            attempt(c)
        });
        let cur = best.borrow().0.clone();
        ddmin(&cur.plan.as_ref().unwrap().switches, |w| {
            let mut c = best.borrow().0.clone();
            c.plan.as_mut().unwrap().switches = w.to_vec();
            attempt(c)
        });
        let after = {
            let b = best.borrow();
            (b.0.ops.len(), b.0.plan.as_ref().unwrap().switches.len(), b.0.plan.as_ref().unwrap().faults.len())
        };
        if after == before {
            break;
        }
    }
    // smaller arguments
    let n = best.borrow().0.ops.len();
    for i in 0..n {
        let o: Op = best.borrow().0.ops[i].clone();
        for (x, y) in [(0, 0), (o.a, 0), (0, o.b), (o.a / 2, o.b)] {
            if (x, y) != (o.a, o.b) {
                let mut c = best.borrow().0.clone();
                c.ops[i].a = x;
                c.ops[i].b = y;
                if attempt(c) {
                    break;
                }
            }
        }
    }
    println!("minimiser: {} candidate runs", tries);
    let (mut s, r) = best.into_inner();
    // drop plan entries that no longer matter (their operation is gone)
    let p = Plan::from_json(r.get("plan"));
    let mut c = s.clone();
    c.plan = Some(p);
    let rr = execute(&c, false);
    if rr.get("class") == r.get("class") && rr.get("trace") == r.get("trace") {
        s = c;
        return (s, rr);
    }
    (s, r)
}
