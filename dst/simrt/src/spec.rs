//! A run specification: everything that determines one execution.
use crate::json::J;
use crate::sched::{fault_from, fault_name, Fault, Switch};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub thr: u8,
    pub name: String,
    pub a: i64,
    pub b: i64,
}
/// A kill point: thread, client operation, I/O index, torn prefix (-1: none)
pub type Crash = (u64, u32, u32, i64);
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spec {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    /// None: schedule and faults are drawn from the seed; Some: exactly these
    pub plan: Option<Plan>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub switches: Vec<Switch>,
    pub faults: Vec<Fault>,
    pub crash: Vec<Crash>,
}
fn h(x: u64) -> J {
    J::Str(format!("{:x}", x))
}
impl Plan {
    pub fn to_json(&self) -> J {
        J::obj()
            .set(
                "switches",
                self.switches
                    .iter()
                    .map(|s| J::Arr(vec![h(s.key), s.op.into(), s.step.into(), h(s.to)]))
                    .collect::<Vec<_>>(),
            )
            .set(
                "faults",
                self.faults
                    .iter()
                    .map(|f| J::Arr(vec![h(f.key), f.op.into(), f.n.into(), fault_name(f.kind).into(), f.arg.into()]))
                    .collect::<Vec<_>>(),
            )
            .set(
                "kills",
                self.crash
                    .iter()
                    .map(|c| J::Arr(vec![h(c.0), c.1.into(), c.2.into(), c.3.into()]))
                    .collect::<Vec<_>>(),
            )
    }
    pub fn from_json(p: &J) -> Plan {
        Plan {
            switches: p
                .get("switches")
                .arr()
                .iter()
                .map(|s| {
                    let s = s.arr();
                    Switch { key: s[0].u(), op: s[1].i() as u32, step: s[2].i() as u32, to: s[3].u() }
                })
                .collect(),
            faults: p
                .get("faults")
                .arr()
                .iter()
                .map(|f| {
                    let f = f.arr();
                    Fault {
                        key: f[0].u(),
                        op: f[1].i() as u32,
                        n: f[2].i() as u32,
                        kind: fault_from(f[3].s()),
                        arg: f[4].i(),
                    }
                })
                .collect(),
            crash: p
                .get("kills")
                .arr()
                .iter()
                .map(|c| {
                    let c = c.arr();
                    (c[0].u(), c[1].i() as u32, c[2].i() as u32, c[3].i())
                })
                .collect(),
        }
    }
}
impl Spec {
    pub fn c(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn to_json(&self) -> J {
        let mut cfg = J::obj();
        for (k, v) in &self.cfg {
            cfg.put(k, *v);
        }
        let ops: Vec<J> = self
            .ops
            .iter()
            .map(|o| {
                J::Arr(vec![o.id.into(), (o.thr as u32).into(), o.name.as_str().into(), o.a.into(), o.b.into()])
            })
            .collect();
        let mut j = J::obj()
            .set("property", self.prop.as_str())
            .set("seed", h(self.seed))
            .set("config", cfg)
            .set("ops", ops);
        match &self.plan {
            None => j.put("mode", "seeded"),
            Some(p) => {
                j.put("mode", "explicit");
                j.put("plan", p.to_json());
            }
        }
        j
    }
    pub fn from_json(j: &J) -> Spec {
        let mut cfg = BTreeMap::new();
        for (k, v) in j.get("config").map() {
            cfg.insert(k.clone(), v.i());
        }
        let ops = j
            .get("ops")
            .arr()
            .iter()
            .map(|o| {
                let o = o.arr();
                Op { id: o[0].i() as u32, thr: o[1].i() as u8, name: o[2].s().to_string(), a: o[3].i(), b: o[4].i() }
            })
            .collect();
        let plan =
            if j.get("mode").s() == "explicit" { Some(Plan::from_json(j.get("plan"))) } else { None };
        Spec { prop: j.get("property").s().to_string(), seed: j.get("seed").u(), cfg, ops, plan }
    }
}
