//! one simulated run, completely described: replaying it is a pure function of this value and the code under test
use crate::json::J;
use simcore::{Cfg, Faults, Sched};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Spec {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    pub sys_seed: u64,
    pub tick_ns: u64,
    pub now_ns: u64,
    pub max_steps: u64,
    pub knobs: BTreeMap<String, i64>,
    /// workload, interpreted by the scenario
    pub ops: Vec<String>,
    pub sched: SchedS,
    pub faults: FaultS,
}
#[derive(Clone, Debug)]
pub enum SchedS {
    Random(u64, u64),
    Pct(u64, u64, u64),
    Explicit(BTreeMap<u64, u32>),
}
#[derive(Clone, Debug)]
pub enum FaultS {
    Random(u64, BTreeMap<String, (u64, u64)>),
    Explicit(BTreeMap<(String, u64), u32>),
}
impl Spec {
    pub fn knob(&self, k: &str) -> i64 {
        *self.knobs.get(k).unwrap_or(&0)
    }
    pub fn cfg(&self) -> Cfg {
        Cfg {
            sys_seed: self.sys_seed,
            sched: match &self.sched {
                SchedS::Random(s, p) => Sched::Random { seed: *s, switch_ppm: *p },
                SchedS::Pct(s, d, l) => Sched::Pct { seed: *s, depth: *d as _, len: *l },
                SchedS::Explicit(m) => Sched::Explicit(m.clone()),
            },
            faults: match &self.faults {
                FaultS::Random(s, r) => Faults::Random { seed: *s, rates: r.clone() },
                FaultS::Explicit(m) => Faults::Explicit(m.clone()),
            },
            tick_ns: self.tick_ns,
            now_ns: self.now_ns,
            max_steps: self.max_steps,
            args: vec![],
        }
    }
    pub fn to_j(&self) -> J {
        J::obj(vec![
            ("prop", J::s(&self.prop)),
            ("scenario", J::s(&self.scen)),
            ("seed", J::I(self.seed as i128)),
            ("sys_seed", J::I(self.sys_seed as i128)),
            ("tick_ns", J::I(self.tick_ns as i128)),
            ("now_ns", J::I(self.now_ns as i128)),
            ("max_steps", J::I(self.max_steps as i128)),
            ("knobs", J::O(self.knobs.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect())),
            ("ops", J::A(self.ops.iter().map(|s| J::s(s)).collect())),
            (
                "sched",
                match &self.sched {
                    SchedS::Random(s, p) => J::obj(vec![("random", J::A(vec![J::I(*s as i128), J::I(*p as i128)]))]),
                    SchedS::Pct(s, d, l) => {
                        J::obj(vec![("pct", J::A(vec![J::I(*s as i128), J::I(*d as i128), J::I(*l as i128)]))])
                    }
                    SchedS::Explicit(m) => J::obj(vec![(
                        "explicit",
                        J::A(m.iter().map(|(d, t)| J::A(vec![J::I(*d as i128), J::I(*t as i128)])).collect()),
                    )]),
                },
            ),
            (
                "faults",
                match &self.faults {
                    FaultS::Random(s, r) => J::obj(vec![
                        ("seed", J::I(*s as i128)),
                        (
                            "rates",
                            J::O(r
                                .iter()
                                .map(|(k, (p, m))| (k.clone(), J::A(vec![J::I(*p as i128), J::I(*m as i128)])))
                                .collect()),
                        ),
                    ]),
                    FaultS::Explicit(m) => J::obj(vec![(
                        "explicit",
                        J::A(m
                            .iter()
                            .map(|((k, q), v)| J::A(vec![J::s(k), J::I(*q as i128), J::I(*v as i128)]))
                            .collect()),
                    )]),
                },
            ),
        ])
    }
    pub fn from_j(j: &J) -> Spec {
        Spec {
            prop: j.get("prop").str().into(),
            scen: j.get("scenario").str().into(),
            seed: j.get("seed").u(),
            sys_seed: j.get("sys_seed").u(),
            tick_ns: j.get("tick_ns").u(),
            now_ns: j.get("now_ns").u(),
            max_steps: j.get("max_steps").u(),
            knobs: j.get("knobs").map().into_iter().map(|(k, v)| (k, v.int() as i64)).collect(),
            ops: j.get("ops").arr().iter().map(|s| s.str().to_string()).collect(),
            sched: {
                let s = j.get("sched");
                if let J::A(a) = s.get("random") {
                    SchedS::Random(a[0].u(), a[1].u())
                } else if let J::A(a) = s.get("pct") {
                    SchedS::Pct(a[0].u(), a[1].u(), a[2].u())
                } else {
                    SchedS::Explicit(s.get("explicit").arr().iter().map(|x| (x.arr()[0].u(), x.arr()[1].u() as u32)).collect())
                }
            },
            faults: {
                let s = j.get("faults");
                if let J::O(_) = s.get("rates") {
                    FaultS::Random(
                        s.get("seed").u(),
                        s.get("rates").map().into_iter().map(|(k, v)| (k, (v.arr()[0].u(), v.arr()[1].u()))).collect(),
                    )
                } else {
                    FaultS::Explicit(
                        s.get("explicit")
                            .arr()
                            .iter()
                            .map(|x| ((x.arr()[0].str().to_string(), x.arr()[1].u()), x.arr()[2].u() as u32))
                            .collect(),
                    )
                }
            },
        }
    }
}
/// what came out of one run
#[derive(Clone, Debug, Default)]
pub struct Res {
    /// ok | violation | inconclusive
    pub outcome: String,
    pub class: String,
    pub msg: String,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub hash: u64,
    pub sim_ns: u64,
    pub picks: Vec<(u64, u32)>,
    pub fired: Vec<(String, u64, u32)>,
    pub probes: BTreeMap<String, u64>,
    pub log: Vec<String>,
}
impl Res {
    pub fn to_j(&self) -> J {
        J::obj(vec![
            ("outcome", J::s(&self.outcome)),
            ("class", J::s(&self.class)),
            ("msg", J::s(&self.msg)),
            ("steps", J::I(self.steps as i128)),
            ("decisions", J::I(self.decisions as i128)),
            ("switches", J::I(self.switches as i128)),
            ("hash", J::I(self.hash as i128)),
            ("sim_ns", J::I(self.sim_ns as i128)),
            ("picks", J::A(self.picks.iter().map(|(a, b)| J::A(vec![J::I(*a as i128), J::I(*b as i128)])).collect())),
            (
                "fired",
                J::A(self.fired.iter().map(|(a, b, c)| J::A(vec![J::s(a), J::I(*b as i128), J::I(*c as i128)])).collect()),
            ),
            ("probes", J::O(self.probes.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect())),
            ("log", J::A(self.log.iter().map(|s| J::s(s)).collect())),
        ])
    }
    pub fn from_j(j: &J) -> Res {
        Res {
            outcome: j.get("outcome").str().into(),
            class: j.get("class").str().into(),
            msg: j.get("msg").str().into(),
            steps: j.get("steps").u(),
            decisions: j.get("decisions").u(),
            switches: j.get("switches").u(),
            hash: j.get("hash").u(),
            sim_ns: j.get("sim_ns").u(),
            picks: j.get("picks").arr().iter().map(|x| (x.arr()[0].u(), x.arr()[1].u() as u32)).collect(),
            fired: j
                .get("fired")
                .arr()
                .iter()
                .map(|x| (x.arr()[0].str().to_string(), x.arr()[1].u(), x.arr()[2].u() as u32))
                .collect(),
            probes: j.get("probes").map().into_iter().map(|(k, v)| (k, v.u())).collect(),
            log: j.get("log").arr().iter().map(|s| s.str().to_string()).collect(),
        }
    }
}
