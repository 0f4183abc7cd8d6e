//! seeded search over schedules, faults and workloads; minimisation; replay; evidence
use crate::exec::{run_one, Opts};
use crate::json::J;
use crate::scen::{self, Scen, Tier};
use crate::spec::*;
use simcore::{mix, Prng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
/// the i-th run of a check: a pure function of (seed, property, i)
pub fn make(prop: &str, vseed: u64, i: u64, tier: Tier) -> (&'static Scen, Spec) {
    let seed = mix(mix(vseed, hash_str(prop)), i);
    let mut r = Prng::new(seed);
    let l = scen::of(prop);
    let tot: u64 = l.iter().map(|s| s.weight as u64).sum();
    let mut x = r.below(tot);
    let mut sc = l[0];
    for s in &l {
        if x < s.weight as u64 {
            sc = s;
            break;
        }
        x -= s.weight as u64;
    }
    let mut sp = Spec {
        prop: prop.into(),
        scen: sc.name.into(),
        seed,
        sys_seed: r.next(),
        tick_ns: [200, 1_000, 10_000, 100_000][r.below(4) as usize],
        now_ns: 20_000 + r.below(300_000),
        max_steps: if prop == "P01" { 4_000_000 } else { 400_000 },
        knobs: BTreeMap::new(),
        ops: vec![],
        sched: SchedS::Random(0, 0),
        faults: FaultS::Explicit(BTreeMap::new()),
    };
    let s1 = r.next();
    sp.sched = match r.below(10) {
        0 => SchedS::Random(s1, 1_000_000),
        1 | 2 => SchedS::Random(s1, 300_000),
        3 | 4 => SchedS::Random(s1, 80_000),
        5 => SchedS::Random(s1, 15_000),
        6 => SchedS::Random(s1, 2_000),
        7 | 8 => SchedS::Pct(s1, 1 + r.below(4), 500 + r.below(6_000)),
        _ => SchedS::Pct(s1, 1 + r.below(8), 500 + r.below(40_000)),
    };
    let mut rates: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    if r.below(4) == 0 {
        rates.insert("stall".into(), (200 + r.below(4000), 30));
    }
    let mut g = Prng::new(r.next());
    (sc.gen)(&mut g, &mut sp, &mut rates, tier);
    if !rates.is_empty() {
        sp.faults = FaultS::Random(r.next(), rates);
    }
    (sc, sp)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    ok: u64,
    inconclusive: BTreeMap<String, u64>,
    steps: u64,
    decisions: u64,
    switches: u64,
    sim_ns: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    nontrivial: u64,
    viol: Vec<J>,
}

pub fn worker(prop: &str, vseed: u64, k: u64, w: u64, n: u64, wall: f64, tier: Tier, dir: &str) {
    let t0 = Instant::now();
    let mut a = Agg::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    let o = Opts { log: false, dir: format!("{}/run{}", dir, k) };
    let stop = format!("{}/stop", dir);
    let mut i = k;
    let mut samples = vec![];
    let kn = known(&std::env::var("NARSIM_VERIF").unwrap_or_default(), prop);
    while i < n && t0.elapsed().as_secs_f64() < wall {
        if a.runs % 8 == 0 && std::path::Path::new(&stop).exists() {
            break;
        }
        let (sc, sp) = make(prop, vseed, i, tier);
        let r = run_one(sc, &sp, &o);
        a.runs += 1;
        *a.scen.entry(sc.name.into()).or_insert(0) += 1;
        a.steps += r.steps;
        a.decisions += r.decisions;
        a.switches += r.switches;
        a.sim_ns += r.sim_ns;
        for (kd, ..) in &r.fired {
            *a.fired.entry(kd.clone()).or_insert(0) += 1;
        }
        for (p, c) in &r.probes {
            *a.probes.entry(p.clone()).or_insert(0) += c;
        }
        hs.insert(r.hash);
        let judged = r.probes.get("judged").copied().unwrap_or(0) > 0;
        if judged && (r.switches > 0 || !r.fired.is_empty()) {
            a.nontrivial += 1;
            nt.insert(r.hash);
        }
        if samples.len() < 2 && judged {
            samples.push(J::obj(vec![
                ("run", J::I(i as i128)),
                ("seed", J::I(sp.seed as i128)),
                ("scenario", J::s(sc.name)),
                ("ops", J::A(sp.ops.iter().take(12).map(|s| J::s(s)).collect())),
                ("n_ops", J::I(sp.ops.len() as i128)),
                ("faults_fired", J::I(r.fired.len() as i128)),
                ("steps", J::I(r.steps as i128)),
                ("context_switches", J::I(r.switches as i128)),
            ]));
        }
        match r.outcome.as_str() {
            "ok" => a.ok += 1,
            "violation" if kn.iter().any(|(m, _)| r.msg.contains(m.as_str())) => {
                *a.inconclusive.entry("ended by a known finding".into()).or_insert(0) += 1;
            }
            "violation" => {
                a.viol.push(J::obj(vec![("index", J::I(i as i128)), ("spec", sp.to_j()), ("res", r.to_j())]));
                let _ = std::fs::write(&stop, "x");
                break;
            }
            _ => {
                let key = if r.class == "stepcap" {
                    "stepcap: step limit of the run reached".to_string()
                } else {
                    format!("{}: {}", r.class, r.msg.chars().take(140).collect::<String>())
                };
                if a.inconclusive.len() < 40 || a.inconclusive.contains_key(&key) {
                    *a.inconclusive.entry(key).or_insert(0) += 1;
                } else {
                    *a.inconclusive.entry("other".into()).or_insert(0) += 1;
                }
            }
        }
        i += w;
    }
    let m = |m: &BTreeMap<String, u64>| J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect());
    let j = J::obj(vec![
        ("runs", J::I(a.runs as i128)),
        ("ok", J::I(a.ok as i128)),
        ("steps", J::I(a.steps as i128)),
        ("decisions", J::I(a.decisions as i128)),
        ("switches", J::I(a.switches as i128)),
        ("sim_ns", J::I(a.sim_ns as i128)),
        ("nontrivial", J::I(a.nontrivial as i128)),
        ("inconclusive", m(&a.inconclusive)),
        ("fired", m(&a.fired)),
        ("probes", m(&a.probes)),
        ("scen", m(&a.scen)),
        ("viol", J::A(a.viol)),
        ("samples", J::A(samples)),
        ("hashes", J::A(hs.iter().map(|h| J::I(*h as i128)).collect())),
        ("nthashes", J::A(nt.iter().map(|h| J::I(*h as i128)).collect())),
    ]);
    std::fs::write(format!("{}/w{}.json", dir, k), j.dump()).expect("write worker result");
}

pub struct CheckArgs {
    pub prop: String,
    pub vseed: u64,
    pub tier: Tier,
    pub verif: String,
    pub runs: Option<u64>,
    pub wall: Option<f64>,
    pub workers: Option<u64>,
}
/// entries of KNOWN_FINDINGS.txt: "finding: property=<id> match=<text in the violation message> -- <what fails>"
fn known(verif: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                if let Some(r) = r.strip_prefix(&format!("property={} ", prop)) {
                    if let Some((m, d)) = r.trim_start_matches("match=").split_once(" -- ") {
                        v.push((m.trim().to_string(), d.trim().to_string()));
                    }
                }
            }
        }
    }
    v
}
pub fn check(a: CheckArgs) -> i32 {
    let t0 = Instant::now();
    let dir = format!("{}/work/{}.{}", a.verif, a.prop, std::process::id());
    std::fs::create_dir_all(&dir).expect("work dir");
    let w = a.workers.unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16));
    let (dn, dw) = scen::budget(&a.prop, a.tier);
    let n = a.runs.unwrap_or(dn);
    let wall = a.wall.unwrap_or(dw);
    println!("check {} tier={} VERIF_SEED={} runs<={} wall<={}s workers={}", a.prop, a.tier.name(), a.vseed, n, wall, w);
    let mut kids = vec![];
    for k in 0..w {
        let c = std::process::Command::new(std::env::current_exe().unwrap())
            .args([
                "worker",
                &a.prop,
                &a.vseed.to_string(),
                &k.to_string(),
                &w.to_string(),
                &n.to_string(),
                &wall.to_string(),
                a.tier.name(),
                &dir,
            ])
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    let mut bad = 0;
    for mut c in kids {
        let s = c.wait().expect("wait");
        if !s.success() {
            bad += 1;
        }
    }
    let mut tot = Agg::default();
    let mut hs: HashSet<i128> = HashSet::new();
    let mut nts: HashSet<i128> = HashSet::new();
    let mut samples = vec![];
    for k in 0..w {
        let t = match std::fs::read_to_string(format!("{}/w{}.json", dir, k)) {
            Ok(t) => t,
            Err(_) => {
                bad += 1;
                continue;
            }
        };
        let j = J::parse(&t).expect("worker json");
        tot.runs += j.get("runs").u();
        tot.ok += j.get("ok").u();
        tot.steps += j.get("steps").u();
        tot.decisions += j.get("decisions").u();
        tot.switches += j.get("switches").u();
        tot.sim_ns += j.get("sim_ns").u();
        tot.nontrivial += j.get("nontrivial").u();
        for (m, f) in [
            (&mut tot.inconclusive, "inconclusive"),
            (&mut tot.fired, "fired"),
            (&mut tot.probes, "probes"),
            (&mut tot.scen, "scen"),
        ] {
            for (k, v) in j.get(f).map() {
                *m.entry(k).or_insert(0) += v.u();
            }
        }
        for h in j.get("hashes").arr() {
            hs.insert(h.int());
        }
        for h in j.get("nthashes").arr() {
            nts.insert(h.int());
        }
        if samples.len() < 4 {
            samples.extend(j.get("samples").arr().iter().cloned());
        }
        tot.viol.extend(j.get("viol").arr().iter().cloned());
    }
    let search_s = t0.elapsed().as_secs_f64();
    let kn = known(&a.verif, &a.prop);
    for (_, d) in &kn {
        println!("KNOWN-FINDING: property={} {}", a.prop, d);
    }
    tot.viol.sort_by_key(|v| v.get("index").int());
    let fresh: Vec<&J> = tot
        .viol
        .iter()
        .filter(|v| !kn.iter().any(|(m, _)| v.get("res").get("msg").str().contains(m.as_str())))
        .collect();
    let mut code = 0;
    let mut replay = String::new();
    if let Some(v) = fresh.first() {
        let sp = Spec::from_j(v.get("spec"));
        let r = Res::from_j(v.get("res"));
        println!("violation class={} seed={} scenario={}: {}", r.class, sp.seed, sp.scen, r.msg);
        let (sp2, r2) = minimise(&sp, &r, &dir, if a.tier == Tier::Quick { 45.0 } else { 180.0 });
        replay = write_replay(&a.verif, &sp2, &r2, &sp);
        println!("minimised: {} ops, {} scheduling deviations, {} faults", sp2.ops.len(), n_picks(&sp2), n_faults(&sp2));
        for o in &sp2.ops {
            println!("  op: {}", o);
        }
        println!("  {}", r2.msg);
        // the replay file has to fail the same way in a fresh process
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &replay, "--quiet"])
            .status()
            .map(|s| s.code().unwrap_or(-1))
            .unwrap_or(-1);
        println!("replay in a fresh process: {}", if st == 1 { "reproduced" } else { "NOT reproduced" });
        println!("VIOLATION property={} replay={}", a.prop, replay);
        code = 1;
    }
    let harness_err: u64 = tot.inconclusive.iter().filter(|(k, _)| k.starts_with("harness")).map(|(_, v)| *v).sum();
    // evidence
    let m = |m: &BTreeMap<String, u64>| J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i128))).collect());
    let ev = J::obj(vec![
        ("property", J::s(&a.prop)),
        ("tier", J::s(a.tier.name())),
        ("seed", J::I(a.vseed as i128)),
        ("level", J::s("exploration")),
        ("wall_s", J::N(t0.elapsed().as_secs_f64())),
        ("violations", J::I(fresh.len() as i128)),
        (
            "assumptions",
            J::A(vec![
                J::s("threads interleave at synchronisation, channel, clock, randomness, I/O and spawn/join operations (sequential consistency between them)"),
                J::s("the search samples schedules, faults and workloads; a clean batch is evidence, not proof"),
            ]),
        ),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::I(tot.runs as i128)),
                ("distinct_nontrivial", J::I(nts.len() as i128)),
                ("rule", J::s(&format!("run i of the check is a pure function of (VERIF_SEED, property, i): it fixes workload, schedule policy, faults and the code's randomness. Non-trivial: the oracle judged at least one observation ('judged' probe) and the run had at least one context switch or injected fault; distinct by hash of the complete event log (scheduling decisions + output). Workload: {}", scen::rule(&a.prop)))),
                ("samples", J::A(samples)),
                ("runs_completed_and_judged_ok", J::I(tot.ok as i128)),
                ("inconclusive_runs", m(&tot.inconclusive)),
                ("runs_per_hour", J::I((tot.runs as f64 / search_s.max(0.001) * 3600.0) as i128)),
                ("simulated_seconds", J::N(tot.sim_ns as f64 / 1e9)),
                ("scheduling_points", J::I(tot.steps as i128)),
                ("scheduling_decisions_with_choice", J::I(tot.decisions as i128)),
                ("context_switches", J::I(tot.switches as i128)),
                ("distinct_interleavings", J::I(hs.len() as i128)),
                ("distinct_interleavings_measure", J::s("hash over every scheduling decision and every printed line of the run")),
                ("faults_injected", m(&tot.fired)),
                ("probes", m(&tot.probes)),
                ("scenarios", m(&tot.scen)),
                ("components_real", J::A(scen::REAL.iter().map(|s| J::s(s)).collect())),
                ("components_stubbed", J::A(scen::STUB.iter().map(|s| J::s(s)).collect())),
                ("replay", J::s(&replay)),
            ]),
        ),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.verif));
    std::fs::write(format!("{}/evidence/{}.json", a.verif, a.prop), ev.pretty()).expect("evidence");
    println!(
        "runs={} ok={} inconclusive={} distinct={} nontrivial={} faults={} wall={:.1}s",
        tot.runs,
        tot.ok,
        tot.inconclusive.values().sum::<u64>(),
        hs.len(),
        nts.len(),
        tot.fired.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &tot.inconclusive {
        println!("  inconclusive x{}: {}", v, k);
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 && tot.runs > 0 && tot.inconclusive.values().sum::<u64>() == tot.runs {
        eprintln!("no run came to a result");
        return 2;
    }
    if code == 0 && (bad > 0 || harness_err > 0 || tot.runs == 0) {
        eprintln!("harness error: {} workers failed, {} harness panics", bad, harness_err);
        return 2;
    }
    code
}
fn n_picks(s: &Spec) -> usize {
    match &s.sched {
        SchedS::Explicit(m) => m.len(),
        _ => 999_999,
    }
}
fn n_faults(s: &Spec) -> usize {
    match &s.faults {
        FaultS::Explicit(m) => m.len(),
        _ => 999_999,
    }
}
fn write_replay(verif: &str, sp: &Spec, r: &Res, orig: &Spec) -> String {
    let d = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}-{:016x}.json", d, sp.prop, orig.seed);
    let j = J::obj(vec![
        ("property", J::s(&sp.prop)),
        ("class", J::s(&r.class)),
        ("violation", J::s(&r.msg)),
        ("event_hash", J::I(r.hash as i128)),
        ("spec", sp.to_j()),
        ("original_spec", orig.to_j()),
        ("log_tail", J::A(r.log.iter().map(|s| J::s(s)).collect())),
    ]);
    std::fs::write(&p, j.pretty()).expect("replay file");
    p
}
fn scen_of(sp: &Spec) -> &'static Scen {
    scen::of(&sp.prop).into_iter().find(|s| s.name == sp.scen).expect("scenario")
}
fn explicit(sp: &Spec, r: &Res) -> Spec {
    let mut s = sp.clone();
    s.sched = SchedS::Explicit(r.picks.iter().cloned().collect());
    s.faults = FaultS::Explicit(r.fired.iter().map(|(k, q, v)| ((k.clone(), *q), *v)).collect());
    s
}
pub fn minimise(sp: &Spec, r: &Res, dir: &str, wall: f64) -> (Spec, Res) {
    let t0 = Instant::now();
    let o = Opts { log: false, dir: format!("{}/min", dir) };
    let sc = scen_of(sp);
    let mut best = sp.clone();
    let mut bres = r.clone();
    let class = r.class.clone();
    let mut rng = Prng::new(sp.seed ^ 77);
    let time_left = |f: f64| t0.elapsed().as_secs_f64() < wall * f;
    let same = |s: &Spec| -> Option<Res> {
        let r = run_one(sc, s, &o);
        if r.outcome == "violation" && r.class == class {
            Some(r)
        } else {
            None
        }
    };
    // 1. drop operations; the schedule policy stays random (a few seeds each)
    let mut chunk = (best.ops.len() / 2).max(1);
    while time_left(0.55) {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && time_left(0.55) {
            let mut c = best.clone();
            let e = (i + chunk).min(c.ops.len());
            c.ops.drain(i..e);
            let mut hit = None;
            for t in 0..3 {
                if t > 0 {
                    let x = rng.next();
                    match &mut c.sched {
                        SchedS::Random(s, _) | SchedS::Pct(s, _, _) => *s = x,
                        _ => {}
                    }
                }
                if let Some(r) = same(&c) {
                    hit = Some(r);
                    break;
                }
            }
            match hit {
                Some(r) => {
                    best = c;
                    bres = r;
                    any = true;
                }
                None => i += chunk,
            }
        }
        if chunk == 1 {
            if !any {
                break;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
    // 2. drop whole fault kinds
    if let FaultS::Random(_, rates) = best.faults.clone() {
        for k in rates.keys() {
            let mut c = best.clone();
            if let FaultS::Random(_, r) = &mut c.faults {
                r.remove(k);
            }
            if let Some(r) = same(&c) {
                best = c;
                bres = r;
            }
        }
    }
    // 3. explicit schedule and faults
    let e = explicit(&best, &bres);
    let r = match same(&e) {
        Some(r) => r,
        None => return (best, bres),
    };
    best = e;
    bres = r;
    // 4. ddmin over scheduling deviations, then faults
    for what in 0..2 {
        let mut chunk = 1usize << 20;
        loop {
            let n = if what == 0 { n_picks(&best) } else { n_faults(&best) };
            if n == 0 || !time_left(if what == 0 { 0.9 } else { 1.0 }) {
                break;
            }
            chunk = chunk.min(n);
            let mut i = 0;
            let mut any = false;
            loop {
                let n = if what == 0 { n_picks(&best) } else { n_faults(&best) };
                if i >= n || !time_left(if what == 0 { 0.9 } else { 1.0 }) {
                    break;
                }
                let mut c = best.clone();
                let mut k = 0;
                let keep = |k: &mut usize| {
                    let x = *k;
                    *k += 1;
                    x < i || x >= i + chunk
                };
                if what == 0 {
                    if let SchedS::Explicit(m) = &mut c.sched {
                        m.retain(|_, _| keep(&mut k));
                    }
                } else if let FaultS::Explicit(m) = &mut c.faults {
                    m.retain(|_, _| keep(&mut k));
                }
                match same(&c) {
                    Some(r) => {
                        best = c;
                        bres = r;
                        any = true;
                    }
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                if !any || what == 1 {
                    break;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }
    // keep only the deviations which really happened
    let e = explicit(&best, &bres);
    if let Some(r) = same(&e) {
        best = e;
        bres = r;
    }
    (best, bres)
}

pub fn replay(path: &str, verif: &str, quiet: bool) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let j = J::parse(&t).expect("replay json");
    let sp = Spec::from_j(j.get("spec"));
    let dir = format!("{}/work/replay.{}", verif, std::process::id());
    let r = run_one(scen_of(&sp), &sp, &Opts { log: !quiet, dir: dir.clone() });
    let _ = std::fs::remove_dir_all(&dir);
    let same_hash = r.hash as i128 == j.get("event_hash").int();
    if !quiet {
        for l in &r.log {
            println!("{}", l);
        }
        println!("outcome={} class={} steps={} switches={} event log {}", r.outcome, r.class, r.steps, r.switches, if same_hash { "identical" } else { "DIFFERS" });
        println!("{}", r.msg);
    }
    if r.outcome == "violation" && r.class == j.get("class").str() && (same_hash || !quiet) {
        if !quiet {
            println!("VIOLATION property={} replay={}", sp.prop, path);
        }
        return 1;
    }
    0
}
/// one run by index, verbose
pub fn one(prop: &str, vseed: u64, i: u64, tier: Tier, verif: &str) -> i32 {
    let (sc, sp) = make(prop, vseed, i, tier);
    let dir = format!("{}/work/one.{}", verif, std::process::id());
    let r = run_one(sc, &sp, &Opts { log: true, dir: dir.clone() });
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}", sp.to_j().pretty());
    for l in &r.log {
        println!("{}", l);
    }
    println!("outcome={} class={} steps={} switches={} hash={:x} sim={}us fired={:?} probes={:?}", r.outcome, r.class, r.steps, r.switches, r.hash, r.sim_ns / 1000, r.fired, r.probes);
    println!("{}", r.msg);
    0
}
/// was the crate under test linked with the simulator of this program?
pub fn sane(verif: &str) -> i32 {
    let (sc, sp) = make("P03", 1, 0, Tier::Quick);
    let dir = format!("{}/work/sane.{}", verif, std::process::id());
    let r = run_one(sc, &sp, &Opts { log: false, dir: dir.clone() });
    let _ = std::fs::remove_dir_all(&dir);
    (r.msg.contains("no simulation")) as i32
}
/// runs many specs twice (second time under a different process and load) and compares event logs
pub fn selftest(vseed: u64, n: u64, verif: &str) -> i32 {
    let dir = format!("{}/work/self.{}", verif, std::process::id());
    let mut bad = 0;
    let mut runs = 0;
    for p in scen::props() {
        for i in 0..n {
            let (sc, sp) = make(p, vseed, i, Tier::Quick);
            let o = Opts { log: false, dir: format!("{}/a", dir) };
            let o2 = Opts { log: false, dir: format!("{}/b", dir) };
            let a = run_one(sc, &sp, &o);
            let sp2 = Spec::from_j(&J::parse(&sp.to_j().dump()).unwrap());
            let b = run_one(sc, &sp2, &o2);
            runs += 2;
            if a.hash != b.hash || a.outcome != b.outcome || a.steps != b.steps || a.fired != b.fired || a.probes != b.probes {
                bad += 1;
                println!("NONDETERMINISTIC {} run {}: {:x}/{} vs {:x}/{} ({} / {})", p, i, a.hash, a.steps, b.hash, b.steps, a.outcome, b.outcome);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("determinism self-test: {} runs, {} divergences", runs, bad);
    let _ = std::io::stdout().flush();
    if bad > 0 {
        2
    } else {
        0
    }
}
