//! P01 commands complete, P02 no line kills the session, P03 workers live, P19 flush and query commands
use crate::exec::{fail, inconclusive};
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::{createNar, Nar};
use nar20_1::NarInputFacade;
use simcore::Prng;
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P01", name: "session", weight: 6, gen: gen_mixed, run: run_session, viol: &["deadlock", "stepcap", "cpu", "panic-main", "crash", "exit"] },
    Scen { prop: "P01", name: "listing", weight: 3, gen: gen_listing, run: run_session, viol: &["deadlock", "stepcap", "cpu", "panic-main", "crash", "exit"] },
    Scen { prop: "P01", name: "procedural", weight: 3, gen: gen_proc, run: run_session, viol: &["deadlock", "stepcap", "cpu", "panic-main", "crash", "exit"] },
    Scen { prop: "P02", name: "hostile", weight: 8, gen: gen_hostile, run: run_session, viol: &["panic-main", "crash", "exit"] },
    Scen { prop: "P02", name: "ops", weight: 4, gen: gen_ops, run: run_session, viol: &["panic-main", "crash", "exit"] },
    Scen { prop: "P02", name: "ordinary", weight: 3, gen: gen_mixed, run: run_session, viol: &["panic-main", "crash", "exit"] },
    Scen { prop: "P02", name: "procedural", weight: 4, gen: gen_proc, run: run_session, viol: &["panic-main", "crash", "exit"] },
    Scen { prop: "P03", name: "ordinary", weight: 4, gen: gen_mixed, run: run_workers, viol: &["panic-worker", "crash", "deadlock"] },
    Scen { prop: "P03", name: "hostile", weight: 4, gen: gen_hostile, run: run_workers, viol: &["panic-worker", "crash", "deadlock"] },
    Scen { prop: "P03", name: "ops", weight: 2, gen: gen_ops, run: run_workers, viol: &["panic-worker", "crash", "deadlock"] },
    Scen { prop: "P03", name: "procedural", weight: 5, gen: gen_proc, run: run_workers, viol: &["panic-worker", "crash", "deadlock"] },
    Scen { prop: "P03", name: "declarative", weight: 5, gen: crate::s_decl::gen_decl, run: run_carried, viol: &["panic-worker", "crash", "deadlock"] },
    Scen { prop: "P19", name: "flush", weight: 1, gen: gen_listing, run: run_flush, viol: crate::scen::DEAD },
];

/// a reasoner as the shipped binary sets it up
pub fn new_nar() -> Nar {
    createNar()
}
pub fn enter(nar: &mut Nar, l: &str) -> Vec<String> {
    let mut q = false;
    NarInputFacade::input(nar, &l.to_string(), &mut q)
}
/// most of the run's step budget is used: the workload is cut here so that the end checks still run
pub fn spent() -> bool {
    simcore::with(|s| s.steps * 10 > s.cfg.max_steps * 6).unwrap_or(false)
}
pub const IDLE: u64 = 60_000_000_000;
pub fn idle() {
    simcore::wait_idle(IDLE);
}
/// seeds the procedural side with a small world
pub fn proc_names() -> (Vec<&'static str>, Vec<&'static str>) {
    (vec!["a", "b", "c", "d", "e"], vec!["^x", "^y", "^z"])
}
pub fn proc_line(r: &mut Prng) -> String {
    let (ev, ops) = proc_names();
    let e = |r: &mut Prng| pick(r, &ev).to_string();
    match r.below(24) {
        0..=6 => format!("{}. :|:", e(r)),
        7 | 8 => format!("{}! :|:", e(r)),
        9 => format!("{}! {{0 0.9}} :|:", e(r)),
        10 => format!("<{{{}}} --> {}>. :|:", e(r), e(r)),
        11 | 12 => format!("<({},<{{({{SELF}}*{})}} --> {}>) =/> {}>.", e(r), e(r), pick(r, &ops), e(r)),
        13 => format!("<({},{}) =/> {}>.", e(r), pick(r, &ops), e(r)),
        14 => format!("{}. :|:", pick(r, &ops)),
        15 | 16 => format!("<{{({{SELF}}*{})}} --> {}>. :|:", e(r), pick(r, &ops)),
        _ => "!sp".into(),
    }
}
pub fn gen_proc(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let (_, ops) = proc_names();
    let k = r.below(4) as usize;
    for o in ops.iter().take(k) {
        sp.ops.push(format!("!por NOP {}", o));
    }
    if r.below(6) == 0 {
        sp.ops.push("!por execinj".into());
    }
    if r.below(6) == 0 {
        sp.ops.push("!por nlpRel0".into());
    }
    if r.below(3) == 0 {
        sp.ops.push(format!("!peb {}", r.below(2)));
    }
    let n = 10 + r.below(if tier == Tier::Quick { 80 } else { 300 });
    for _ in 0..n {
        sp.ops.push(match r.below(40) {
            0 => "!pse".into(),
            1 => format!("!s{}", 1 + r.below(3)),
            2 => "<a --> b>.".into(),
            3 => format!("!por NOP {}", pick(r, &ops)),
            4 => "@idle".into(),
            5 => format!("!peb {}", r.below(2)),
            6 => format!("<({},{}) =/> ?q>?", pick(r, &["a", "b"]), pick(r, &ops)),
            _ => proc_line(r),
        });
    }
    if r.below(3) == 0 {
        rates.insert("rng_extreme".into(), (20_000 + r.below(200_000), 60));
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
}
/// argument of an operation, as a user may write it
fn op_arg(r: &mut Prng, depth: u32) -> String {
    let n = ["a", "b", "d", "{SELF}", "and", "{a}", "[b]", "(a*b)", "(a*b*c)", "$v", "#v", "<a --> b>", "<(a*b) --> r>", "<(a*(b,and,c)) --> r>", "<(a*(b,or,c)) --> r>", "<(a*b*c) --> r>", "<{a} <-> {b}>", "()", "^x"];
    match r.below(8) {
        0..=3 => pick(r, &n).to_string(),
        4 | 5 if depth > 0 => {
            let k = 1 + r.below(3);
            let v: Vec<String> = (0..k).map(|_| if r.below(5) == 0 { pick(r, &n).to_string() } else { op_term(r, depth - 1) }).collect();
            format!("({})", v.join(","))
        }
        6 if depth > 0 => op_term(r, depth - 1),
        _ => pick(r, &n).to_string(),
    }
}
/// call of an operation with any number and kind of arguments
fn op_term(r: &mut Prng, depth: u32) -> String {
    let names = ["^x", "^y", "^nal9_exeAndInject", "^nal9_exeAndInject", "^nlpRel0", "^nlpRel0", "^nop", "^"];
    let o = pick(r, &names).to_string();
    if r.below(12) == 0 {
        return o;
    }
    let k = if r.below(3) == 0 { r.below(5) } else { 1 + r.below(2) };
    let mut v: Vec<String> = if r.below(12) == 0 { vec![] } else { vec!["{SELF}".into()] };
    for _ in 0..k {
        let a = op_arg(r, depth);
        v.push(a);
    }
    if v.is_empty() {
        v.push("a".into());
    }
    match r.below(12) {
        0 => format!("<({}) --> {}>", v.join("*"), o),
        1 => format!("<{{{}}} --> {}>", v.join(","), o),
        _ => format!("<{{({})}} --> {}>", v.join("*"), o),
    }
}
/// registered operations are called with odd arguments
pub fn gen_ops(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _tier: Tier) {
    sp.ops.push("!por execinj".into());
    sp.ops.push("!por nlpRel0".into());
    for o in ["^x", "^y"] {
        if r.below(3) > 0 {
            sp.ops.push(format!("!por NOP {}", o));
        }
    }
    sp.ops.push(format!("!peb {}", r.below(4) / 3));
    for _ in 0..1 + r.below(3) {
        let d = r.below(3) as u32;
        let o = op_term(r, d);
        let g = pick(r, &["g", "h", "a"]).to_string();
        sp.ops.push(match r.below(8) {
            0 => format!("<(a,{},{}) =/> {}>.", o, op_term(r, 1), g),
            1 => format!("<({},a) =/> {}>.", o, g),
            2 => format!("<(a,b,{}) =/> {}>.", o, g),
            3 => format!("<a =/> {}>.", o),
            _ => format!("<(a,{}) =/> {}>.", o, g),
        });
        let steps = 3 + r.below(12);
        for _ in 0..steps {
            if r.below(3) > 0 {
                sp.ops.push(format!("{}! :|:", g));
            }
            sp.ops.push(match r.below(6) {
                0 => format!("{}. :|:", o),
                1 => format!("{}! :|:", o),
                2 => "b. :|:".into(),
                _ => "a. :|:".into(),
            });
            sp.ops.push("!sp".into());
        }
        sp.ops.push(["@idle", "!s2", "!pse", "!dt"][r.below(4) as usize].into());
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000 + r.below(200_000), 60));
    }
}
pub fn gen_mixed(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let n = 4 + r.below(if tier == Tier::Quick { 28 } else { 60 });
    let mut v = vec![];
    {
        let mut g = G::new(r);
        for _ in 0..n {
            let l = match g.r.below(40) {
                0..=16 => g.judgement(),
                17..=19 => g.question(),
                20..=31 => format!("!s{}", 1 + g.r.below(5)),
                32 => "!dt".into(),
                33 => "!dmd".into(),
                34 => "!dtf".into(),
                35 => "@idle".into(),
                36 => "// comment".into(),
                37 => String::new(),
                38 => "!s".into(),
                _ => proc_line(g.r),
            };
            v.push(l);
        }
    }
    sp.ops = v;
    if r.below(3) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
pub fn gen_listing(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _tier: Tier) {
    let n = 6 + r.below(24);
    let mut v = vec![];
    {
        let mut g = G::new(r);
        for _ in 0..3 {
            v.push(g.judgement());
        }
        for _ in 0..n {
            let l = match g.r.below(20) {
                0..=4 => g.judgement(),
                5 => g.question(),
                6..=11 => format!("!s{}", 1 + g.r.below(3)),
                12..=14 => "!dt".into(),
                15 => "!dmd".into(),
                16 | 17 => {
                    v.push("!dtf".into());
                    if g.r.below(2) == 0 { "@idle".into() } else { "!s".into() }
                }
                18 => "!sp".into(),
                _ => "!dt".into(),
            };
            v.push(l);
        }
    }
    sp.ops = v;
    let _ = rates;
}
pub fn gen_hostile(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_mixed(r, sp, rates, tier);
    let k = 1 + r.below(10);
    for _ in 0..k {
        let l = hostile(r);
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        sp.ops.insert(at, l);
    }
    // operations exist and time passes, so that accepted oddities are acted upon
    if r.below(2) == 0 {
        sp.ops.insert(0, "!por NOP ^x".into());
    }
    for _ in 0..r.below(20) {
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        let l = if r.below(3) == 0 { "!s3".to_string() } else { proc_line(r) };
        sp.ops.insert(at, l);
    }
}
pub fn drive(nar: &mut Nar, ops: &[String]) {
    for l in ops {
        if l == "@idle" {
            idle();
        } else {
            enter(nar, l);
            simcore::probe("judged");
        }
    }
}
fn run_session(sp: &Spec) {
    let mut nar = new_nar();
    drive(&mut nar, &sp.ops);
    idle();
    // and it still works
    enter(&mut nar, "<zz1 --> zz2>.");
    enter(&mut nar, "!s");
    enter(&mut nar, "zz3. :|:");
    enter(&mut nar, "!sp");
    enter(&mut nar, "!dt");
    idle();
}
fn dead_worker() {
    if let Some(t) = simcore::threads().into_iter().find(|t| t.panicked.is_some() && t.id != 0) {
        fail("panic-worker", &format!("background thread t{} {} panicked: {}", t.id, t.name, t.panicked.unwrap()));
    }
}
fn run_workers(sp: &Spec) {
    let mut nar = new_nar();
    for l in &sp.ops {
        if spent() {
            break;
        }
        if l == "@idle" {
            idle();
        } else {
            enter(&mut nar, l);
        }
        dead_worker();
    }
    idle();
    dead_worker();
    for t in simcore::threads() {
        if t.id != 0 && t.done && t.name != "child" && t.panicked.is_none() && is_worker(t.id) {
            fail("worker-ended", &format!("background thread t{} {} ended while its reasoner is in use", t.id, t.name));
        }
    }
    simcore::probe("judged");
    drop_and_join(nar);
}
/// the long-lived workers are the threads the reasoner started at creation
fn is_worker(id: usize) -> bool {
    id <= 2
}
fn drop_and_join(nar: Nar) {
    drop(nar);
    idle();
    for t in simcore::threads() {
        if t.id != 0 && !t.done {
            fail("worker-leak", &format!("background thread t{} {} still runs ({}) after its reasoner was dropped", t.id, t.name, t.why));
        }
    }
}
/// accepted declarative work is carried out
fn run_carried(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, rec::CARRIED);
    for l in &sp.ops {
        crate::s_decl::step(&mut nar, l);
        if l == "@idle" {
            idle();
            if let Some(m) = rec::with(|r| r.unmet()) {
                fail("work-lost", &m);
            }
        }
        dead_worker();
    }
    idle();
    dead_worker();
    if let Some(m) = rec::with(|r| r.unmet()) {
        fail("work-lost", &m);
    }
    rec::stop();
    drop_and_join(nar);
}
fn beliefs_snapshot(nar: &Nar) -> std::collections::BTreeSet<(T, String, Vec<i64>)> {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let mem = Arc::clone(&peek(&sh).mem);
    let m = mem.read();
    let mut s = std::collections::BTreeSet::new();
    for (n, c) in m.concepts.iter() {
        for b in c.payload.beliefsByExp.iter() {
            let b = peek(b);
            let mut ids = b.stamp.ids.clone();
            ids.sort();
            s.insert((model::from(n), model::from(&b.term).to_string(), ids));
        }
    }
    s
}
fn run_flush(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, rec::LISTS);
    let sh = Arc::clone(&peek(&nar.mem).shared);
    use nar20_1::Term::convTermToStr;
    use std::sync::atomic::Ordering;
    let cyc = |nar: &Nar| (peek(&sh).cycleCounter.load(Ordering::SeqCst), nar.currentTime.load(Ordering::SeqCst), nar.procNar.t);
    for l in &sp.ops {
        if spent() {
            break;
        }
        let (c0, t0, p0) = cyc(&nar);
        let order0: Vec<i64> = rec::locked(&sh, |s| s.judgementTasks.iter().map(|t| peek(t).id).collect());
        let before: std::collections::BTreeSet<i64> = order0.iter().copied().collect();
        let q0 = peek(&peek(&sh).questionTasks).len();
        rec::sweep();
        let lists0 = rec::with(|r| r.lists.len());
        let counts0 = rec::with(|r| r.counts.len());
        let bel0 = if l == "!dtf" || l == "!dt" || l == "!dmd" { beliefs_snapshot(&nar) } else { Default::default() };
        let st0 = peek(&sh).stampIdCounter.load(Ordering::SeqCst);
        let (mut dc, mut dp) = (0, 0);
        if l == "@idle" {
            idle();
            // work which came after a flush is intact: it is found
            let idx = peek(&peek(&sh).judgementTasksByTerm);
            for k in peek(&sh).judgementTasks.iter() {
                let t = peek(k).sentence.term.clone();
                if idx.get(&t).map_or(true, |v| !v.iter().any(|x| Arc::ptr_eq(x, k))) {
                    fail("flush", &format!("working task {} (on {}) is pending but cannot be found any more", peek(k).id, convTermToStr(&t)));
                }
            }
        } else {
            let out = enter(&mut nar, l);
            if l == "!sp" {
                dp = 1;
            } else if let Some(k) = l.strip_prefix("!s") {
                dc = if k.is_empty() { 1 } else { k.parse().unwrap_or(0) };
            }
            rec::sweep();
            if l == "!dtf" {
                let after: Vec<i64> = rec::locked(&sh, |s| s.judgementTasks.iter().map(|t| peek(t).id).collect());
                if let Some(x) = after.iter().find(|x| before.contains(x)) {
                    fail("flush", &format!("working task {} survived the flush command", x));
                }
                let idx = Arc::clone(&peek(&sh).judgementTasksByTerm);
                for (k, v) in idx.read().iter() {
                    for t in v {
                        if before.contains(&peek(t).id) {
                            fail("flush", &format!("working task {} is still found under {} after the flush command", peek(t).id, convTermToStr(k)));
                        }
                    }
                }
                simcore::probe("judged");
                if !before.is_empty() {
                    simcore::probe("flushed_some");
                }
            }
            if l == "!dtf" || l == "!dt" || l == "!dmd" {
                let bel1 = beliefs_snapshot(&nar);
                // beliefs may only grow or be pooled meanwhile: each statement of each concept is still there, with its evidence
                let full = rec::with(|r| !r.full.is_empty());
                if !full {
                    for (c, t, ids) in &bel0 {
                        if !bel1.iter().any(|(c1, t1, i1)| c1 == c && t1 == t && ids.iter().all(|i| i1.contains(i))) {
                            fail("query-changes", &format!("{} changed the beliefs: {} in concept {} is gone", l, t, c));
                        }
                    }
                }
                if peek(&peek(&sh).questionTasks).len() != q0 {
                    fail("query-changes", &format!("{} changed the questions", l));
                }
                if peek(&sh).stampIdCounter.load(Ordering::SeqCst) != st0 {
                    fail("query-changes", &format!("{} consumed an evidence item", l));
                }
            }
            if l == "!dt" || l == "!dmd" {
                // the tasks which are still there are in their order
                let after: Vec<i64> = rec::locked(&sh, |s| s.judgementTasks.iter().map(|t| peek(t).id).filter(|x| before.contains(x)).collect());
                let kept: Vec<i64> = order0.iter().copied().filter(|x| after.contains(x)).collect();
                if after != kept {
                    fail("query-changes", &format!("{} reordered the working tasks", l));
                }
            }
            if l == "!dt" {
                // the listing is one of the states the list went through while the command ran
                let mut got: Vec<(String, String)> = vec![];
                for o in &out {
                    let b = o.strip_prefix("task  ").unwrap_or(o);
                    let b = b.split("  credit=").next().unwrap_or("");
                    let (h, ids) = b.rsplit_once("} ").unwrap_or((b, ""));
                    let term = h.rsplit_once(". {").map(|x| x.0).unwrap_or(h);
                    got.push((term.to_string(), ids.to_string()));
                }
                let ok = rec::with(|r| {
                    let from = lists0.saturating_sub(1);
                    let mut cand: Vec<Vec<i64>> = r.lists[from.min(r.lists.len())..].iter().map(|x| x.1.clone()).collect();
                    if r.lists.is_empty() || lists0 == 0 {
                        cand.push(vec![]);
                    }
                    cand.iter().any(|c| {
                        c.len() == got.len()
                            && c.iter().zip(&got).all(|(id, g)| {
                                r.task_text.get(id).map(|(t, ids)| {
                                    let i: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
                                    strip(t) == strip(&g.0) && i.join(",") == g.1
                                }) == Some(true)
                            })
                    })
                });
                if !ok {
                    fail("listing", &format!("!dt reported a list of {} tasks which the reasoner never had while the command ran: {:?}", got.len(), out));
                }
                simcore::probe("judged");
                if !got.is_empty() {
                    simcore::probe("listed_some");
                }
            }
            if l == "!dmd" {
                let n: usize = out.first().and_then(|o| o.rsplit(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
                let ok = rec::with(|r| {
                    let from = counts0.saturating_sub(1);
                    r.counts[from.min(r.counts.len())..].contains(&n) || (counts0 == 0 && n == 0)
                });
                if out.len() != 1 || !ok {
                    fail("listing", &format!("!dmd reported {:?}, the concept counts while it ran were {:?}", out, rec::with(|r| r.counts[counts0.saturating_sub(1)..].to_vec())));
                }
                simcore::probe("judged");
            }
        }
        let (c1, t1, p1) = cyc(&nar);
        if c1 - c0 != dc || t1 - t0 != dc || p1 - p0 != dp {
            fail("counters", &format!("{}: cycle counter +{}, time +{}, procedural time +{} (expected +{}, +{}, +{})", l, c1 - c0, t1 - t0, p1 - p0, dc, dc, dp));
        }
    }
    // later work is intact: a fresh chain is still derived
    idle();
    enter(&mut nar, "!dtf");
    enter(&mut nar, "<zz1 --> zz2>.");
    enter(&mut nar, "<zz2 --> zz3>.");
    for _ in 0..12 {
        enter(&mut nar, "!s");
        idle();
    }
    let want = parse("<zz1 --> zz3>").unwrap();
    let m = peek(&peek(&sh).mem);
    if !m.concepts.contains_key(&model::to(&want)) {
        if simcore::threads().iter().any(|t| t.panicked.is_some()) {
            inconclusive("panic-worker", "a worker died");
        }
        fail("work-after-flush", "work entered after a flush was not carried out");
    }
}
/// spelling of a term without blanks
fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
