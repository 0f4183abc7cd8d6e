//! P09 truth values stay valid, P11 memory stays bounded
use crate::exec::fail;
use crate::gen::*;
use crate::model;
use crate::rec::{self, peek};
use crate::s_cmd::{spent, enter, idle, new_nar, proc_line};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use nar20_1::NarSentence::Sentence;
use simcore::Prng;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P09", name: "hostile", weight: 5, gen: gen_tv, run: run_tv, viol: &[] },
    Scen { prop: "P09", name: "revision", weight: 3, gen: gen_rev, run: run_tv, viol: &[] },
    Scen { prop: "P09", name: "procedural", weight: 3, gen: gen_tvproc, run: run_tv, viol: &[] },
    Scen { prop: "P11", name: "concepts", weight: 1, gen: gen_concepts, run: run_bounds, viol: &[] },
    Scen { prop: "P11", name: "tasks", weight: 4, gen: gen_tasks, run: run_bounds, viol: &[] },
    Scen { prop: "P11", name: "evidence", weight: 4, gen: gen_evidence, run: run_bounds, viol: &[] },
    Scen { prop: "P11", name: "complex", weight: 8, gen: gen_complex, run: run_bounds, viol: &[] },
    Scen { prop: "P11", name: "procedural", weight: 20, gen: gen_procload, run: run_bounds, viol: &[] },
];

fn any_tv(r: &mut Prng) -> String {
    let odd = [
        "1.0 1.0", "1 1", "2 0.9", "-1 0.9", "0.5 -0.2", "0.5 5", "nan 0.9", "0.5 nan", "inf 0.9", "1 inf", "-inf -inf", "1e308 0.9", "0.9 0.99999999999999999", "0 0", "NaN NaN", "1 1e-320", "0.9 0.9999999999999999",
        "1 0.9999999999999998", "0 0.9999999999999999", "1 0.99999999", "-0 0.5", "1.0000000000000002 0.5", "0.5 0.999999999999", "1e-320 0.9", "infinity 0.1", "0.1 -0",
    ];
    match r.below(3) {
        0 => format!(" {{{} {}}}", r.below(101) as f64 / 100.0, r.below(100) as f64 / 100.0),
        _ => format!(" {{{}}}", pick(r, &odd)),
    }
}
fn gen_tv(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let n = 6 + r.below(if tier == Tier::Quick { 30 } else { 80 });
    let mut v = vec![];
    {
        let mut g = G::new(r);
        for _ in 0..n {
            v.push(match g.r.below(20) {
                0..=8 => {
                    let t = g.stmt();
                    format!("{}.{}", t, any_tv(g.r))
                }
                9 => g.judgement(),
                10 => g.question(),
                11..=15 => format!("!s{}", 1 + g.r.below(4)),
                16 => {
                    let t = g.atom();
                    format!("{}!{} :|:", t, any_tv(g.r))
                }
                17 => {
                    let (a, b) = (g.atom(), g.atom());
                    format!("<({},<{{({{SELF}}*x)}} --> ^x>) =/> {}>.{}", a, b, any_tv(g.r))
                }
                18 => "!sp".into(),
                _ => "@idle".into(),
            });
        }
    }
    sp.ops = v;
    if r.below(3) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
/// few statements told over and over with extreme confidence
fn gen_rev(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    let st = ["<a --> b>", "<b --> c>", "<a <-> c>", "(!<a --> b>)", "<<$x --> a> ==> <$x --> b>>", "<c --> a>"];
    let k = 1 + r.below(4) as usize;
    let cs = ["0.9999999999999999", "0.9999999999999998", "0.99999999999999", "0.999", "0.9", "0", "0.0000001"];
    let fs = ["1", "0", "0.5", "0.3333333333333333", "1", "0.9999999999999999"];
    for _ in 0..10 + r.below(60) {
        sp.ops.push(match r.below(10) {
            0..=6 => format!("{}. {{{} {}}}", st[r.below(k as u64) as usize], pick(r, &fs), pick(r, &cs)),
            7 => format!("{}?", st[r.below(k as u64) as usize]),
            8 => "!s2".into(),
            _ => "!s".into(),
        });
    }
}
fn gen_tvproc(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.ops.push("!por NOP ^x".into());
    sp.ops.push("!por NOP ^y".into());
    let n = 20 + r.below(if tier == Tier::Quick { 60 } else { 200 });
    for _ in 0..n {
        sp.ops.push(match r.below(8) {
            0 => format!("{}!{} :|:", pick(r, &["a", "b", "c"]), any_tv(r)),
            1 => format!("<({},<{{({{SELF}}*{})}} --> ^x>) =/> {}>.{}", pick(r, &["a", "b"]), pick(r, &["a", "b"]), pick(r, &["b", "c"]), any_tv(r)),
            _ => proc_line(r),
        });
    }
    if r.below(3) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 60));
    }
}
fn chk(s: &Sentence, place: &str) {
    let t = model::from(&s.term);
    match rec::tv_of(s) {
        Some(v) if rec::valid_tv(v) => {}
        v => fail("tv", &format!("{}: {} has truth value {:?}", place, t, v)),
    }
}
pub fn goals(nar: &Nar) -> Vec<Arc<parking_lot::RwLock<nar20_1::NarGoalSystem::Entry>>> {
    let g = peek(&nar.procNar.goalSystem);
    let mut v = vec![];
    for b in &g.batchesByDepth {
        for gr in &peek(b).groups {
            v.extend(gr.entries.iter().cloned());
        }
    }
    v.extend(g.activeSet.set.iter().cloned());
    v
}
fn check_tvs(nar: &Nar, from: usize) {
    rec::sweep();
    rec::locked(&nar.procNar.evidenceMem, |m| {
        for c in m.concepts.values() {
            for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
                chk(peek(b), "temporal knowledge");
            }
        }
    });
    for e in goals(nar) {
        chk(&peek(&e).sentence, "goals");
    }
    for o in simcore::output_from(from) {
        if let Some(t) = o.text.strip_prefix("TRACE answer: ") {
            let k = t.rfind(" {").unwrap_or(0);
            let p: Vec<f64> = t[k..].trim_matches(|c| " {}".contains(c)).split(' ').filter_map(|x| x.parse().ok()).collect();
            if p.len() != 2 || !rec::valid_tv((p[0], p[1])) {
                fail("tv", &format!("answer with an invalid truth value: {}", t));
            }
            simcore::probe("answers");
        }
    }
    simcore::probe("judged");
}
fn run_tv(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, rec::VALID);
    for l in &sp.ops {
        if spent() {
            break;
        }
        let n = simcore::output_len();
        if l == "@idle" {
            idle();
        } else {
            enter(&mut nar, l);
        }
        check_tvs(&nar, n);
    }
    let n = simcore::output_len();
    idle();
    check_tvs(&nar, n);
}

// ---- P11
fn gen_concepts(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 20_000_000;
    sp.knobs.insert("bulk".into(), 900 + r.below(700) as i64);
    sp.knobs.insert("var".into(), r.below(3) as i64);
    sp.ops = vec!["@bulk".into(), "!dtf".into(), "!s172".into(), "@cycle".into()];
    for _ in 0..r.below(20) {
        sp.ops.push(format!("<n{} --> m{}>.", r.below(50), r.below(50)));
    }
    sp.ops.push("!s2".into());
    if r.below(3) == 0 {
        sp.ops.extend(["@bulk".to_string(), "!dtf".into(), "!s170".into(), "@cycle".into()]);
    }
    sp.sched = crate::spec::SchedS::Random(r.next(), 3_000);
}
fn gen_tasks(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 6_000_000;
    let mut v = vec![];
    {
        let mut g = G::new(r);
        let n = 20 + g.r.below(50);
        for _ in 0..n {
            v.push(g.judgement());
        }
        for i in 0..15 + g.r.below(60) {
            v.push(format!("<u{} --> w{}>.", i, g.r.below(40)));
        }
        for i in 0..v.len() {
            let j = g.r.below(v.len() as u64) as usize;
            v.swap(i, j);
        }
        let mut w = vec![];
        for l in v {
            w.push(l);
            if g.r.below(4) == 0 {
                w.push(format!("!s{}", 1 + g.r.below(2)));
            }
        }
        v = w;
    }
    // up to the next check of the working tasks
    v.push("@until111".into());
    if r.below(3) == 0 {
        v.push("@idle".into());
        v.push("@until111".into());
    }
    sp.ops = v;
    let _ = rates;
}
/// the same statements again and again, and huge statements
fn gen_evidence(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 3_000_000;
    let k = 1 + r.below(3);
    let n = 60 + r.below(140);
    let hub = r.below(2) == 0;
    for i in 0..n {
        sp.ops.push(if hub && r.below(2) == 0 {
            format!("<{} --> hub>. {{{} 0.{}}}", ["x", "y", "z"][r.below(3) as usize].to_string() + &i.to_string(), r.below(2), 1 + r.below(9))
        } else {
            format!("<a --> b{}>. {{{} 0.{}}}", r.below(k), r.below(2), 1 + r.below(9))
        });
        if r.below(30) == 0 {
            let m = 20 + r.below(60);
            let w: Vec<String> = (0..m).map(|j| format!("p{}", j)).collect();
            sp.ops.push(format!("<({}) --> q>.", w.join("*")));
        }
        if r.below(12) == 0 {
            sp.ops.push("!s".into());
        }
    }
    sp.ops.push("!s6".into());
}
/// big statements, whose conclusions are too big
fn gen_complex(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 3_000_000;
    for i in 0..3 + r.below(5) {
        let m = if r.below(3) == 0 { 1 } else { 8 + r.below(58) };
        let w: Vec<String> = (0..m).map(|j| format!("p{}", (j + i) % 70)).collect();
        let big = match r.below(3) {
            _ if m == 1 => w[0].clone(),
            0 => format!("({})", w.join("*")),
            1 => format!("{{{}}}", w.join(" ")),
            _ => format!("<({}) --> p1>", w[..w.len() - 1].join("*")),
        };
        let a = ["q", "s", "t"][r.below(3) as usize];
        sp.ops.push(match r.below(5) {
            0 | 1 => format!("<{} --> {}>.", big, a),
            2 => format!("<{} --> {}>.", a, big),
            3 => format!("<{} <-> {}>.", a, big),
            _ => format!("<<{} --> {}> ==> {}>.", a, big, big),
        });
        if r.below(3) == 0 {
            sp.ops.push("!s".into());
        }
    }
    sp.ops.push(format!("!s{}", 4 + r.below(12)));
}
fn gen_procload(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 6_000_000;
    sp.knobs.insert("noderive".into(), (r.below(3) == 0) as i64);
    sp.knobs.insert("busy".into(), (r.below(2) == 0) as i64);
    sp.now_ns = 1_000_000 + r.below(4_000_000);
    for o in ["^x", "^y", "^z"] {
        sp.ops.push(format!("!por NOP {}", o));
    }
    if r.below(2) == 0 {
        sp.ops.push("!peb 0".into());
    }
    let many = r.below(2) == 0;
    let n = 60 + r.below(if tier == Tier::Quick { 200 } else { 800 });
    for i in 0..n {
        let e = |r: &mut Prng| if many { format!("e{}", r.below(400)) } else { format!("e{}", r.below(6)) };
        let o = ["^x", "^y", "^z"][r.below(3) as usize];
        sp.ops.push(match r.below(12) {
            0..=3 => format!("{}. :|:", e(r)),
            4 if r.below(3) == 0 => format!("<{{({{SELF}}*{})}} --> {}>! :|:", e(r), o),
            4 => format!("{}! :|:", e(r)),
            5 | 6 => format!("<({},<{{({{SELF}}*{})}} --> {}>) =/> {}>.", e(r), e(r), o, e(r)),
            7 => format!("<{{({{SELF}}*{})}} --> {}>. :|:", i, o),
            8 => format!("<{{{}}} --> [k]>. :|:", e(r)),
            _ => "!sp".into(),
        });
    }
    if r.below(3) == 0 {
        // many goals at once, operations among them
        let at = r.below(sp.ops.len() as u64) as usize;
        let k = 20 + r.below(60);
        let ops = r.below(3);
        for j in 0..k {
            let g = if ops == 0 || (ops == 1 && j % 2 == 0) { format!("g{}! :|:", j) } else { format!("<{{({{SELF}}*g{})}} --> ^x>! :|:", j) };
            sp.ops.insert(at, g);
        }
    }
    sp.ops.push("@quiesce".into());
    if r.below(3) == 0 {
        sp.ops.push("@fill".into());
    }
    let _ = rates;
}
fn check_mem(nar: &Nar, full: bool) {
    if full {
        let em = nar.procNar.evidenceMem.read();
        for (n, c) in em.concepts.iter() {
            let (a, b) = (c.payload.beliefsByExp.len(), c.payload.beliefsByUsage.len());
            if a > 100 || b > 100 {
                fail("bounds", &format!("temporal concept {} holds {} and {} relations (limit 100)", model::from(n), a, b));
            }
            for x in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
                if peek(x).stamp.ids.len() > 120 {
                    fail("bounds", &format!("temporal relation {} has {} evidence items", model::from(&peek(x).term), peek(x).stamp.ids.len()));
                }
            }
        }
        for e in goals(nar) {
            if peek(&e).sentence.stamp.ids.len() > 120 {
                fail("bounds", &format!("goal {} has {} evidence items", model::from(&peek(&e).sentence.term), peek(&e).sentence.stamp.ids.len()));
            }
        }
    }
    if nar.procNar.anticipatedEvents.len() > 30 {
        fail("bounds", &format!("{} predictions are pending", nar.procNar.anticipatedEvents.len()));
    }
    simcore::probe("judged");
}
fn index_ids(nar: &Nar) -> BTreeSet<i64> {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let idx = Arc::clone(&peek(&sh).judgementTasksByTerm);
    rec::locked(&idx, |m| m.values().flatten().map(|t| peek(t).id).collect())
}
fn concepts(nar: &Nar) -> usize {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let mem = Arc::clone(&peek(&sh).mem);
    rec::locked(&mem, |m| m.concepts.len())
}
/// one cycle, judged when it is one at which the limits are enforced
fn cycle(nar: &mut Nar) {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let c = peek(&sh).cycleCounter.load(Ordering::SeqCst) + 1;
    if c % 111 == 0 || c % 173 == 0 {
        idle();
    }
    rec::sweep();
    let n0 = rec::with(|r| r.new_tasks);
    let k0 = concepts(nar);
    let l0 = rec::locked(&sh, |s| s.judgementTasks.len());
    enter(nar, "!s");
    if peek(&sh).cycleCounter.load(Ordering::SeqCst) != c {
        return;
    }
    if c % 111 == 0 {
        rec::sweep();
        let add = (rec::with(|r| r.new_tasks) - n0) as usize;
        let l = rec::locked(&sh, |s| s.judgementTasks.len());
        if l > 30 + add {
            fail("bounds", &format!("{} working tasks after the limit of 30 was enforced ({} before, {} added since)", l, l0, add));
        }
        let i = index_ids(nar);
        if i.len() > 30 + add {
            fail("bounds", &format!("{} tasks are still indexed after the limit of 30 was enforced ({} added since)", i.len(), add));
        }
        simcore::probe("task_limit");
        if l0 > 31 {
            simcore::probe("task_limit_hit");
        }
    }
    if c % 173 == 0 {
        let k = concepts(nar);
        if k > 3000 + 600 {
            fail("bounds", &format!("{} concepts after the limit of 3000 was enforced ({} before)", k, k0));
        }
        simcore::probe("concept_limit");
        if k0 > 3000 {
            simcore::probe("concept_limit_hit");
        }
    }
}
fn run_bounds(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, rec::BOUNDS);
    if sp.knob("noderive") != 0 {
        nar.procNar.cfg__resourceGoalDeriverPrio = 0.5;
    }
    let mut bulk = 0;
    let mut i = 0;
    for l in &sp.ops {
        if spent() {
            break;
        }
        i += 1;
        match l.as_str() {
            "@idle" => idle(),
            "@bulk" => {
                for k in 0..sp.knob("bulk") {
                    let n = bulk * 10_000 + k;
                    match sp.knob("var") {
                        0 => enter(&mut nar, &format!("<k{} --> l{}>.", n, n)),
                        1 => enter(&mut nar, &format!("<{{k{}}} --> [l{}]>.", n, n)),
                        _ => enter(&mut nar, &format!("<k{} --> l{}>. {{0.5 0.{}}}", n, n, 1 + k % 9)),
                    };
                }
                bulk += 1;
            }
            "@cycle" => cycle(&mut nar),
            "@until111" => {
                let sh = Arc::clone(&peek(&nar.mem).shared);
                for _ in 0..111 {
                    cycle(&mut nar);
                    if peek(&sh).cycleCounter.load(Ordering::SeqCst) % 111 == 0 {
                        break;
                    }
                }
            }
            "@quiesce" => {
                let p = nar.procNar.cfg__resourceGoalDeriverPrio;
                nar.procNar.cfg__resourceGoalDeriverPrio = 0.5;
                for _ in 0..14 {
                    enter(&mut nar, "!sp");
                }
                let n = goals(&nar).len();
                let k: usize = peek(&nar.procNar.goalSystem).entriesByTerm.values().map(|v| peek(v).len()).sum();
                if k > 20 + 2 {
                    fail("bounds", &format!("{} goals are still found by term although none was added for 13 steps (limit 20)", k));
                }
                if n > 20 + 2 {
                    fail("bounds", &format!("{} goals are kept although none was added for 13 steps (limit 20)", n));
                }
                simcore::probe("goal_limit");
                nar.procNar.cfg__resourceGoalDeriverPrio = p;
            }
            // many distinct temporal concepts
            "@fill" => {
                for k in 0..800 {
                    enter(&mut nar, &format!("<(c{},<{{({{SELF}}*a)}} --> ^x>) =/> d{}>.", k, k));
                }
                nar.procNar.cfg__resourceGoalDeriverPrio = 0.5;
                enter(&mut nar, "!peb 0");
                // (with predictions pending)
                let busy = sp.knob("busy") != 0;
                idle();
                let n0 = peek(&nar.procNar.evidenceMem).concepts.len();
                if busy {
                    nar.procNar.cfg__resourceGoalDeriverPrio = 1.05;
                    enter(&mut nar, "<(k0,<{({SELF}*k)} --> ^x>) =/> k1>.");
                }
                for i in 0..102 {
                    if busy {
                        if i % 3 != 1 {
                            enter(&mut nar, "k1! :|:");
                        }
                        enter(&mut nar, "k0. :|:");
                    }
                    enter(&mut nar, "!sp");
                    if !nar.procNar.anticipatedEvents.is_empty() {
                        simcore::probe("limit_with_predictions");
                    }
                }
                idle();
                if n0 > 1500 {
                    simcore::probe("evidence_limit_hit");
                }
                let n = peek(&nar.procNar.evidenceMem).concepts.len();
                if n > 1000 + 300 {
                    fail("bounds", &format!("{} temporal concepts are kept (limit 1000)", n));
                }
                simcore::probe("evidence_limit");
            }
            "!sp" => {
                let t = nar.procNar.t;
                enter(&mut nar, l);
                let n = nar.procNar.trace.ret_view().len();
                if n > 20 {
                    fail("bounds", &format!("{} recent events are kept (limit 20)", n));
                }
                if t % 13 == 1 && sp.knob("noderive") != 0 {
                    let n = goals(&nar).len();
                    if n > 20 {
                        fail("bounds", &format!("{} goals are kept after the limit of 20 was enforced", n));
                    }
                    simcore::probe("goal_limit");
                }
            }
            x => {
                enter(&mut nar, x);
            }
        }
        check_mem(&nar, i % 8 == 0);
    }
    idle();
    rec::sweep();
    check_mem(&nar, true);
}
