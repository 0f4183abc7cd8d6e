//! declarative memory: P08 evidence, P09 truth values, P10 soundness, P12 told knowledge
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::s_cmd::{enter, idle, new_nar, spent};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use simcore::Prng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P08", name: "declarative", weight: 1, gen: gen_decl, run: run_evidence, viol: &[] },
    Scen { prop: "P10", name: "declarative", weight: 1, gen: gen_decl, run: run_follows, viol: &[] },
    Scen { prop: "P12", name: "long", weight: 1, gen: gen_long, run: run_told, viol: crate::scen::DEAD },
    Scen { prop: "P12", name: "declarative", weight: 11, gen: gen_told, run: run_told, viol: crate::scen::DEAD },
];
pub fn gen_decl(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let n = 4 + r.below(if tier == Tier::Quick { 22 } else { 45 });
    let mut v = vec![];
    let chain = r.below(4) == 0;
    let sync = r.below(3) == 0;
    {
        let mut g = G::new(r);
        if chain {
            for i in 0..3 + g.r.below(5) {
                v.push(format!("<n{} --> n{}>.{}", i, i + 1, g.tv()));
            }
        }
        if g.r.below(5) == 0 {
            theory(&mut g, &mut v);
        }
        if g.r.below(24) == 0 {
            // the same few statements again and again: much evidence
            let few: Vec<String> = (0..2 + g.r.below(2)).map(|i| format!("<n{} --> n{}>", i, i + 1)).collect();
            for _ in 0..30 + g.r.below(90) {
                v.push(format!("{}.{}", pick(g.r, &few).clone(), g.tv()));
                if g.r.below(5) == 0 {
                    v.push("!s1".into());
                }
            }
        }
        for _ in 0..n {
            let l = match g.r.below(20) {
                0..=8 => g.judgement(),
                9 => g.question(),
                10 if !v.is_empty() => {
                    // say something again
                    let s: String = pick(g.r, &v).clone();
                    match model::parse_line(&s) {
                        Some(l) if l.punct == '.' => format!("{}.{}", l.t, g.tv()),
                        _ => g.judgement(),
                    }
                }
                11 => "@idle".into(),
                12 => {
                    if g.r.below(8) == 0 {
                        "!dtf".into()
                    } else {
                        "!dt".into()
                    }
                }
                _ => format!("!s{}", 1 + g.r.below(4)),
            };
            v.push(l);
            if sync {
                v.push("@idle".into());
            }
        }
    }
    sp.ops = v;
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
/// an implication whose condition has structure, and facts which meet or nearly meet it
fn theory(g: &mut G, v: &mut Vec<String>) {
    let at = |g: &mut G| pick(g.r, &["a", "b", "c"]).to_string();
    let k = 1 + g.r.below(2);
    for _ in 0..k {
        let (p, q) = (at(g), at(g));
        let cond: &str = pick(g.r, &["<($x*$x) --> P>", "<($x*$y) --> P>", "<($x*Q) --> P>", "<$x --> (P /1 Q)>", "<$x --> (P /2 Q)>", "<$x --> [P]>", "<{$x} --> P>", "<{$x} --> [P]>", "<$x <-> P>", "<$x --> $x>"]);
        let cond = cond.replace('P', &p).replace('Q', &q);
        let mut body = vec![cond.clone()];
        if g.r.below(3) == 0 {
            body.push(format!("<$x --> {}>", at(g)));
        }
        if g.r.below(2) == 0 {
            body.reverse();
        }
        let c = if body.len() == 1 { body[0].clone() } else { format!("({})", body.join("&&")) };
        let mut block = vec![format!("<{} ==> <$x --> {}>>.{}", c, at(g), g.tv())];
        for _ in 0..1 + g.r.below(3) {
            let (x, y) = (at(g), at(g));
            let mut f = body[g.r.below(body.len() as u64) as usize].clone();
            // each place gets its own value
            for w in [&x, &y] {
                f = f.replacen("$x", w, 1);
            }
            f = f.replace("$x", &x).replace("$y", &y);
            if g.r.below(4) == 0 {
                f = f.replace("/1", "/9").replace("/2", "/1").replace("/9", "/2");
            }
            block.push(format!("{}.{}", f, g.tv()));
        }
        if g.r.below(2) == 0 {
            block.reverse();
        }
        for l in block {
            v.push(l);
            if g.r.below(2) == 0 {
                v.push(format!("!s{}", 1 + g.r.below(3)));
            }
        }
    }
}
pub fn is_told(l: &Line) -> bool {
    l.punct == '.' && !l.event && !matches!(l.t, S(Cop::Pred, ..))
}
/// enters one line, keeping the recorder informed
pub fn step(nar: &mut Nar, l: &str) {
    if spent() {
        return;
    }
    if l == "@idle" {
        idle();
        return;
    }
    if let Some(k) = l.strip_prefix("!s") {
        if let Ok(k) = if k.is_empty() { Ok(1u64) } else { k.parse::<u64>() } {
            for _ in 0..k {
                if spent() {
                    return;
                }
                rec::with(|r| r.expect_pop = true);
                enter(nar, "!s");
                rec::with(|r| r.expect_pop = false);
            }
            return;
        }
    }
    let told = model::parse_line(l).filter(is_told);
    match told {
        Some(x) if complexity(&x.t) <= 64 => {
            rec::tell(x.t.clone(), x.tv);
            enter(nar, l);
            let id = rec::told_done();
            if id.is_none() && rec::with(|r| r.on & rec::DISTINCT != 0) {
                fail("evidence-origin", &format!("'{}' was accepted without getting an evidence item of its own", l));
            }
        }
        _ => {
            enter(nar, l);
        }
    }
}
fn run_flags(sp: &Spec, on: u32) -> Nar {
    let mut nar = new_nar();
    rec::start(&nar, on);
    for l in &sp.ops {
        step(&mut nar, l);
    }
    idle();
    rec::sweep();
    nar
}
fn run_evidence(sp: &Spec) {
    run_flags(sp, rec::DISTINCT);
}
fn run_follows(sp: &Spec) {
    run_flags(sp, rec::FOLLOWS);
}
pub fn gen_told(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let n = 4 + r.below(if tier == Tier::Quick { 24 } else { 60 });
    let quiet = r.below(4) == 0; // no cycles: nothing but told statements
    let mut v: Vec<String> = vec![];
    {
        let mut g = G::new(r);
        for _ in 0..n {
            let l = match g.r.below(20) {
                0..=6 => g.judgement(),
                7..=11 if !v.is_empty() => {
                    let s: String = pick(g.r, &v).clone();
                    match model::parse_line(&s) {
                        Some(l) if l.punct == '.' => format!("{}.{}", l.t, g.tv()),
                        _ => g.judgement(),
                    }
                }
                12 => "@idle".into(),
                13 => "@check".into(),
                14 => g.question(),
                _ => {
                    if quiet {
                        g.judgement()
                    } else {
                        format!("!s{}", 1 + g.r.below(3))
                    }
                }
            };
            v.push(l);
        }
    }
    sp.ops = v;
    sp.knobs.insert("quiet".into(), quiet as i64);
    let _ = rates;
}
/// past the limiting of the working tasks, with questions pending
fn gen_long(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    let mut v = vec![];
    let n = 3 + r.below(5);
    let mut g = G::new(r);
    let from = g.r.below(100);
    if from > 50 {
        // what is told late is still pending when the tasks are limited
        v.push(format!("!s{}", from));
    }
    for i in 0..n {
        v.push(format!("<n{} --> n{}>.{}", i, if g.r.below(4) == 0 { 0 } else { i + 1 }, g.tv()));
        if g.r.below(4) == 0 {
            let (a, b) = (g.r.below(n), g.r.below(n));
            v.push(if g.r.below(2) == 0 { format!("<n{} --> n{}>?", a, b) } else { format!("<?0 --> n{}>?", b) });
        }
        if g.r.below(3) == 0 {
            v.push(format!("!s{}", 1 + g.r.below(3)));
        }
    }
    for _ in 0..g.r.below(3) {
        v.push(g.judgement());
    }
    let used: u64 = v.iter().filter_map(|l| l.strip_prefix("!s")).filter_map(|x| x.parse::<u64>().ok()).sum();
    if used < 111 {
        v.push(format!("!s{}", 111 - used));
    }
    v.push("@check".into());
    if g.r.below(2) == 0 {
        v.push(g.judgement());
        v.push(format!("!s{}", 1 + g.r.below(5)));
    }
    sp.ops = v;
}
fn check_told(nar: &Nar, told: &[(T, Tv, i64)], quiet: bool) {
    idle();
    rec::sweep();
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    let m = peek(&s.mem);
    let full = rec::with(|r| r.full.clone());
    // one belief per statement and table
    for (n, c) in m.concepts.iter() {
        for (w, l) in [("expectation", &c.payload.beliefsByExp), ("usage", &c.payload.beliefsByUsage)] {
            let mut cnt: BTreeMap<T, u32> = BTreeMap::new();
            for b in l.iter() {
                *cnt.entry(model::from(&peek(b).term)).or_insert(0) += 1;
            }
            if let Some((t, k)) = cnt.iter().find(|(_, k)| **k > 1) {
                fail("not-pooled", &format!("concept {} (by {}) holds {} separate beliefs about {}", model::from(n), w, k, t));
            }
        }
    }
    let mut pooled: BTreeMap<T, Tv> = BTreeMap::new();
    let mut pids: BTreeMap<T, Vec<i64>> = BTreeMap::new();
    for (t, tv, id) in told {
        let e = pooled.get(t).map(|o| f_rev(*o, *tv)).unwrap_or(*tv);
        pooled.insert(t.clone(), e);
        pids.entry(t.clone()).or_default().push(*id);
    }
    for (t, _tv, id) in told {
        for c in usub(t) {
            if full.contains(&c) {
                simcore::probe("table_full");
                continue;
            }
            let con = match m.concepts.get(&model::to(&c)) {
                Some(x) => x,
                None => fail("told-lost", &format!("there is no concept {} although {} was told", c, t)),
            };
            for (w, l) in [("expectation", &con.payload.beliefsByExp), ("usage", &con.payload.beliefsByUsage)] {
                let b = l.iter().map(|b| peek(b)).find(|b| model::from(&b.term) == *t);
                match b {
                    None => fail("told-lost", &format!("concept {} (by {}) has no belief about {} which was told", c, w, t)),
                    Some(b) => {
                        if b.stamp.ids.len() < 120 && !b.stamp.ids.contains(id) {
                            fail("told-lost", &format!("the belief about {} in concept {} (by {}) does not include the told evidence {}: {:?}", t, c, w, id, b.stamp.ids));
                        }
                        if quiet {
                            let mut i = b.stamp.ids.clone();
                            i.sort();
                            let mut j = pids[t].clone();
                            j.sort();
                            let tv = rec::tv_of(b).unwrap_or((f64::NAN, f64::NAN));
                            if i != j || !tv_eq(tv, pooled[t]) {
                                fail("pooled-value", &format!("the belief about {} in concept {} (by {}) is {:?} with evidence {:?}, pooling what was told gives {:?} with {:?}", t, c, w, tv, i, pooled[t], j));
                            }
                        }
                    }
                }
            }
        }
        simcore::probe("judged");
    }
    let idx = peek(&s.judgementTasksByTerm);
    for k in s.judgementTasks.iter() {
        let t = model::from(&peek(k).sentence.term);
        for c in usub(&t) {
            let ok = idx.get(&model::to(&c)).map(|v| v.iter().any(|x| Arc::ptr_eq(x, k))) == Some(true);
            if !ok {
                fail("not-indexed", &format!("the pending task {} cannot be found through {}", t, c));
            }
        }
    }
}
fn run_told(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, 0);
    let mut told: Vec<(T, Tv, i64)> = vec![];
    let quiet = sp.knob("quiet") != 0;
    for l in &sp.ops {
        if l == "@check" {
            check_told(&nar, &told, quiet);
            continue;
        }
        if spent() {
            break;
        }
        let x = model::parse_line(l).filter(is_told);
        let sh = Arc::clone(&peek(&nar.mem).shared);
        let id = peek(&sh).stampIdCounter.load(std::sync::atomic::Ordering::SeqCst);
        step(&mut nar, l);
        if let Some(x) = x {
            told.push((x.t, x.tv, id));
        }
    }
    check_told(&nar, &told, quiet);
}
