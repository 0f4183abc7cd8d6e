//! P25: pending work is carried out completely: what follows in one step from judgements which were taken up is held
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::peek;
use crate::s_cmd::{enter, idle, new_nar, spent};
use crate::s_decl::is_told;
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use simcore::Prng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P25", name: "together", weight: 3, gen: gen_together, run: run_derive, viol: crate::scen::DEAD },
    Scen { prop: "P25", name: "spread", weight: 3, gen: gen_spread, run: run_derive, viol: crate::scen::DEAD },
    Scen { prop: "P25", name: "crowd", weight: 2, gen: gen_crowd, run: run_derive, viol: crate::scen::DEAD },
];
/// cycles after the last premise
const CYCLES: u64 = 100;

/// a statement, likely one which combines with the given ones
fn premise(g: &mut G, prev: &[T]) -> T {
    if prev.is_empty() || g.r.below(4) == 0 {
        return g.stmt();
    }
    if g.r.below(7) == 0 {
        // said again: the evidence is pooled
        return pick(g.r, prev).clone();
    }
    let o = pick(g.r, prev).clone();
    let x = g.atom();
    match (&o, g.r.below(6)) {
        (S(Cop::Impl, a, _), 0..=3) => {
            // meets a condition
            let c = match &**a {
                C(K::Conj, v) => pick(g.r, v).clone(),
                c => c.clone(),
            };
            let mut k = 0;
            replace(&c, &IV("x".into()), &x, true, &mut k)
        }
        (S(Cop::Impl, _, b), _) if !has_var(b) => st(Cop::Impl, (**b).clone(), g.inh1()),
        (S(Cop::Inh, a, b), k) => match k {
            0 => st(Cop::Inh, (**b).clone(), x),
            1 => st(Cop::Inh, x, (**a).clone()),
            2 => st(Cop::Inh, (**a).clone(), g.part(false)),
            3 => st(Cop::Inh, g.part(true), (**b).clone()),
            4 => st(Cop::Impl, o.clone(), g.inh1()),
            _ => st(Cop::Sim, (**a).clone(), x),
        },
        (S(Cop::Sim, a, b), k) => match k {
            0 | 1 => st(Cop::Inh, (**a).clone(), x),
            2 | 3 => st(Cop::Inh, x, (**b).clone()),
            _ => st(Cop::Sim, (**a).clone(), x),
        },
        _ => g.stmt(),
    }
}
fn distract(g: &mut G) -> String {
    match g.r.below(8) {
        0 => g.question(),
        1 => "!dt".into(),
        2 => "!dmd".into(),
        3 => "@idle".into(),
        4 => "q. :|:".into(),
        5 => "q! :|:".into(),
        6 => "!sp".into(),
        _ => "// nothing".into(),
    }
}
/// after some history, two or three judgements are told in one go
fn gen_together(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let mut v = vec![];
    let mut g = G::new(r);
    let hist = if g.r.below(2) == 0 { 0 } else { g.r.below(if tier == Tier::Quick { 14 } else { 30 }) };
    for _ in 0..hist {
        v.push(match g.r.below(6) {
            0 | 1 => g.judgement(),
            2 => distract(&mut g),
            _ => format!("!s{}", 1 + g.r.below(5)),
        });
    }
    v.push("@premises".into());
    let mut prev = vec![];
    for _ in 0..2 + g.r.below(2) {
        let t = premise(&mut g, &prev);
        v.push(format!("{}.{}", t, g.tv()));
        prev.push(t);
    }
    v.push("@run".into());
    sp.ops = v;
    sp.knobs.insert("each".into(), (r.below(3) == 0) as i64);
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
/// judgements told one after the other while reasoning goes on
fn gen_spread(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _tier: Tier) {
    let mut v = vec!["@premises".to_string()];
    let mut g = G::new(r);
    let mut prev = vec![];
    for _ in 0..2 + g.r.below(2) {
        for _ in 0..g.r.below(3) {
            v.push(distract(&mut g));
        }
        let t = premise(&mut g, &prev);
        v.push(format!("{}.{}", t, g.tv()));
        prev.push(t);
        if g.r.below(2) == 0 {
            v.push(format!("!s{}", 1 + g.r.below(3)));
        }
    }
    v.push("@run".into());
    sp.ops = v;
    sp.knobs.insert("each".into(), (r.below(3) == 0) as i64);
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
/// many judgements, told in one go
fn gen_crowd(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    let n = 4 + r.below(20);
    let mut v = vec!["@premises".to_string()];
    let star = r.below(2) == 0;
    for i in 0..n {
        let t = if star { format!("<m{} --> hub>", i) } else { format!("<m{} --> m{}>", i, i + 1) };
        v.push(format!("{}.", t));
    }
    v.push("@run".into());
    sp.ops = v;
    sp.knobs.insert("each".into(), (r.below(3) == 0) as i64);
}
struct P {
    t: T,
    tv: Tv,
    id: i64,
}

fn cycles(nar: &Nar) -> i64 {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    peek(&sh).cycleCounter.load(std::sync::atomic::Ordering::SeqCst)
}
fn pending(nar: &Nar) -> BTreeSet<i64> {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = sh.read();
    s.judgementTasks.iter().map(|t| peek(t).id).collect()
}
fn run_derive(sp: &Spec) {
    let mut nar = new_nar();
    let mut told: Vec<P> = vec![];
    let mut on = false;
    // working tasks are pruned then
    let mut prune = 0;
    for l in &sp.ops {
        if spent() {
            break;
        }
        match l.as_str() {
            "@idle" => idle(),
            "@premises" => {
                on = true;
                prune = (cycles(&nar) / 111 + 1) * 111;
            }
            "@run" => {
                simcore::faults_enable(false);
                idle();
                // each cycle takes up an item
                let each = sp.knob("each") != 0;
                for _ in 0..CYCLES {
                    let p0 = pending(&nar);
                    if spent() || cycles(&nar) + 1 >= prune || p0.is_empty() {
                        break;
                    }
                    enter(&mut nar, "!s");
                    if each {
                        idle();
                    }
                    if each && p0.is_subset(&pending(&nar)) {
                        fail("stuck", &format!("a cycle took up none of {} working tasks", p0.len()));
                    }
                }
                idle();
                judge(&nar, &told, cycles(&nar) < 111);
                simcore::probe("judged");
            }
            _ => {
                if on && (cycles(&nar) + 10 >= prune) {
                    continue;
                }
                let id = {
                    let sh = Arc::clone(&peek(&nar.mem).shared);
                    peek(&sh).stampIdCounter.load(std::sync::atomic::Ordering::SeqCst)
                };
                enter(&mut nar, l);
                if on {
                    if let Some(x) = model::parse_line(l).filter(is_told) {
                        told.push(P { t: x.t, tv: x.tv, id });
                    }
                }
            }
        }
    }
}
fn judge(nar: &Nar, told: &[P], whole: bool) {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    let m = peek(&s.mem);
    let idx = peek(&s.judgementTasksByTerm);
    let have = |t: &T, ids: &[i64]| -> bool {
        match m.concepts.get(&model::to(t)) {
            None => false,
            Some(c) => c.payload.beliefsByExp.len() >= 20 || c.payload.beliefsByExp.iter().any(|b| model::from(&peek(&**b).term) == *t && peek(&**b).stamp.ids.iter().any(|i| ids.contains(i))),
        }
    };
    // told judgements which were taken up
    let waits = |p: &P| s.judgementTasks.iter().any(|k| peek(k).sentence.stamp.ids == [p.id] && model::from(&peek(k).sentence.term) == p.t);
    let done: Vec<&P> = told.iter().filter(|p| !waits(p)).collect();
    let mut n = 0;
    for p in &done {
        for (t, _) in model::unary(&p.t, p.tv) {
            if complexity(&t) <= 64 && !have(&t, &[p.id]) {
                fail("underived", &format!("{} was not derived although {} was told and taken up", t, p.t));
            }
            n += 1;
        }
    }
    // (a bounded number of partners is considered: 50 per subterm, 300 in all)
    let all: BTreeSet<i64> = idx.values().flat_map(|v| v.iter().map(|t| peek(t).id)).collect();
    let place = |sub: &T, p: &P| idx.get(&model::to(sub)).and_then(|v| v.iter().position(|k| peek(k).sentence.stamp.ids == [p.id] && model::from(&peek(k).sentence.term) == p.t)).unwrap_or(1000);
    if all.len() < 300 {
        for i in 0..done.len() {
            for j in 0..i {
                let (a, b) = (&done[i], &done[j]);
                let sa: BTreeSet<T> = usub(&a.t).into_iter().collect();
                if !usub(&b.t).iter().any(|x| sa.contains(x) && place(x, a) < 50 && place(x, b) < 50) {
                    continue;
                }
                for (t, _) in model::binary(&a.t, a.tv, &b.t, b.tv) {
                    if complexity(&t) <= 64 && !have(&t, &[a.id, b.id]) {
                        fail("underived", &format!("{} was not derived although {} and {} were told and taken up", t, b.t, a.t));
                    }
                    n += 1;
                }
                simcore::probe("pairs");
            }
        }
    } else {
        simcore::probe("too_many_partners");
    }
    n += onward(nar, whole, all.len());
    if n > 0 {
        simcore::probe("conclusions");
    }
    if done.len() == told.len() {
        simcore::probe("all_taken_up");
    }
}

/// a task of the index
struct W {
    t: T,
    tv: Tv,
    ids: BTreeSet<i64>,
    /// was it taken up?
    taken: bool,
}
/// how many pairs of taken-up tasks are looked at
const PAIRS: usize = 1500;
/// what was derived or pooled is worked on like what was told: conclusions of any task which was taken up (alone, or with
/// any other which was taken up) are held and became tasks themselves
/// (whole: were no tasks pruned so far?)
fn onward(nar: &Nar, whole: bool, ntasks: usize) -> usize {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    let m = peek(&s.mem);
    let idx = peek(&s.judgementTasksByTerm);
    let wait: BTreeSet<i64> = s.judgementTasks.iter().map(|k| peek(k).id).collect();
    let mut tasks: BTreeMap<i64, W> = BTreeMap::new();
    let mut place: BTreeMap<(T, i64), usize> = BTreeMap::new();
    for (k, v) in idx.iter() {
        let k = model::from(k);
        for (i, x) in v.iter().enumerate() {
            let x = peek(x);
            place.entry((k.clone(), x.id)).or_insert(i);
            tasks.entry(x.id).or_insert_with(|| W {
                t: model::from(&x.sentence.term),
                tv: crate::rec::tv_of(&x.sentence).unwrap_or((1.0, 0.9)),
                ids: x.sentence.stamp.ids.iter().cloned().collect(),
                taken: !wait.contains(&x.id),
            });
        }
    }
    if tasks.values().any(|w| w.ids.len() >= 120) {
        return 0;
    }
    let full = m.concepts.values().any(|c| c.payload.beliefsByExp.len() >= 20 || c.payload.beliefsByUsage.len() >= 20);
    let mut by: BTreeMap<&T, Vec<&W>> = BTreeMap::new();
    for w in tasks.values() {
        by.entry(&w.t).or_default().push(w);
    }
    let task = |t: &T, ids: &BTreeSet<i64>| by.get(t).map_or(false, |v| v.iter().any(|w| w.ids == *ids));
    let have = |t: &T, ids: &BTreeSet<i64>| -> bool {
        match m.concepts.get(&model::to(t)) {
            None => false,
            Some(c) => c.payload.beliefsByExp.len() >= 20 || c.payload.beliefsByExp.iter().any(|b| model::from(&peek(&**b).term) == *t && peek(&**b).stamp.ids.iter().any(|i| ids.contains(i))),
        }
    };
    let must = |t: &T, ids: &BTreeSet<i64>, from: &str| {
        if complexity(t) > 64 {
            return;
        }
        if !have(t, ids) {
            fail("underived", &format!("{} is not held although {} was taken up", t, from));
        }
        if !task(t, ids) {
            fail("dropped", &format!("{} with evidence {:?} never became a working task although {} was taken up", t, ids, from));
        }
    };
    let done: Vec<(&i64, &W)> = tasks.iter().filter(|x| x.1.taken).collect();
    let mut n = 0;
    for (_, w) in &done {
        for (t, _) in model::unary(&w.t, w.tv) {
            must(&t, &w.ids, &w.t.to_string());
            n += 1;
        }
    }
    if ntasks < 300 {
        let subs: Vec<BTreeSet<T>> = done.iter().map(|x| usub(&x.1.t).into_iter().collect()).collect();
        let mut left = PAIRS;
        'o: for i in (0..done.len()).rev() {
            for j in (0..i).rev() {
                let ((ia, a), (ib, b)) = (done[i], done[j]);
                if !a.ids.is_disjoint(&b.ids) || !subs[i].iter().any(|x| subs[j].contains(x) && place.get(&(x.clone(), *ia)).map_or(false, |p| *p < 50) && place.get(&(x.clone(), *ib)).map_or(false, |p| *p < 50)) {
                    continue;
                }
                if left == 0 {
                    break 'o;
                }
                left -= 1;
                let ids: BTreeSet<i64> = a.ids.union(&b.ids).cloned().collect();
                for (t, _) in model::binary(&a.t, a.tv, &b.t, b.tv) {
                    must(&t, &ids, &format!("{} and {}", a.t, b.t));
                    n += 1;
                    simcore::probe("onward");
                }
            }
        }
    }
    // every belief, pooled or not, was a task
    if whole && !full {
        for c in m.concepts.values() {
            for b in &c.payload.beliefsByExp {
                let b = peek(&**b);
                let t = model::from(&b.term);
                let ids: BTreeSet<i64> = b.stamp.ids.iter().cloned().collect();
                if !task(&t, &ids) {
                    fail("dropped", &format!("{} with evidence {:?} is held, but never became a working task", t, ids));
                }
                if ids.len() > 1 {
                    simcore::probe("pooled_task");
                }
            }
        }
    }
    n
}
