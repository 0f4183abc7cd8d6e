//! questions and answers: P06 answers are right, P07 answers come
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::s_cmd::{enter, idle, new_nar, proc_line, spent};
use crate::s_decl::{gen_decl, step};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use nar20_1::NarMem::Mem;
use nar20_1::NarSentence::{EnumPunctation, Sentence};
use nar20_1::NarWorkingCycle::QHandler;
use nar20_1::Term::Term;
use parking_lot::RwLock;
use simcore::Prng;
use std::sync::{Arc, Mutex};

pub const SCENS: &[Scen] = &[
    Scen { prop: "P06", name: "declarative", weight: 5, gen: gen_qa, run: run_qa, viol: crate::scen::DEAD },
    Scen { prop: "P06", name: "temporal", weight: 2, gen: gen_qa_temporal, run: run_qa, viol: crate::scen::DEAD },
    Scen { prop: "P07", name: "declarative", weight: 4, gen: gen_live, run: run_live, viol: crate::scen::DEAD },
    Scen { prop: "P07", name: "temporal", weight: 3, gen: gen_live_temporal, run: run_live, viol: crate::scen::DEAD },
    Scen { prop: "P07", name: "evaluation", weight: 1, gen: gen_eval, run: run_eval, viol: crate::scen::DEAD },
];

#[derive(Clone, PartialEq, Debug)]
pub struct Ans {
    who: usize,
    q: T,
    a: T,
    tv: Tv,
}
static LOG: Mutex<Vec<Ans>> = Mutex::new(vec![]);
static PROC: Mutex<Option<Arc<RwLock<Mem>>>> = Mutex::new(None);
static JUDGE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct L {
    who: usize,
}
impl QHandler for L {
    fn answer(&mut self, question: &Term, answer: &Sentence) {
        heard(self.who, question, answer);
    }
}
fn log() -> Vec<Ans> {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
fn heard(who: usize, question: &Term, answer: &Sentence) {
    let q = model::from(question);
    let a = model::from(&answer.term);
    let tv = match rec::tv_of(answer) {
        Some(v) => v,
        None => fail("answer", &format!("{}? was answered with {} which has no truth value", q, a)),
    };
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(Ans { who, q: q.clone(), a: a.clone(), tv });
    simcore::probe("answers");
    if !JUDGE.load(std::sync::atomic::Ordering::SeqCst) {
        return;
    }
    simcore::probe("judged");
    if answer.punct != EnumPunctation::JUGEMENT {
        fail("answer", &format!("{}? was answered with the non-judgement {}", q, a));
    }
    if q != a && model::matches(&q, &a).is_none() {
        fail("mismatch", &format!("{}? was answered with {} which does not fit", q, a));
    }
    let mut ids = answer.stamp.ids.clone();
    ids.sort();
    if matches!(a, S(Cop::Pred, ..)) {
        let p = PROC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some(p) = p {
            let held = peek(&p).concepts.values().any(|c| {
                c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()).any(|b| {
                    let s = peek(b);
                    model::from(&s.term) == a && rec::tv_of(s).map_or(false, |v| tv_eq(v, tv))
                })
            });
            // (it may have changed since it was looked up)
            if !held && !p.is_locked_exclusive() && !crate::s_goal::had(&a, tv) {
                fail("unbacked", &format!("{}? was answered with {} {:?} which is not held", q, a, tv));
            }
        }
        return;
    }
    let e = rec::with(|r| r.explained(&a, tv, &ids));
    match e {
        Some(false) => fail("unbacked", &format!("{}? was answered with {} {:?} (evidence {:?}) which was neither told nor derived", q, a, tv, ids)),
        None => simcore::probe("unjudged"),
        _ => {}
    }
}
fn listen(nar: &Nar, who: usize) -> Arc<RwLock<L>> {
    let l = Arc::new(RwLock::new(L { who }));
    nar.mem.read().globalQaHandlers.write().push(l.clone());
    l
}
/// a thread of the user which looks into a listener from time to time
fn inspect(l: Arc<RwLock<L>>, times: u64, hold: u64) {
    simcore::spawn(
        "user",
        Box::new(move || {
            for _ in 0..times {
                let g = l.read();
                for _ in 0..hold {
                    simcore::point("user");
                }
                drop(g);
                for _ in 0..hold / 4 {
                    simcore::point("user");
                }
            }
        }),
    );
}
fn start(nar: &Nar, judge: bool) -> Arc<RwLock<L>> {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *PROC.lock().unwrap_or_else(|e| e.into_inner()) = Some(Arc::clone(&nar.procNar.evidenceMem));
    if judge {
        crate::s_goal::start(nar, false);
    }
    JUDGE.store(judge, std::sync::atomic::Ordering::SeqCst);
    listen(nar, 0)
}

// ---- P06
fn gen_qa(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_decl(r, sp, rates, tier);
    let told: Vec<T> = sp.ops.iter().filter_map(|l| model::parse_line(l)).filter(|l| l.punct == '.').map(|l| l.t).collect();
    let k = 1 + r.below(6);
    for _ in 0..k {
        let q = {
            let mut g = G::new(r);
            if !told.is_empty() && g.r.below(3) > 0 {
                let t = pick(g.r, &told).clone();
                let t = g.qvars(t);
                let s = g.r.below(2) == 0;
                format!("{}?{}", t, if s { " :|:" } else { "" })
            } else {
                g.question()
            }
        };
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        sp.ops.insert(at, q.clone());
        if r.below(4) == 0 {
            sp.ops.push(q);
        }
    }
    decorate(r, sp);
}
fn decorate(r: &mut Prng, sp: &mut Spec) {
    for _ in 0..1 + r.below(3) {
        let at = r.below(sp.ops.len() as u64 / 2 + 1) as usize;
        sp.ops.insert(at, "@listen".into());
    }
    for _ in 0..r.below(4) {
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        sp.ops.insert(at, format!("@inspect {} {} {}", r.below(4), 1 + r.below(20), 1 + r.below(120)));
    }
    if r.below(2) == 0 {
        // a question with a listener of its own
        let qs: Vec<usize> = (0..sp.ops.len()).filter(|i| sp.ops[*i].contains(">?")).collect();
        if !qs.is_empty() {
            let i = *pick(r, &qs);
            sp.ops[i] = format!("@own {}", sp.ops[i]);
        }
    }
    sp.ops.push(format!("!s{}", 5 + r.below(40)));
}
const EV: &[&str] = &["a", "b", "c", "d"];
fn temporal_q(r: &mut Prng) -> String {
    let e = |r: &mut Prng| match r.below(6) {
        0 => "?1".to_string(),
        1 => "?2".to_string(),
        _ => pick(r, EV).to_string(),
    };
    let op = match r.below(4) {
        0 => "?op".to_string(),
        _ => format!("<{{({{SELF}}*{})}} --> {}>", pick(r, &["a", "b", "?3"]), pick(r, &["^x", "^y"])),
    };
    let (a, b) = (e(r), e(r));
    format!("<({},{}) =/> {}>?{}", a, op, b, if r.below(3) == 0 { " :|:" } else { "" })
}
fn gen_temporal_base(r: &mut Prng, sp: &mut Spec, tier: Tier) {
    sp.ops.push("!por NOP ^x".into());
    sp.ops.push("!por NOP ^y".into());
    if r.below(2) == 0 {
        sp.ops.push("!peb 0".into());
    }
    let n = 5 + r.below(if tier == Tier::Quick { 40 } else { 120 });
    for _ in 0..n {
        sp.ops.push(match r.below(8) {
            0 | 1 => format!("<({},<{{({{SELF}}*{})}} --> {}>) =/> {}>.", pick(r, EV), pick(r, EV), pick(r, &["^x", "^y"]), pick(r, EV)),
            2 => "@idle".into(),
            _ => proc_line(r),
        });
    }
}
fn gen_qa_temporal(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, tier: Tier) {
    gen_temporal_base(r, sp, tier);
    for _ in 0..2 + r.below(6) {
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        let q = temporal_q(r);
        sp.ops.insert(at, q);
    }
    for _ in 0..r.below(10) {
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        sp.ops.insert(at, format!("!s{}", 1 + r.below(6)));
    }
    decorate(r, sp);
}
fn run_qa(sp: &Spec) {
    let mut nar = new_nar();
    rec::start(&nar, 0);
    let mut ls = vec![start(&nar, true)];
    let out0 = simcore::output_len();
    let mut joined = vec![(0usize, 0usize)]; // listener, answers heard by listener 0 before
    let mut own: Vec<(usize, T)> = vec![];
    for l in &sp.ops {
        if spent() {
            break;
        }
        if l == "@listen" {
            idle();
            let w = joined.len();
            ls.push(listen(&nar, w));
            joined.push((w, log().iter().filter(|a| a.who == 0).count()));
            continue;
        }
        if let Some(x) = l.strip_prefix("@inspect ") {
            let x: Vec<u64> = x.split(' ').filter_map(|v| v.parse().ok()).collect();
            if x.len() == 3 {
                inspect(ls[x[0] as usize % ls.len()].clone(), x[1], x[2]);
            }
            continue;
        }
        if let Some(q) = l.strip_prefix("@own ") {
            idle(); // the question is given its own listener before anything can answer it
            step(&mut nar, q);
            if let Some(x) = model::parse_line(q) {
                let w = 100 + own.len();
                let sh = Arc::clone(&peek(&nar.mem).shared);
                let qs = Arc::clone(&peek(&sh).questionTasks);
                let mut g = qs.write();
                if let Some(t) = g.last_mut() {
                    if model::from(&t.sentence.term) == x.t {
                        t.handler = Some(Arc::new(RwLock::new(L { who: w })));
                        own.push((w, x.t));
                    }
                }
            }
            continue;
        }
        step(&mut nar, l);
        if l.contains("=/>") || l == "!sp" {
            idle();
        }
    }
    idle();
    // every listener heard the same
    let all = log();
    let first: Vec<&Ans> = all.iter().filter(|a| a.who == 0).collect();
    for (w, from) in &joined {
        let mine: Vec<&Ans> = all.iter().filter(|a| a.who == *w).collect();
        let same = mine.len() == first.len() - from && mine.iter().zip(&first[*from..]).all(|(a, b)| (&a.q, &a.a, a.tv) == (&b.q, &b.a, b.tv));
        if !same {
            fail("listeners", &format!("listener {} heard {} answers, listener 0 heard {} since then", w, mine.len(), first.len() - from));
        }
    }
    let printed = simcore::output_from(out0).iter().filter(|o| o.text.starts_with("TRACE answer: ")).count();
    if printed != first.len() {
        fail("listeners", &format!("{} answers were printed, {} reported to the listener", printed, first.len()));
    }
    // strictly improving: n askings allow n interleaved improving sequences
    let mut qs: Vec<T> = first.iter().map(|a| a.q.clone()).collect();
    qs.sort();
    qs.dedup();
    for q in qs {
        let n = sp.ops.iter().filter_map(|l| model::parse_line(l.strip_prefix("@own ").unwrap_or(l))).filter(|l| l.punct == '?' && l.t == q).count();
        let s: Vec<&Ans> = first.iter().filter(|a| a.q == q).cloned().collect();
        if n == 0 {
            fail("answer", &format!("{}? was answered but never asked", q));
        }
        let mut best = vec![0usize; s.len()];
        for i in 0..s.len() {
            best[i] = 1;
            for j in 0..i {
                let worse = s[i].tv == s[j].tv || exp(s[i].tv) < exp(s[j].tv) - 1e-9;
                if worse && best[j] + 1 > best[i] {
                    best[i] = best[j] + 1;
                }
            }
            if best[i] > n {
                let h: Vec<String> = s.iter().map(|a| format!("{} {:?}", a.a, a.tv)).collect();
                fail("improve", &format!("{}? (asked {} times) got an answer which does not improve: {}", q, n, h.join(", ")));
            }
        }
    }
    for (w, q) in &own {
        let mine: Vec<&Ans> = all.iter().filter(|a| a.who == *w).collect();
        for a in &mine {
            let n = first.iter().filter(|b| b.q == a.q && b.a == a.a && b.tv == a.tv).count();
            if a.q != *q || n == 0 {
                fail("listeners", &format!("the listener of {}? heard {} for {}? which others did not", q, a.a, a.q));
            }
        }
        for i in 1..mine.len() {
            if mine[i].tv == mine[i - 1].tv || exp(mine[i].tv) < exp(mine[i - 1].tv) - 1e-9 {
                fail("improve", &format!("the listener of {}? heard {} {:?} after {} {:?}", q, mine[i].a, mine[i].tv, mine[i - 1].a, mine[i - 1].tv));
            }
        }
        let asked = sp.ops.iter().filter_map(|l| model::parse_line(l.strip_prefix("@own ").unwrap_or(l))).filter(|l| l.punct == '?' && l.t == *q).count();
        if asked == 1 && mine.len() != first.iter().filter(|b| b.q == *q).count() {
            fail("listeners", &format!("the listener of {}? heard {} answers, the others {}", q, mine.len(), first.iter().filter(|b| b.q == *q).count()));
        }
        simcore::probe("own_listener");
    }
}

// ---- P07
const CYCLES: u64 = 250;
fn cap_questions(sp: &mut Spec, max: usize) {
    let mut k = 0;
    sp.ops.retain(|l| {
        if model::parse_line(l).map_or(false, |x| x.punct == '?') {
            k += 1;
            return k <= max;
        }
        true
    });
}
fn gen_live(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 2_000_000;
    gen_qa(r, sp, rates, tier);
    sp.ops.retain(|l| l != "@listen" && !l.starts_with("@inspect"));
    for l in sp.ops.iter_mut() {
        if let Some(x) = l.strip_prefix("@own ") {
            *l = x.to_string();
        }
    }
    sp.ops.pop();
    cap_questions(sp, 8);
}
fn gen_live_temporal(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, tier: Tier) {
    sp.max_steps = 2_000_000;
    gen_temporal_base(r, sp, tier);
    for _ in 0..1 + r.below(6) {
        let at = r.below(sp.ops.len() as u64 + 1) as usize;
        let q = if r.below(8) == 0 { "<a --> ?1>?".to_string() } else { temporal_q(r) };
        sp.ops.insert(at, q);
    }
    if r.below(3) == 0 {
        sp.ops.push("<a --> b>.".into());
    }
    cap_questions(sp, 8);
}
/// the beliefs a question can be answered from: those of the concepts it names
fn best_held(nar: &Nar, q: &T) -> Option<(T, Tv)> {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let m = if matches!(q, S(Cop::Pred, ..)) { Arc::clone(&nar.procNar.evidenceMem) } else { Arc::clone(&peek(&sh).mem) };
    let g = m.read();
    let mut best: Option<(T, Tv)> = None;
    for s in usub(q) {
        if is_var(&s) {
            continue;
        }
        if let Some(c) = g.concepts.get(&model::to(&s)) {
            for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
                let b = peek(b);
                let t = model::from(&b.term);
                if let (Some(v), true) = (rec::tv_of(b), model::matches(q, &t).is_some()) {
                    if best.as_ref().map_or(true, |x| exp(v) > exp(x.1)) {
                        best = Some((t, v));
                    }
                }
            }
        }
    }
    best
}
fn settle(nar: &mut Nar) {
    for _ in 0..3 {
        idle();
        enter(nar, "!dtf");
    }
    idle();
}
fn run_live(sp: &Spec) {
    let mut nar = new_nar();
    start(&nar, false);
    let mut asked: Vec<T> = vec![];
    for l in &sp.ops {
        if l == "@idle" {
            idle();
            continue;
        }
        if let Some(x) = model::parse_line(l) {
            if x.punct == '?' && complexity(&x.t) <= 64 {
                asked.push(x.t);
            }
        }
        enter(&mut nar, l);
    }
    simcore::faults_enable(false);
    settle(&mut nar);
    for _ in 0..CYCLES / 50 {
        enter(&mut nar, "!s50");
    }
    idle();
    let all = log();
    let mut qs = asked.clone();
    qs.sort();
    qs.dedup();
    for q in qs {
        let n = asked.iter().filter(|x| **x == q).count();
        if let Some((t, v)) = best_held(&nar, &q) {
            simcore::probe("judged");
            simcore::probe("answerable");
            let good = all.iter().filter(|a| a.q == q && exp(a.tv) >= exp(v) - 1e-9).count();
            if good < n {
                fail(
                    "unanswered",
                    &format!("{}? was asked {} times and {} {:?} is held, but after {} more cycles only {} answers that good were reported", q, n, t, v, CYCLES, good),
                );
            }
        }
    }
}
fn gen_eval(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_live(r, sp, rates, tier);
    cap_questions(sp, 1);
    sp.ops.retain(|l| !l.starts_with("!s"));
}
fn run_eval(sp: &Spec) {
    let mut nar = new_nar();
    for l in &sp.ops {
        if l == "@idle" {
            idle();
        } else {
            enter(&mut nar, l);
        }
    }
    simcore::faults_enable(false);
    settle(&mut nar);
    let q = sp.ops.iter().filter_map(|l| model::parse_line(l)).filter(|l| l.punct == '?' && complexity(&l.t) <= 64).next();
    let want = q.as_ref().and_then(|q| best_held(&nar, &q.t));
    let got = nar20_1::Eval::run(&mut nar);
    if let (Some(q), Some((t, v)), None) = (q, want, got) {
        fail("unanswered", &format!("the evaluation found no answer to {}? although {} {:?} is held", q.t, t, v));
    }
    simcore::probe("judged");
}
