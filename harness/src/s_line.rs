//! P31: an input line does exactly what it says
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::s_cmd::{idle, new_nar, proc_line, spent};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use simcore::Prng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P31", name: "lines", weight: 3, gen: gen_lines, run: run_lines, viol: crate::scen::DEAD },
    Scen { prop: "P31", name: "busy", weight: 2, gen: gen_busy, run: run_lines, viol: crate::scen::DEAD },
];
fn command(r: &mut Prng) -> String {
    match r.below(16) {
        0 => "!s".into(),
        1 => format!("!s{}", r.below(6)),
        2 => format!("!s {}", r.below(6)),
        3 | 4 => "!sp".into(),
        5 => format!("!por NOP ^{}", pick(r, &["x", "y", "z", "x2", "long_name"])),
        6 => format!("!por {}", pick(r, &["execinj", "nlpRel0"])),
        7 => "!peb 0".into(),
        8 => "!peb 1".into(),
        9 => "!dt".into(),
        10 => "!dmd".into(),
        11 => "!pse".into(),
        12 => "!QQ".into(),
        13 => "//".to_string() + pick(r, &["", " <a --> b>.", "a. :|:", "!sp", "!QQ", "!peb 1"]),
        14 => "".into(),
        _ => {
            if r.below(4) == 0 {
                "!dtf".into()
            } else {
                "!s-1".into()
            }
        }
    }
}
/// a line with a slip of the pen
fn slip(r: &mut Prng, l: &str) -> String {
    let mut c: Vec<char> = l.chars().collect();
    if c.is_empty() {
        return "?".into();
    }
    let i = r.below(c.len() as u64) as usize;
    match r.below(4) {
        0 => {
            c.remove(i);
        }
        1 => {
            let x = c[i];
            c.insert(i, x);
        }
        2 => c.truncate(i),
        _ => c[i] = *pick(r, &['<', '>', '(', ')', '{', '}', '.', '!', '?', ' ', 'a', '*', '|', ':', 'é']),
    }
    c.into_iter().collect()
}
fn line(g: &mut G) -> String {
    match g.r.below(12) {
        0..=2 => g.judgement(),
        3 => g.question(),
        4 | 5 => proc_line(g.r),
        6 => {
            let t = g.stmt();
            let tv = g.tv();
            format!("{}!{} :|:", t, tv)
        }
        7 => {
            let t = g.stmt();
            let tv = g.tv();
            format!("{}.{} :|:", t, tv)
        }
        _ => command(g.r),
    }
}
fn gen_lines(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let n = 8 + r.below(if tier == Tier::Quick { 30 } else { 80 });
    let mut v: Vec<String> = vec![];
    let mut g = G::new(r);
    for _ in 0..n {
        let l = match g.r.below(12) {
            // (~: how it is to be read is not in question)
            0 => format!("~{}", hostile(g.r)),
            1 => {
                let l = line(&mut g);
                format!("~{}", slip(g.r, &l))
            }
            2 if !v.is_empty() => pick(g.r, &v).clone(),
            _ => line(&mut g),
        };
        let x = l.trim_start_matches('~');
        if nesting_ok(x) && !x.starts_with("!.nlp") && steps(x).map_or(true, |k| k < 12) {
            v.push(l);
        }
    }
    sp.ops = v;
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (50_000, 40));
    }
}
/// lines in quick succession while much is being derived
fn gen_busy(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    let mut v = vec![];
    let mut g = G::new(r);
    for i in 0..3 + g.r.below(4) {
        v.push(format!("<n{} --> n{}>.", i, i + 1));
    }
    for i in 0..2 {
        v.push(format!("<n{} --> ?q>?", i));
    }
    for _ in 0..6 + g.r.below(16) {
        v.push("!s2".into());
        v.push(line(&mut g));
        if g.r.below(3) == 0 {
            v.push(line(&mut g));
        }
    }
    sp.ops = v;
}
/// cycles which the line asks for
fn steps(l: &str) -> Option<i64> {
    let x = l.strip_prefix("!s")?;
    if x.starts_with('p') {
        return None;
    }
    if x.is_empty() {
        return Some(1);
    }
    x.trim().parse::<i64>().ok().map(|n| n.max(0))
}
#[derive(Clone, PartialEq, Debug)]
struct Snap {
    ops: Vec<String>,
    babble: bool,
    cycles: i64,
    time: i64,
    t: i64,
    trace: Vec<(String, i64, i64)>,
    questions: Vec<String>,
    /// address -> statement
    goals: BTreeMap<usize, (String, (u64, u64))>,
    next: i64,
}
fn snap(nar: &Nar) -> Snap {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    let p = &nar.procNar;
    let mut goals = BTreeMap::new();
    for e in crate::s_bound::goals(nar) {
        let x = peek(&*e);
        let tv = rec::tv_of(&x.sentence).unwrap_or((f64::NAN, f64::NAN));
        goals.insert(rec::addr(&*e), (model::from(&x.sentence.term).to_string(), (tv.0.to_bits(), tv.1.to_bits())));
    }
    Snap {
        ops: p.ops.iter().map(|o| o.retName()).collect(),
        babble: p.cfgEnBabbling,
        cycles: s.cycleCounter.load(Ordering::SeqCst),
        time: nar.currentTime.load(Ordering::SeqCst),
        t: p.t,
        trace: p.trace.ret_view().iter().map(|e| (model::from(&e.name).to_string(), e.evi, e.occT)).collect(),
        questions: rec::locked(&s.questionTasks, |q| q.iter().map(|q| model::from(&q.sentence.term).to_string()).collect()),
        goals,
        next: s.stampIdCounter.load(Ordering::SeqCst),
    }
}
fn differ(l: &str, what: &str, a: impl std::fmt::Debug, b: impl std::fmt::Debug) -> ! {
    fail("effect", &format!("after {:?} {} is {:?} instead of {:?}", l, what, b, a))
}
fn same(l: &str, want: &Snap, got: &Snap, free: &[&str]) {
    macro_rules! cmp {
        ($f:ident, $w:expr) => {
            if !free.contains(&stringify!($f)) && want.$f != got.$f {
                differ(l, $w, &want.$f, &got.$f);
            }
        };
    }
    cmp!(ops, "the list of operations");
    cmp!(babble, "babbling");
    cmp!(cycles, "the number of cycles");
    cmp!(time, "the time");
    cmp!(t, "the procedural time");
    cmp!(trace, "the recent events");
    cmp!(questions, "the list of questions");
    cmp!(goals, "the set of goals");
}
fn run_lines(sp: &Spec) {
    let mut nar = new_nar();
    for l in &sp.ops {
        if spent() {
            break;
        }
        let odd = l.starts_with('~');
        let l = l.trim_start_matches('~');
        let a = snap(&nar);
        let mut quit = false;
        let res = nar20_1::NarInputFacade::input(&mut nar, &l.to_string(), &mut quit);
        let b = snap(&nar);
        if quit != (l == "!QQ") {
            fail("effect", &format!("after {:?} quitting was {}requested", l, if quit { "" } else { "not " }));
        }
        if !res.is_empty() && l != "!dt" && l != "!dmd" {
            fail("effect", &format!("{:?} yields {:?}", l, res));
        }
        judge(l, odd, &nar, &a, &b);
        simcore::probe("judged");
    }
    idle();
}
fn judge(l: &str, odd: bool, nar: &Nar, a: &Snap, b: &Snap) {
    let mut w = a.clone();
    if l.starts_with("!sp") {
        w.t += 1;
        // (what happens in a step is not judged here)
        same(l, &w, b, &["trace", "goals"]);
        return;
    }
    if let Some(n) = steps(l) {
        w.cycles += n;
        w.time += n;
        same(l, &w, b, &[]);
        return;
    }
    if let Some(x) = l.strip_prefix("!por ") {
        let v: Vec<&str> = x.split_whitespace().collect();
        match v[..] {
            ["NOP", n] => w.ops.push(n.to_string()),
            ["execinj"] => w.ops.push("^nal9_exeAndInject".into()),
            ["nlpRel0"] => w.ops.push("^nlpRel0".into()),
            _ => {}
        }
        same(l, &w, b, &[]);
        return;
    }
    if l == "!peb 0" || l == "!peb 1" {
        w.babble = l.ends_with('1');
        same(l, &w, b, &[]);
        return;
    }
    if l.starts_with("//") || l.starts_with("!") || l.is_empty() {
        same(l, &w, b, &[]);
        return;
    }
    let id = a.next;
    let p = match model::parse_line(l).filter(|p| !odd && plain(l, p)) {
        Some(p) => p,
        None => {
            // whether it is accepted is not known here; if it is, it has at most one effect
            same(l, &w, b, &["trace", "questions", "goals"]);
            let n = (b.trace.len() - a.trace.len().min(b.trace.len())) + (b.questions.len() - a.questions.len().min(b.questions.len())) + b.goals.keys().filter(|k| !a.goals.contains_key(k)).count() + told(nar, id).len();
            if n > 1 || b.trace.len() < a.trace.len() || b.questions.len() < a.questions.len() || b.goals.len() < a.goals.len() {
                fail("effect", &format!("{:?} changed more than one thing: {:?} became {:?}", l, a, b));
            }
            return;
        }
    };
    if b.next != a.next + 1 {
        fail("effect", &format!("{:?} took {} items of evidence", l, b.next - a.next));
    }
    let t = p.t.to_string();
    let pred = matches!(p.t, S(Cop::Pred, ..));
    let fits = complexity(&p.t) <= 64;
    match (p.punct, p.event) {
        ('.', true) => {
            // the latest of the recent events
            let last = nar.procNar.trace.ret_last_events().map(|v| v.iter().map(|e| (model::from(&e.name).to_string(), e.evi, e.occT)).collect::<Vec<_>>());
            let e = (t.clone(), a.t, a.t);
            if last != Some(vec![e.clone()]) {
                fail("effect", &format!("after {:?} at time {} the latest events are {:?}", l, a.t, last));
            }
            let mut x = a.trace.clone();
            let mut y = b.trace.clone();
            x.push(e);
            x.sort();
            y.sort();
            if x != y {
                differ(l, "the set of recent events", x, y);
            }
            same(l, &w, b, &["trace"]);
            simcore::probe("event");
        }
        ('?', _) => {
            if fits {
                w.questions.push(t);
                w.questions.sort();
            }
            let mut got = b.clone();
            got.questions.sort();
            let mut w2 = w.clone();
            w2.questions.sort();
            same(l, &w2, &got, &[]);
            simcore::probe("question");
        }
        ('!', true) => {
            let new: Vec<_> = b.goals.iter().filter(|(k, _)| !a.goals.contains_key(k)).map(|x| x.1.clone()).collect();
            if a.goals.keys().any(|k| !b.goals.contains_key(k)) || new.len() != 1 || new[0].0 != t || !tv_eq((f64::from_bits(new[0].1 .0), f64::from_bits(new[0].1 .1)), p.tv) {
                fail("effect", &format!("after {:?} there are the new goals {:?}", l, new.iter().map(|x| (x.0.clone(), f64::from_bits(x.1 .0), f64::from_bits(x.1 .1))).collect::<Vec<_>>()));
            }
            same(l, &w, b, &["goals"]);
            simcore::probe("goal");
        }
        _ => {
            same(l, &w, b, &[]);
            let k = told(nar, id);
            let want = if p.punct == '.' && !pred && fits { vec![(t.clone(), p.tv)] } else { vec![] };
            let ok = k.len() == want.len() && k.iter().zip(&want).all(|(x, y)| x.0 == y.0 && tv_eq(x.1, y.1));
            if !ok {
                fail("effect", &format!("after {:?} the working tasks resting on it alone are {:?} instead of {:?}", l, k, want));
            }
            if !want.is_empty() {
                simcore::probe("judgement");
            }
        }
    }
}
/// is it written in the plain form, so that its reading is not in doubt?
fn plain(l: &str, p: &Line) -> bool {
    let l = l.strip_suffix(" :|:").unwrap_or(l);
    let num = |x: &str| !x.is_empty() && x.starts_with(|c: char| c.is_ascii_digit()) && x.ends_with(|c: char| c.is_ascii_digit()) && x.chars().all(|c| c.is_ascii_digit() || c == '.') && x.matches('.').count() < 2;
    let l = match l.rfind(" {") {
        Some(k) if l.ends_with('}') => {
            let v: Vec<&str> = l[k + 2..l.len() - 1].split(' ').collect();
            if v.len() != 2 || !num(v[0]) || !num(v[1]) {
                return false;
            }
            &l[..k]
        }
        _ => l,
    };
    l == format!("{}{}", p.t, p.punct) && (0.0..=1.0).contains(&p.tv.0) && (0.0..=0.99).contains(&p.tv.1) && !has_odd(&p.t)
}
fn has_odd(t: &T) -> bool {
    match t {
        QV(n) | DV(n) | IV(n) => n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric()),
        N(n) => n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '^' || c == '_') || n[1..].contains('^'),
        _ => kids(t).into_iter().any(has_odd),
    }
}
/// what rests on the item of evidence alone and is the told statement itself, i.e. was not derived
fn told(nar: &Nar, id: i64) -> Vec<(String, Tv)> {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    rec::locked(&sh, |s| {
        rec::locked(&s.judgementTasksByTerm, |m| {
            let mut seen: BTreeSet<i64> = BTreeSet::new();
            let mut v = vec![];
            for x in m.values().flatten() {
                let x = peek(x);
                if x.sentence.stamp.ids == [id] && seen.insert(x.id) {
                    v.push((model::from(&x.sentence.term).to_string(), rec::tv_of(&x.sentence).unwrap_or((f64::NAN, f64::NAN))));
                }
            }
            v
        })
    })
}
