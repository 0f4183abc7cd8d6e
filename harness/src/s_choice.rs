//! P30 choice: of the ways open to it the most promising is taken, at once
use crate::exec::fail;
use crate::model::{self, T::*, *};
use crate::rec::{self, peek};
use crate::s_goal;
use crate::s_proc::{ded_goal, op_of, split};
use nar20_1::Nar::Nar;
use nar20_1::NarGoalSystem::Entry;
use parking_lot::RwLock;
use std::collections::BTreeSet;
use std::sync::Arc;

const THRESHOLD: f64 = 0.58;
const EPS: f64 = 1e-9;

pub fn exp(tv: Tv) -> f64 {
    tv.1 * (tv.0 - 0.5) + 0.5
}
struct Way {
    seq: Vec<T>,
    exp: f64,
    /// the relation which led to it
    rel: Option<T>,
    rel_at: usize,
}
struct Wanted {
    t: T,
    exp: f64,
    backed: bool,
}
pub struct Before {
    /// goal sequences open in this situation
    ways: Vec<Way>,
    /// operations which are wanted
    ops: Vec<Wanted>,
    /// all operations which are goals, with the relation that called for them
    had: Vec<(T, Option<T>)>,
    /// the same by entry, those which are wanted
    open: Vec<(T, Arc<RwLock<Entry>>)>,
    held: BTreeSet<usize>,
    latest: Option<T>,
    /// truth values of the held goals
    goals: Vec<(T, Tv)>,
    judged: bool,
}
fn has_var(t: &T) -> bool {
    format!("{}", t).contains(|c| c == '$' || c == '#' || c == '?')
}
fn evidence(e: &Entry) -> (Option<T>, usize) {
    match &e.evidence {
        // the statement of a relation never changes
        Some(r) => (Some(model::from(&peek(&**r).term)), rec::addr(&**r)),
        None => (None, 0),
    }
}
/// called by the thread of the reasoner, which alone changes goals
pub fn before(nar: &Nar, view: &[T]) -> Before {
    let near: Vec<&T> = view.iter().rev().take(2).collect();
    let mut b = Before { ways: vec![], ops: vec![], had: vec![], open: vec![], held: BTreeSet::new(), latest: view.last().cloned(), goals: vec![], judged: true };
    if near.iter().any(|x| has_var(x)) {
        b.judged = false;
    }
    for e in crate::s_bound::goals(nar) {
        if !b.held.insert(rec::addr(&*e)) {
            continue;
        }
        let entry = Arc::clone(&e);
        let e = peek(&*e);
        let t = model::from(&e.sentence.term);
        let tv = match rec::tv_of(&e.sentence) {
            Some(v) => v,
            None => continue,
        };
        b.goals.push((t.clone(), tv));
        let (rel, rel_at) = evidence(e);
        if let C(K::Seq, v) = &t {
            if v.len() >= 1 && op_of(&v[v.len() - 1]).is_some() {
                let cond = if v.len() == 2 { v[0].clone() } else { C(K::Seq, v[..v.len() - 1].to_vec()) };
                if near.iter().any(|x| **x == cond || model::unifies(&cond, x)) {
                    b.ways.push(Way { seq: v.clone(), exp: exp(tv), rel, rel_at });
                }
            }
        } else if op_of(&t).is_some() {
            b.had.push((t.clone(), rel));
            // an operation which just happened isn't wanted any more
            if e.desirability > 0.0001 && view.last() != Some(&t) {
                b.open.push((t.clone(), entry));
                b.ops.push(Wanted { exp: exp(tv), backed: e.evidence.is_some(), t });
            }
        }
    }
    b
}
/// the highest expectation of a plan which begins with this relation
fn plan(b: &Before, rel: &T) -> f64 {
    let mut best: f64 = 0.0;
    let latest = match &b.latest {
        Some(x) => x,
        None => return 0.0,
    };
    if let Some((v, p)) = split(rel) {
        if v.first() != Some(latest) {
            return 0.0;
        }
        let mut wants: Vec<Tv> = b.goals.iter().filter(|g| g.0 == p).map(|g| g.1).collect();
        // a second relation leads from there to a goal
        s_goal::relations(|t, states| {
            if let Some((v2, p2)) = split(t) {
                if v2.first() == Some(&p) {
                    for g in b.goals.iter().filter(|g| g.0 == p2) {
                        for s in states {
                            wants.push(ded_goal(g.1, *s));
                        }
                    }
                }
            }
        });
        s_goal::relations(|t, states| {
            if t == rel {
                for w in &wants {
                    for s in states {
                        best = best.max(exp(ded_goal(*w, *s)));
                    }
                }
            }
        });
    }
    best
}
pub fn after(nar: &Nar, b: &Before, calls: &[T], registered: &dyn Fn(&T) -> bool) {
    if !b.judged {
        return;
    }
    // what is wanted and was not done stays wanted
    if b.held.len() + b.had.len() + 2 <= 20 {
        let now: BTreeSet<usize> = crate::s_bound::goals(nar).iter().map(|e| rec::addr(&**e)).collect();
        for (t, e) in &b.open {
            if registered(t) && !calls.contains(t) && !now.contains(&rec::addr(&**e)) {
                fail("dropped", &format!("{} was wanted and not done, but it is no goal any more", t));
            }
        }
    }
    // what was decided in this step
    let new: Vec<Arc<RwLock<Entry>>> = s_goal::fresh().into_iter().filter(|e| !b.held.contains(&rec::addr(&**e))).collect();
    let mut decided: Vec<(Wanted, T, usize)> = vec![];
    for e in &new {
        let e = peek(&**e);
        if e.depth == 0 && e.evidence.is_some() {
            let t = model::from(&e.sentence.term);
            if op_of(&t).is_some() {
                let (rel, at) = evidence(e);
                let tv = rec::tv_of(&e.sentence).unwrap_or((0.0, 0.0));
                decided.push((Wanted { exp: exp(tv), backed: true, t }, rel.unwrap(), at));
            }
        }
    }
    let top = b.ways.iter().map(|w| w.exp).fold(0.0, f64::max);
    let best: Vec<&Way> = b.ways.iter().filter(|w| w.exp >= top - EPS).collect();
    // a sequence which was given as a goal is no way which a relation backs
    if best.iter().any(|w| w.rel.is_none()) {
        return;
    }
    if decided.len() > 1 {
        fail("decisions", &format!("{} decisions in one step: {} and {}", decided.len(), decided[0].0.t, decided[1].0.t));
    }
    if let Some((w, rel, at)) = decided.first() {
        if !b.ways.is_empty() {
            if best.iter().any(|x| x.rel_at == *at) {
                simcore::probe(if b.ways.len() > best.len() { "best_of_several" } else { "only_way" });
            } else if plan(b, rel) > top - EPS {
                simcore::probe("better_plan");
            } else {
                fail("choice", &format!("{} was chosen because of {}, but {} promises more ({} against {})", w.t, rel, C(K::Seq, best[0].seq.clone()), top, b.ways.iter().filter(|x| x.rel_at == *at).map(|x| x.exp).fold(plan(b, rel), f64::max)));
            }
        }
    } else if top > THRESHOLD + EPS {
        // nothing new: the same is already wanted
        let same = b.had.iter().any(|o| {
            best.iter().any(|w| w.seq.last() == Some(&o.0) || model::unifies(w.seq.last().unwrap(), &o.0)) || o.1.as_ref().map_or(false, |r| plan(b, r) > top - EPS)
        });
        if !same {
            fail("passed", &format!("{} is open and promises {}, but nothing was decided", C(K::Seq, best[0].seq.clone()), top));
        }
    }
    // what is wanted most is done
    let all: Vec<&Wanted> = b.ops.iter().chain(decided.iter().map(|d| &d.0)).collect();
    let m = all.iter().map(|w| w.exp).fold(0.0, f64::max);
    if m <= THRESHOLD + EPS {
        return;
    }
    let first: Vec<&&Wanted> = all.iter().filter(|w| w.exp >= m - EPS).collect();
    if first.iter().any(|w| !w.backed || !registered(&w.t)) {
        return;
    }
    if calls.is_empty() {
        fail("idle", &format!("{} is wanted ({}), but nothing was done", first[0].t, m));
    }
    if !first.iter().any(|w| calls.contains(&w.t)) {
        fail("other", &format!("{} is wanted most ({}), but {} was done", first[0].t, m, calls[0]));
    }
    simcore::probe(if all.len() > first.len() { "most_wanted" } else { "wanted" });
}
