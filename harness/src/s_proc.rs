//! procedural reasoning: P13 temporal knowledge counts observations, P14 anticipations, P15 operations are justified,
//! P16 a known way to a goal is taken
use crate::exec::{fail, inconclusive};
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::s_cmd::{enter, idle, new_nar, spent};
use crate::s_goal;
use crate::s_choice;
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use nar20_1::NarProc::{Op, ProcNar};
use nar20_1::NarSentence::{Evidence, Sentence};
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Term::Term;
use parking_lot::RwLock;
use simcore::Prng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const SCENS: &[Scen] = &[
    Scen { prop: "P13", name: "episodes", weight: 4, gen: gen_episodes, run: run_episodes, viol: crate::scen::DEAD },
    Scen { prop: "P13", name: "stream", weight: 5, gen: gen_stream, run: run_learn, viol: crate::scen::DEAD },
    Scen { prop: "P14", name: "acting", weight: 4, gen: gen_acting, run: run_antic, viol: crate::scen::DEAD },
    Scen { prop: "P14", name: "stream", weight: 2, gen: gen_stream, run: run_antic, viol: crate::scen::DEAD },
    Scen { prop: "P15", name: "acting", weight: 4, gen: gen_acting, run: run_ops, viol: crate::scen::DEAD },
    Scen { prop: "P15", name: "stream", weight: 2, gen: gen_stream, run: run_ops, viol: crate::scen::DEAD },
    Scen { prop: "P15", name: "restrained", weight: 4, gen: gen_restrained, run: run_ops, viol: crate::scen::DEAD },
    Scen { prop: "P28", name: "acting", weight: 3, gen: gen_acting, run: run_aims, viol: crate::scen::DEAD },
    Scen { prop: "P28", name: "stream", weight: 2, gen: gen_stream, run: run_aims, viol: crate::scen::DEAD },
    Scen { prop: "P28", name: "goals", weight: 5, gen: gen_goals, run: run_aims, viol: crate::scen::DEAD },
    Scen { prop: "P30", name: "choice", weight: 6, gen: gen_choice, run: run_choice, viol: crate::scen::DEAD },
    Scen { prop: "P30", name: "acting", weight: 2, gen: gen_acting, run: run_choice, viol: crate::scen::DEAD },
    Scen { prop: "P30", name: "goals", weight: 2, gen: gen_goals, run: run_choice, viol: crate::scen::DEAD },
    Scen { prop: "P16", name: "plan", weight: 1, gen: gen_plan, run: run_plan, viol: crate::scen::DEAD },
];

// ---- operations of the harness
#[derive(Clone, Debug)]
struct Call {
    t: i64,
    name: String,
    args: Vec<T>,
}
static CALLS: Mutex<Vec<Call>> = Mutex::new(vec![]);
/// observations handed to the evidence store: (relation, interval, evidence ids, pos, cnt)
#[derive(Clone, Debug)]
struct Obs {
    t: T,
    dt: Option<i64>,
    ids: Vec<i64>,
    pos: i64,
    cnt: i64,
}
static OBS: Mutex<Vec<Obs>> = Mutex::new(vec![]);
fn lk<X>(m: &Mutex<X>) -> std::sync::MutexGuard<'_, X> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
struct HOp {
    name: String,
    babble: bool,
    evi: i64,
}
impl Op for HOp {
    fn retName(&self) -> String {
        self.name.clone()
    }
    fn call(&self, nar: &mut ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, args: &Vec<Term>) {
        lk(&CALLS).push(Call { t: nar.t, name: self.name.clone(), args: args.iter().map(model::from).collect() });
        simcore::probe("op_called");
    }
    fn isBabbleable(&self) -> bool {
        self.babble
    }
    fn ret_evi_cnt(&self) -> i64 {
        self.evi
    }
}
fn sent(ty: &'static str, p: *const ()) {
    if ty != std::any::type_name::<(Sentence, i64)>() {
        return;
    }
    let (s, _) = unsafe { &*(p as *const (Sentence, i64)) };
    if let Some((pos, cnt)) = cnts(s) {
        lk(&OBS).push(Obs { t: model::from(&s.term), dt: s.expDt, ids: s.stamp.ids.clone(), pos, cnt });
    }
}
fn cnts(s: &Sentence) -> Option<(i64, i64)> {
    match &s.evi {
        Some(Evidence::CNT { pos, cnt }) => Some((*pos, *cnt)),
        _ => None,
    }
}
pub fn op_term(name: &str, args: Vec<T>) -> T {
    st(Cop::Inh, C(K::SetExt, vec![C(K::Prod, args)]), n(name))
}
pub fn op_of(t: &T) -> Option<(String, Vec<T>)> {
    if let S(Cop::Inh, a, b) = t {
        if let (C(K::SetExt, v), N(name)) = (&**a, &**b) {
            if let [C(K::Prod, args)] = &v[..] {
                if !args.is_empty() {
                    return Some((name.clone(), args.clone()));
                }
            }
        }
    }
    None
}
fn has_op_goal(t: &T) -> bool {
    match t {
        C(K::Seq, v) => v.iter().any(has_op_goal),
        _ => op_of(t).is_some(),
    }
}
/// (condition, operations, consequence)
pub fn split(t: &T) -> Option<(Vec<T>, T)> {
    if let S(Cop::Pred, a, b) = t {
        if let C(K::Seq, v) = &**a {
            return Some((v.clone(), (**b).clone()));
        }
    }
    None
}

// ---- world
type Bel = Arc<RwLock<Sentence>>;
/// copies of all relations, per concept (both rankings)
fn copies(nar: &Nar) -> Vec<(T, bool, Bel)> {
    let mut v = vec![];
    for (k, c) in nar.procNar.evidenceMem.read().concepts.iter() {
        let k = model::from(k);
        for b in &c.payload.beliefsByExp {
            v.push((k.clone(), true, Arc::clone(b)));
        }
        for b in &c.payload.beliefsByUsage {
            v.push((k.clone(), false, Arc::clone(b)));
        }
    }
    v.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    v
}
#[derive(Clone, Debug)]
struct Ev {
    t: i64,
    name: T,
}
struct World {
    nar: Nar,
    /// registered operations: name -> (babbleable, evidence)
    ops: BTreeMap<String, (bool, i64)>,
    /// all events in the order in which they happened
    hist: Vec<Ev>,
    /// the recent-event window (the last twenty at the end of each step)
    tr: Vec<Ev>,
    told: Vec<(T, i64)>,
    goals: Vec<(T, Tv)>,
    /// truth values relations had
    tvs: BTreeMap<T, BTreeSet<(u64, u64)>>,
    /// cnt, pos per copy
    seen: BTreeMap<usize, (Bel, i64, i64)>,
    babble: bool,
    learn: bool,
    antic: bool,
    acts: bool,
    pub aims: bool,
    pub choice: bool,
    max_beliefs: usize,
}
fn table() -> Vec<i64> {
    // 1.3^i rounded down, distinct, up to 20
    let mut v = vec![];
    let mut x = 1.0f64;
    while x as i64 <= 20 {
        if v.last() != Some(&(x as i64)) {
            v.push(x as i64);
        }
        x *= 1.3;
    }
    v
}
/// the longest interval which is not longer than dt
fn interval_idx(dt: i64) -> i64 {
    let t = table();
    t.iter().rposition(|x| *x <= dt).unwrap_or(0) as i64
}
fn start() -> World {
    lk(&CALLS).clear();
    lk(&OBS).clear();
    simcore::set_send_observer(sent);
    let nar = new_nar();
    World {
        nar,
        ops: BTreeMap::new(),
        hist: vec![],
        tr: vec![],
        told: vec![],
        goals: vec![],
        tvs: BTreeMap::new(),
        seen: BTreeMap::new(),
        babble: true,
        learn: false,
        antic: false,
        acts: false,
        aims: false,
        choice: false,
        max_beliefs: 0,
    }
}
fn is_reg(w: &World, t: &T) -> bool {
    op_of(t).map_or(false, |(nm, _)| w.ops.contains_key(&nm))
}
impl World {
    fn line(&mut self, l: &str) {
        let tok: Vec<&str> = l.split_whitespace().collect();
        if l == "@idle" {
            idle();
            self.audit();
            return;
        }
        if l == "@forget" {
            self.nar.procNar.trace.force_flush();
            self.hist.push(Ev { t: -1, name: n("@forget") });
            self.tr.clear();
            return;
        }
        if tok.first() == Some(&"@op") {
            let (b, e) = (tok[2] == "1", tok[3].parse().unwrap());
            self.ops.insert(tok[1].to_string(), (b, e));
            self.nar.procNar.ops.push(Rc::new(Box::new(HOp { name: tok[1].to_string(), babble: b, evi: e })));
            return;
        }
        if l == "!sp" {
            self.step();
            return;
        }
        if let Some(x) = l.strip_prefix("!peb ") {
            self.babble = x == "1";
        }
        let pl = model::parse_line(l);
        if let Some(p) = &pl {
            let t = self.nar.procNar.t;
            if p.event && p.punct == '.' {
                self.hist.push(Ev { t, name: p.t.clone() });
                self.tr.push(Ev { t, name: p.t.clone() });
            } else if p.event && p.punct == '!' {
                self.goals.push((p.t.clone(), p.tv));
                if self.aims {
                    s_goal::tell(&p.t, p.tv, self.counter());
                }
            } else if !p.event && p.punct == '.' {
                if let Some((v, _)) = split(&p.t) {
                    if !v.is_empty() {
                        self.told.push((p.t.clone(), t));
                        if self.aims {
                            s_goal::item(&p.t, self.counter());
                        }
                    }
                }
            }
        }
        enter(&mut self.nar, l);
        if self.aims && pl.map_or(false, |p| p.event && p.punct == '!') {
            s_goal::told_done(&self.nar);
        }
    }
    fn counter(&self) -> i64 {
        peek(&peek(&self.nar.mem).shared).stampIdCounter.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn snapshot(&mut self) {
        for (_, _, b) in copies(&self.nar) {
            self.note(&b);
        }
    }
    fn note(&mut self, b: &Bel) {
        let s = peek(&**b);
        let (pos, cnt) = match cnts(s) {
            Some(x) => x,
            None => return,
        };
        let a = rec::addr(&**b);
        if let Some(tv) = rec::tv_of(s) {
            let e = self.tvs.entry(model::from(&s.term)).or_default();
            if e.len() < 200 {
                e.insert((tv.0.to_bits(), tv.1.to_bits()));
            }
        }
        match self.seen.get_mut(&a) {
            Some(o) => {
                if self.learn && (pos < o.2 || cnt < o.1) {
                    fail("decrease", &format!("evidence of {} went from {}/{} to {}/{}", model::from(&s.term), o.2, o.1, pos, cnt));
                }
                o.1 = cnt;
                o.2 = pos;
            }
            None => {
                self.seen.insert(a, (Arc::clone(b), cnt, pos));
            }
        }
        if self.learn && (pos > cnt || pos < 1) {
            fail("counts", &format!("{} has {} positive of {} observations", model::from(&s.term), pos, cnt));
        }
    }
    fn step(&mut self) {
        self.snapshot();
        let t = self.nar.procNar.t;
        let before: Vec<(Bel, i64)> = self.nar.procNar.anticipatedEvents.iter().map(|a| (Arc::clone(&a.evi), a.deadline)).collect();
        for (b, _) in &before {
            self.note(b);
        }
        let neg0: BTreeMap<usize, i64> = self.seen.iter().map(|(a, (b, ..))| (*a, cnts(peek(&**b)).map_or(0, |(p, c)| c - p))).collect();
        let view: Vec<T> = self.nar.procNar.trace.ret_view().iter().map(|e| model::from(&e.name)).collect();
        let n0 = lk(&CALLS).len();
        let out0 = simcore::output_len();
        let o0 = lk(&OBS).len();
        let aims = if self.aims { Some(s_goal::before_step(&self.nar)) } else { None };
        let choice = if self.choice {
            s_goal::collect(&self.nar);
            Some(s_choice::before(&self.nar, &view))
        } else {
            None
        };
        enter(&mut self.nar, "!sp");
        if let Some(b) = &aims {
            s_goal::after_step(&self.nar, b, view.last());
        }
        if self.nar.procNar.t != t + 1 {
            fail("time", &format!("time went from {} to {} in one step", t, self.nar.procNar.t));
        }
        let calls: Vec<Call> = lk(&CALLS)[n0..].to_vec();
        let executed: Vec<T> = calls.iter().map(|c| op_term(&c.name, c.args.clone())).collect();
        if let Some(b) = &choice {
            s_choice::after(&self.nar, b, &executed, &|t| is_reg(self, t));
        }
        if self.learn {
            let obs = lk(&OBS)[o0..].to_vec();
            for o in &obs {
                self.real(o);
            }
        }
        for e in &executed {
            self.hist.push(Ev { t, name: e.clone() });
            self.tr.push(Ev { t, name: e.clone() });
        }
        let k = self.tr.len().saturating_sub(20);
        self.tr.drain(..k);
        self.snapshot();
        if self.antic {
            self.check_antic(t, &before, &neg0, &view, &executed);
        }
        if self.acts {
            self.check_ops(t, &calls, &executed, &view, out0);
        }
        simcore::probe("judged");
    }
    // ---- P14
    fn check_antic(&mut self, t: i64, before: &[(Bel, i64)], neg0: &BTreeMap<usize, i64>, view: &[T], executed: &[T]) {
        let recent: Vec<&T> = view.iter().rev().take(2).collect();
        let pred = |b: &Bel| split(&model::from(&peek(&**b).term)).map(|x| x.1);
        let mut expect: BTreeMap<usize, i64> = BTreeMap::new();
        let mut open: Vec<(usize, i64)> = vec![];
        for (b, dl) in before {
            let p = pred(b);
            if p.as_ref().map_or(false, |p| recent.contains(&p)) {
                simcore::probe("antic_met");
                continue;
            }
            if *dl <= t {
                *expect.entry(rec::addr(&**b)).or_insert(0) += 1;
                simcore::probe("antic_unmet");
            } else {
                open.push((rec::addr(&**b), *dl));
            }
        }
        for (a, (b, ..)) in &self.seen {
            let s = peek(&**b);
            let (p, c) = match cnts(s) {
                Some(x) => x,
                None => continue,
            };
            let o = neg0.get(a).copied().unwrap_or(0);
            let want = expect.get(a).copied().unwrap_or(0);
            if c - p - o != want {
                fail(
                    "penalty",
                    &format!("at time {}: {} got {} pieces of negative evidence, {} unmet predictions were due", t, model::from(&s.term), c - p - o, want),
                );
            }
        }
        let mut after: Vec<(usize, i64)> = vec![];
        let mut fresh: Vec<(Bel, i64)> = vec![];
        let mut rest = open.clone();
        for x in &self.nar.procNar.anticipatedEvents {
            let k = (rec::addr(&*x.evi), x.deadline);
            match rest.iter().position(|r| *r == k) {
                Some(i) => {
                    rest.remove(i);
                }
                None => fresh.push((Arc::clone(&x.evi), x.deadline)),
            }
            after.push(k);
        }
        if !rest.is_empty() {
            fail("antic-lost", &format!("at time {}: {} pending predictions vanished before their deadline", t, rest.len()));
        }
        // executed for a reason: by a decision, not by babbling (babbled operations have no argument but the agent)
        let decided: Vec<&T> = executed.iter().filter(|e| op_of(e).map_or(false, |(_, a)| a.len() > 1)).collect();
        for e in &decided {
            if !fresh.iter().any(|(b, _)| self.has_op(b, e)) {
                fail("no-antic", &format!("at time {}: {} was executed because of a relation but its consequence is not awaited", t, e));
            }
        }
        if fresh.len() > 1 || (fresh.len() == 1 && executed.len() == 1 && !self.has_op(&fresh[0].0, &executed[0])) {
            fail("antic-extra", &format!("at time {}: {} new predictions for {:?}", t, fresh.len(), executed));
        }
        for (b, dl) in &fresh {
            let s = peek(&**b);
            let i = s.expDt.unwrap_or(0);
            let want = t + table()[i as usize];
            if *dl != want {
                fail("deadline", &format!("prediction of {} made at {} has deadline {} instead of {}", model::from(&s.term), t, dl, want));
            }
            simcore::probe("antic_new");
        }
    }
    fn has_op(&self, b: &Bel, op: &T) -> bool {
        match split(&model::from(&peek(&**b).term)) {
            Some((v, _)) => v.last().map_or(false, |l| l == op || model::unifies(l, op)),
            None => false,
        }
    }
    // ---- P15
    fn check_ops(&mut self, t: i64, calls: &[Call], executed: &[T], view: &[T], out0: usize) {
        if calls.len() > 1 {
            fail("many-ops", &format!("{} operations were called in the step at time {}: {:?}", calls.len(), t, executed));
        }
        let nosp = |s: &str| s.replace(' ', "");
        let said: Vec<String> =
            simcore::output_from(out0).iter().map(|o| nosp(&o.text)).filter(|s| s.ends_with('!') && s.starts_with("<{(") && s.contains("-->^")).collect();
        if said != executed.iter().map(|e| nosp(&e.to_string()) + "!").collect::<Vec<_>>() {
            fail("report", &format!("at time {}: called {:?} but reported {:?}", t, executed, said));
        }
        let mut want: Vec<T> = view.to_vec();
        want.extend(executed.iter().cloned());
        let k = want.len().saturating_sub(20);
        let want = want[k..].to_vec();
        let now: Vec<T> = self.nar.procNar.trace.ret_view().iter().map(|e| model::from(&e.name)).collect();
        if now != want {
            fail("record", &format!("at time {}: recent events are {:?}, expected {:?}", t, now, want));
        }
        for (c, e) in calls.iter().zip(executed) {
            let (bab, _) = match self.ops.get(&c.name) {
                Some(x) => *x,
                None => fail("unregistered", &format!("{} was called", e)),
            };
            let plain = c.args.len() == 1 && c.args[0] == C(K::SetExt, vec![n("SELF")]);
            if self.babble && bab && plain {
                simcore::probe("babbled");
                continue;
            }
            if !self.justified(e, view) {
                fail(
                    "unjustified",
                    &format!("at time {}: {} was executed although no known relation with it (above the threshold) leads from a perceived event to a goal", t, e),
                );
            }
            simcore::probe("decided");
        }
    }
    /// wanted: closure of goals through relations, with the truth values derived goals can have
    fn justified(&self, op: &T, view: &[T]) -> bool {
        let thr = 0.58;
        // a decision is carried out in its step, unless operations were given as goals or are conditions themselves (these can hold it up)
        let op_goals = self.goals.iter().any(|g| has_op_goal(&g.0)) || self.tvs.keys().any(|t| split(t).map_or(false, |x| x.0.first().map_or(false, has_op_goal)));
        let mut wanted: Vec<(T, Tv)> = self.goals.clone();
        // sequences given as goals: their first element is wanted, too
        let mut i = 0;
        let mut n_add = 0;
        while i < wanted.len() {
            let (g, gt) = wanted[i].clone();
            i += 1;
            if let C(K::Seq, v) = &g {
                if !v.is_empty() && !wanted.iter().any(|x| x.0 == v[0] && x.1 == gt) {
                    wanted.push((v[0].clone(), gt));
                }
            }
            for (r, tvs) in &self.tvs {
                if let Some((v, p)) = split(r) {
                    if p != g || v.is_empty() {
                        continue;
                    }
                    for (f, c) in tvs {
                        let tv = (f64::from_bits(*f), f64::from_bits(*c));
                        let d = ded_goal(gt, tv);
                        // an own decision
                        if exp(d) > thr && exp(tv) > thr {
                            let last = v.last().unwrap();
                            let head = if v.len() == 2 { v[0].clone() } else { C(K::Seq, v[..v.len() - 1].to_vec()) };
                            if (last == op || model::unifies(last, op)) && v.len() > 1 && self.perceived(&head, &v[0], view, op_goals) {
                                return true;
                            }
                        }
                        if !wanted.iter().any(|x| x.0 == v[0] && tv_eq(x.1, d)) {
                            wanted.push((v[0].clone(), d));
                            n_add += 1;
                            if n_add > 3000 {
                                simcore::probe("unjudged");
                                return true;
                            }
                        }
                    }
                }
            }
        }
        false
    }
    fn perceived(&self, head: &T, first: &T, view: &[T], ever: bool) -> bool {
        let hit = |e: &T| *e == *head || *e == *first || model::unifies(head, e) || model::unifies(first, e);
        if ever {
            return self.hist.iter().any(|e| hit(&e.name));
        }
        view.iter().rev().take(2).any(hit)
    }
    // ---- P13
    fn audit(&mut self) {
        self.snapshot();
        if !self.learn {
            return;
        }
        let obs = lk(&OBS).clone();
        // what is held is the sum of observations
        let cs = copies(&self.nar);
        for (k, ex, b) in &cs {
            self.sum(k, *ex, peek(&**b), &obs);
        }
        // nothing got lost
        let mut per: BTreeMap<(T, bool), Vec<Bel>> = BTreeMap::new();
        for (k, ex, b) in cs {
            per.entry((k, ex)).or_default().push(b);
        }
        self.max_beliefs = per.values().map(|v| v.len()).max().unwrap_or(0).max(self.max_beliefs);
        if self.max_beliefs >= 18 || self.nar.procNar.t > 90 {
            simcore::probe("unjudged");
            return;
        }
        let mut done: BTreeSet<(T, Vec<i64>)> = BTreeSet::new();
        for o in &obs {
            if !done.insert((o.t.clone(), o.ids.clone())) {
                continue;
            }
            let (v, p) = split(&o.t).unwrap();
            let mut subs: Vec<T> = usub(&v[0]);
            subs.extend(usub(&p));
            for k in subs {
                for ex in [true, false] {
                    let ok = per.get(&(k.clone(), ex)).map_or(false, |bs| {
                        bs.iter().any(|b| {
                            let s = peek(&**b);
                            model::from(&s.term) == o.t && s.stamp.ids.iter().any(|i| o.ids.contains(i))
                        })
                    });
                    if !ok {
                        fail("lost", &format!("the observation {} (evidence {:?}) is not counted in concept {} ({})", o.t, o.ids, k, if ex { "by expectation" } else { "by usage" }));
                    }
                }
            }
        }
    }
    fn real(&self, o: &Obs) {
        let bad = |w: &str| -> ! { fail("unreal", &format!("observation {} with evidence {:?}, interval {:?}: {}", o.t, o.ids, o.dt, w)) };
        let (v, p) = match split(&o.t) {
            Some(x) => x,
            None => bad("not a temporal relation"),
        };
        if v.len() < 2 || o.ids.len() != v.len() + 1 {
            bad("malformed");
        }
        for op in &v[1..] {
            if !is_reg(self, op) {
                bad("not a registered operation in the middle");
            }
        }
        let mut want: Vec<T> = v.clone();
        want.push(p.clone());
        // find positions in the window, in order
        let mut k = 0;
        for e in &self.tr {
            if k < want.len() && e.name == want[k] && e.t == o.ids[k] {
                k += 1;
            }
        }
        let ok = k == want.len();
        if !ok {
            bad("no such sequence of events happened");
        }
        if is_reg(self, &want[0]) || is_reg(self, &p) || want[0] == p {
            bad("condition and consequence must be different events which are not operations");
        }
        let m = o.ids.len();
        let dt = o.ids[m - 1] - o.ids[m - 2];
        if o.dt != Some(interval_idx(dt)) {
            bad(&format!("the interval of {} steps was stored as index {:?} instead of {}", dt, o.dt, interval_idx(dt)));
        }
        let evi = op_of(&v[1]).and_then(|(nm, _)| self.ops.get(&nm).map(|x| x.1)).unwrap_or(3);
        if o.pos != evi || o.cnt != evi {
            bad(&format!("counted as {}/{} instead of {}/{}", o.pos, o.cnt, evi, evi));
        }
    }
    fn sum(&self, k: &T, ex: bool, s: &Sentence, obs: &[Obs]) {
        let t = model::from(&s.term);
        let (pos, _cnt) = match cnts(s) {
            Some(x) => x,
            None => fail("kind", &format!("{} has no counts", t)),
        };
        if s.stamp.ids.len() >= 118 {
            return;
        }
        let at = format!("{} (interval {:?}, evidence {:?}) in concept {} ({})", t, s.expDt, s.stamp.ids, k, if ex { "by expectation" } else { "by usage" });
        // relations with introduced variables are copies of one statement
        let inst = |o: &T| *o == t || (has_var(&t) && (model::unifies(&t, o)));
        let mine: Vec<&Obs> = {
            let mut d: BTreeSet<Vec<i64>> = BTreeSet::new();
            obs.iter().filter(|o| inst(&o.t)).filter(|o| d.insert(o.ids.clone())).collect()
        };
        let tl: Vec<&(T, i64)> = self.told.iter().filter(|x| inst(&x.0)).collect();
        let mut left: BTreeMap<i64, i64> = BTreeMap::new();
        for i in &s.stamp.ids {
            *left.entry(*i).or_insert(0) += 1;
        }
        // an observed one: union of disjoint observations; a told one starts with ten and one id of its own
        let mut budget = 20_000;
        if cover(&left, pos, &mine, 0, &mut budget, s.expDt) {
            simcore::probe("sum_ok");
            return;
        }
        if !tl.is_empty() {
            for id in &s.stamp.ids {
                let mut l = left.clone();
                *l.get_mut(id).unwrap() -= 1;
                if cover(&l, pos - 10, &mine, 0, &mut budget, None) {
                    simcore::probe("sum_ok");
                    return;
                }
            }
        }
        if budget <= 0 {
            simcore::probe("unjudged");
            return;
        }
        fail("sum", &format!("{}: positive count {} is not the sum of distinct observations (of {:?})", at, pos, mine.iter().map(|o| (o.ids.clone(), o.pos, o.dt)).take(12).collect::<Vec<_>>()));
    }
}
/// can the evidence ids be split into distinct observations whose counts add up?
fn cover(left: &BTreeMap<i64, i64>, pos: i64, obs: &[&Obs], from: usize, budget: &mut i64, dt: Option<i64>) -> bool {
    *budget -= 1;
    if *budget < 0 {
        return false;
    }
    let total: i64 = left.values().sum();
    if total == 0 {
        return pos == 0;
    }
    if pos <= 0 {
        return false;
    }
    // the smallest id left has to belong to some observation
    let id = *left.iter().find(|(_, c)| **c > 0).unwrap().0;
    let _ = from;
    for o in obs {
        if !o.ids.contains(&id) {
            continue;
        }
        if let (Some(d), Some(e)) = (dt, o.dt) {
            if e > d {
                continue; // longer intervals include shorter ones, not the other way round
            }
        }
        let mut l = left.clone();
        let mut ok = true;
        for i in &o.ids {
            match l.get_mut(i) {
                Some(c) if *c > 0 => *c -= 1,
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        // disjoint: none of its ids may be left for another one
        if ok && o.ids.iter().all(|i| l[i] == 0) && cover(&l, pos - o.pos, obs, 0, budget, dt) {
            return true;
        }
    }
    false
}
fn ded(a: Tv, b: Tv) -> Tv {
    let f = a.0 * b.0;
    (f, a.1 * b.1 * f)
}
pub fn ded_goal(a: Tv, b: Tv) -> Tv {
    let x = ded(a, b);
    let y = ded((1.0 - a.0, a.1), b);
    let y = (1.0 - y.0, y.1);
    if x.1 >= y.1 {
        x
    } else {
        y
    }
}

// ---- generators
const EVS: &[&str] = &["a", "b", "c", "d", "<{k} --> e>", "<k --> [f]>", "<k --> [g]>"];
fn ev(r: &mut Prng) -> String {
    if r.below(3) > 0 {
        pick(r, &EVS[..4]).to_string()
    } else {
        pick(r, EVS).to_string()
    }
}
fn opx(r: &mut Prng, ops: &[String]) -> String {
    format!("<{{({{SELF}}*{})}} --> {}>", pick(r, &["b", "k"]), pick(r, ops))
}
/// names of operations, also such which begin with the name of another one
fn op_names(r: &mut Prng) -> [&'static str; 3] {
    [["^x", "^y", "^z"], ["^x", "^y", "^z"], ["^xy", "^x", "^y"], ["^x", "^xy", "^xyz"]][r.below(4) as usize]
}
fn reg(r: &mut Prng, sp: &mut Spec, max: u64) -> Vec<String> {
    let k = 1 + r.below(max) as usize;
    let names: Vec<String> = op_names(r)[..k].iter().map(|s| s.to_string()).collect();
    for nm in &names {
        let e = [3, 3, 3, 3, 3, 3, 1 + r.below(8), 10 + r.below(2000)][r.below(8) as usize];
        sp.ops.push(format!("@op {} {} {}", nm, r.below(2), e));
    }
    names
}
fn gen_episodes(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, tier: Tier) {
    let ops = reg(r, sp, 2);
    sp.ops.push("!peb 0".into());
    let n = 1 + r.below(if tier == Tier::Quick { 8 } else { 20 });
    let kinds: Vec<(String, String, String)> = (0..1 + r.below(3)).map(|_| (ev(r), opx(r, &ops), ev(r))).collect();
    for _ in 0..n {
        let (a, o, c) = pick(r, &kinds).clone();
        sp.ops.push("@forget".into());
        let gap = |r: &mut Prng, sp: &mut Spec| {
            for _ in 0..[0, 1, 1, 1, 2, 3, 6][r.below(7) as usize] {
                sp.ops.push("!sp".into());
            }
        };
        sp.ops.push(format!("{}. :|:", a));
        gap(r, sp);
        sp.ops.push(format!("{}. :|:", o));
        gap(r, sp);
        sp.ops.push(format!("{}. :|:", c));
        for _ in 0..1 + r.below(3) {
            sp.ops.push("!sp".into());
        }
        if r.below(4) == 0 {
            sp.ops.push("@idle".into());
        }
    }
    sp.ops.push("@idle".into());
}
fn gen_stream(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let ops = reg(r, sp, 3);
    sp.ops.push(format!("!peb {}", r.below(2)));
    let n = 10 + r.below(if tier == Tier::Quick { 90 } else { 300 });
    let told = r.below(2) == 0;
    for _ in 0..n {
        sp.ops.push(match r.below(30) {
            0..=9 => format!("{}. :|:", ev(r)),
            10..=12 => format!("{}. :|:", opx(r, &ops)),
            13 => format!("{}! :|:", ev(r)),
            14 if told => format!("<({},{}) =/> {}>.", ev(r), opx(r, &ops), ev(r)),
            15 => "@idle".into(),
            16 => format!("{}. :|:", opx(r, &["^u".to_string()])),
            17 => format!("!peb {}", r.below(2)),
            _ => "!sp".into(),
        });
    }
    sp.ops.push("@idle".into());
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
}
/// relations are known, goals come up, consequences follow or not
fn gen_acting(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let ops = reg(r, sp, 3);
    sp.ops.push(format!("!peb {}", (r.below(4) == 0) as u8));
    let rels: Vec<(String, String, String)> = (0..1 + r.below(4)).map(|_| (ev(r), opx(r, &ops), ev(r))).collect();
    for (a, o, c) in &rels {
        if r.below(4) > 0 {
            sp.ops.push(format!("<({},{}) =/> {}>.", a, o, c));
        } else {
            // learned with its interval
            sp.ops.push("@forget".into());
            sp.ops.push(format!("{}. :|:", a));
            sp.ops.push("!sp".into());
            sp.ops.push(format!("{}. :|:", o));
            for _ in 0..1 + r.below(8) {
                sp.ops.push("!sp".into());
            }
            sp.ops.push(format!("{}. :|:", c));
            sp.ops.push("!sp".into());
            sp.ops.push("@idle".into());
        }
    }
    let n = 3 + r.below(if tier == Tier::Quick { 16 } else { 60 });
    for _ in 0..n {
        let (a, _, c) = pick(r, &rels).clone();
        if r.below(3) > 0 {
            sp.ops.push(format!("{}! :|:{}", c, ["", "", "", " {1.0 0.99}", " {0.3 0.9}", " {0.9 0.3}"][r.below(6) as usize].to_string()));
            if sp.ops.last().unwrap().contains('{') && !sp.ops.last().unwrap().ends_with(":") {
                // truth value comes before the tense
                let l = sp.ops.pop().unwrap();
                let k = l.rfind('{').unwrap();
                sp.ops.push(format!("{}! {} :|:", c, &l[k..]));
            }
        }
        sp.ops.push(format!("{}. :|:", a));
        for _ in 0..1 + r.below(3) {
            sp.ops.push("!sp".into());
        }
        match r.below(4) {
            0 | 1 => sp.ops.push(format!("{}. :|:", c)),
            2 => sp.ops.push(format!("{}. :|:", ev(r))),
            _ => {}
        }
        for _ in 0..r.below(6) {
            sp.ops.push("!sp".into());
        }
        if r.below(8) == 0 {
            sp.ops.push("@idle".into());
        }
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
}
/// one ingredient of a decision is missing: nothing may be executed
fn gen_restrained(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, tier: Tier) {
    let k = 1 + r.below(3);
    let names = op_names(r);
    for nm in &names[..k as usize] {
        sp.ops.push(format!("@op {} {} 3", nm, r.below(2)));
    }
    // a name which is not registered, but near to one which is
    let no = pick(r, &["^u", "^", "^xyzu", "^X"]).to_string();
    sp.ops.push("!peb 0".into());
    let what = r.below(6);
    let e = &EVS[..4];
    let n = 8 + r.below(if tier == Tier::Quick { 30 } else { 100 });
    for i in 0..n {
        let o = opx(r, &names.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        sp.ops.push(match (r.below(10), what) {
            // the operation is not registered
            (0, 0) => format!("<(a,<{{({{SELF}}*b)}} --> {}>) =/> b>.", no),
            // the condition never happens
            (0, 1) => format!("<(zz,{}) =/> b>.", o),
            // the consequence is not wanted
            (0, 2) => format!("<(a,{}) =/> zz>.", o),
            // its desire is too low
            (0, 3) => format!("<(a,{}) =/> b>.", o),
            (1, 3) => "b! {0.5 0.5} :|:".into(),
            (1, 5) => "b! {1.0 0.1} :|:".into(),
            (0, 5) => format!("<(a,{}) =/> b>.", o),
            // nothing is wanted at all
            (0, 4) => format!("<({},{}) =/> {}>.", pick(r, e), o, pick(r, e)),
            (1, 0) | (1, 1) | (1, 2) => "b! :|:".into(),
            (2..=4, _) => format!("{}. :|:", if what == 0 || what > 2 || what == 2 { pick(r, &["a", "c"]) } else { pick(r, &["a", "c", "d"]) }),
            (5, _) if i % 7 == 0 => "@idle".into(),
            _ => "!sp".into(),
        });
    }
}

// ---- runs
fn cut(w: &mut World, sp: &Spec) {
    for l in &sp.ops {
        if spent() {
            break;
        }
        w.line(l);
    }
}
fn run_learn(sp: &Spec) {
    let mut w = start();
    w.learn = true;
    cut(&mut w, sp);
    idle();
    w.audit();
}
fn run_antic(sp: &Spec) {
    let mut w = start();
    w.antic = true;
    cut(&mut w, sp);
}
fn run_ops(sp: &Spec) {
    let mut w = start();
    w.acts = true;
    cut(&mut w, sp);
}
/// chains of relations, many goals of different worth, sequences as goals, goals which come true
fn gen_goals(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let ops = reg(r, sp, 3);
    sp.ops.push(format!("!peb {}", (r.below(4) == 0) as u8));
    let mut evs: Vec<String> = EVS.iter().map(|s| s.to_string()).collect();
    let many = r.below(3) == 0;
    if many {
        evs.extend((0..25).map(|i| format!("m{}", i)));
    }
    let chain = r.below(2) == 0;
    for i in 0..r.below(7) {
        let (a, c) = if chain { (format!("n{}", i), format!("n{}", i + 1)) } else { (pick(r, &evs).clone(), pick(r, &evs).clone()) };
        evs.push(a.clone());
        let l = match r.below(8) {
            0 => format!("<({},{},{}) =/> {}>.", a, opx(r, &ops), opx(r, &ops), c),
            1 => format!("<({},{}) =/> {}>.", a, pick(r, &evs), c),
            2 => format!("<(<$v --> q>,<{{({{SELF}}*$v)}} --> {}>) =/> {}>.", pick(r, &ops), c),
            3 => format!("<({},{}) =/> {}>.", a, opx(r, &["^u".to_string()]), c),
            _ => format!("<({},{}) =/> {}>.", a, opx(r, &ops), c),
        };
        sp.ops.push(l);
        if chain {
            evs.push(c);
        }
    }
    for _ in 0..5 + r.below(if tier == Tier::Quick { 50 } else { 200 }) {
        let tv = ["", "", " {1.0 0.99}", " {0.3 0.9}", " {0.9 0.3}", " {0.0 0.9}", " {0.7 0.6}"][r.below(7) as usize];
        let l = match r.below(if many { 10 } else { 16 }) {
            0..=3 => format!("{}!{} :|:", pick(r, &evs), tv),
            4 => format!("({},{})!{} :|:", pick(r, &evs), pick(r, &evs), tv),
            5 => format!("({},{})!{} :|:", pick(r, &evs), opx(r, &ops), tv),
            6 => format!("{}!{} :|:", opx(r, &ops), tv),
            7 => format!("{}. :|:", if r.below(4) == 0 { "<w --> q>".to_string() } else { pick(r, &evs).clone() }),
            8 if r.below(3) == 0 => "@idle".into(),
            8 if r.below(3) == 0 => format!("{}. :|:", opx(r, &ops)),
            _ => "!sp".into(),
        };
        if many && r.below(8) == 0 {
            for _ in 0..r.below(14) {
                sp.ops.push("!sp".into());
            }
        }
        sp.ops.push(l);
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
    if r.below(4) == 0 {
        rates.insert("stall".into(), (500 + r.below(5000), 50));
    }
}
fn run_aims(sp: &Spec) {
    let mut w = Box::new(start());
    w.aims = true;
    s_goal::start(&w.nar, true);
    cut(&mut w, sp);
    s_goal::stop();
}
/// several ways are open at once, and the worth of each changes with experience
fn gen_choice(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let names = op_names(r);
    let ops: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    for nm in &ops {
        sp.ops.push(format!("@op {} {} {}", nm, r.below(2), [3, 3, 1, 8][r.below(4) as usize]));
    }
    sp.ops.push(format!("!peb {}", (r.below(3) == 0) as u8));
    let conds = ["a", "b", "c", "<{k} --> e>"];
    let goals = ["g", "h", "i"];
    let mut rels: Vec<(String, String, String)> = vec![];
    for _ in 0..2 + r.below(5) {
        let k = 1 + r.below(4) as usize;
        let c = pick(r, &conds[..k]).to_string();
        let o = opx(r, &ops);
        let g = if r.below(6) == 0 { pick(r, &conds).to_string() } else { pick(r, &goals).to_string() };
        rels.push((c, o, g));
    }
    for (a, o, c) in &rels {
        if r.below(4) > 0 {
            sp.ops.push(format!("<({},{}) =/> {}>.", a, o, c));
        } else {
            for _ in 0..1 + r.below(3) {
                sp.ops.extend(["@forget".to_string(), format!("{}. :|:", a), "!sp".into(), format!("{}. :|:", o), "!sp".into(), format!("{}. :|:", c), "!sp".into(), "@idle".into()]);
            }
        }
    }
    let tvs = ["", "", " {1.0 0.99}", " {1.0 0.7}", " {0.9 0.8}", " {1.0 0.5}", " {0.8 0.9}"];
    for _ in 0..5 + r.below(if tier == Tier::Quick { 25 } else { 90 }) {
        for _ in 0..r.below(3) {
            let tv = pick(r, &tvs).to_string();
            let g = pick(r, &rels).2.clone();
            sp.ops.push(format!("{}!{} :|:", g, tv));
        }
        for _ in 0..1 + r.below(2) {
            sp.ops.push(format!("{}. :|:", pick(r, &rels).0));
            if r.below(3) == 0 {
                sp.ops.push("!sp".into());
            }
        }
        for _ in 0..1 + r.below(4) {
            sp.ops.push("!sp".into());
        }
        if r.below(4) == 0 {
            sp.ops.push(format!("{}. :|:", pick(r, &rels).2));
        }
        if r.below(6) == 0 {
            sp.ops.push("@idle".into());
        }
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
    if r.below(4) == 0 {
        rates.insert("stall".into(), (500 + r.below(5000), 50));
    }
}
fn run_choice(sp: &Spec) {
    let mut w = Box::new(start());
    w.choice = true;
    s_goal::start(&w.nar, false);
    cut(&mut w, sp);
    s_goal::stop();
}
/// nothing but complete episodes: the counts are known exactly
fn run_episodes(sp: &Spec) {
    let mut w = start();
    w.learn = true;
    #[derive(Clone)]
    struct M {
        dt: i64,
        ids: Vec<i64>,
        pos: i64,
    }
    let mut model: BTreeMap<T, Vec<M>> = BTreeMap::new();
    let mut n_ep = 0;
    for l in &sp.ops {
        if spent() || w.nar.procNar.t > 80 {
            break;
        }
        let step = l == "!sp";
        w.line(l);
        if step {
            // what the trace held when this step looked at it
            let k = w.hist.iter().rposition(|e| e.t < 0).map_or(0, |x| x + 1);
            if let [a, o, c] = &w.hist[k..] {
                if is_reg(&w, &o.name) && !is_reg(&w, &a.name) && !is_reg(&w, &c.name) && a.name != c.name {
                    let t = st(Cop::Pred, C(K::Seq, vec![a.name.clone(), o.name.clone()]), c.name.clone());
                    let evi = w.ops[&op_of(&o.name).unwrap().0].1;
                    let ids = vec![a.t, o.t, c.t];
                    let dt = interval_idx(c.t - o.t);
                    let e = model.entry(t).or_default();
                    let over = |m: &M| m.ids.iter().any(|i| ids.contains(i));
                    let mut merged = false;
                    for m in e.iter_mut() {
                        if !over(m) && m.dt >= dt {
                            m.ids.extend(&ids);
                            m.pos += evi;
                            merged = true;
                        }
                    }
                    if !merged && !e.iter().any(over) {
                        e.push(M { dt, ids, pos: evi });
                    }
                    n_ep += 1;
                }
            }
        }
    }
    idle();
    w.audit();
    if w.max_beliefs >= 18 || n_ep == 0 {
        return;
    }
    for (t, ms) in &model {
        let (v, p) = split(t).unwrap();
        let mut want: Vec<(i64, i64, i64)> = ms.iter().map(|m| (m.dt, m.pos, m.pos)).collect();
        want.sort();
        let mut subs = usub(&v[0]);
        subs.extend(usub(&p));
        for k in subs {
            for ex in [true, false] {
                let mut have: Vec<(i64, i64, i64)> = copies(&w.nar)
                    .iter()
                    .filter(|(kk, e, b)| *kk == k && *e == ex && model::from(&peek(&**b).term) == *t)
                    .map(|(_, _, b)| {
                        let s = peek(&**b);
                        let (p, c) = cnts(s).unwrap_or((0, 0));
                        (s.expDt.unwrap_or(-1), p, c)
                    })
                    .collect();
                have.sort();
                if have != want {
                    fail("count", &format!("{} in concept {}: (interval, positive, total) are {:?}, observed were {:?}", t, k, have, want));
                }
                simcore::probe("count_ok");
            }
        }
    }
}

// ---- P16
const PLAN_STEPS: usize = 150;
fn gen_plan(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    let names = ["^x", "^y", "^z"];
    sp.ops.push(format!("!peb {}", (r.below(4) == 0) as u8));
    // a history
    let e = ["a", "b", "c", "d", "e"];
    let nl: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    let n = r.below(if tier == Tier::Quick { 40 } else { 120 });
    for _ in 0..n {
        let ew = if r.below(4) == 0 { "w" } else { "v" };
        sp.ops.push(match r.below(27) {
            24 => format!("{}{}. :|:", ew, r.below(4)),
            25 => format!("w{}! {{{} {}}} :|:", pick(r, &["0", "1", "2", "g", "g", "g"]), r.below(11) as f64 / 10.0, [0.5, 0.9, 0.98][r.below(3) as usize]),
            26 => format!("<(u{},{}) =/> w{}>.", r.below(3), opx(r, &nl), r.below(4)),
            0..=3 => format!("{}. :|:", pick(r, &e)),
            4 | 5 => format!("{}! :|:", pick(r, &e)),
            6 => format!("{}. :|:", opx(r, &nl)),
            7 | 8 => format!("<({},{}) =/> {}>.", pick(r, &e), opx(r, &nl), pick(r, &e)),
            9 => "<a --> b>.".into(),
            10 => "!s2".into(),
            11 => format!("{}! {{{} 0.9}} :|:", pick(r, &e), r.below(11) as f64 / 10.0),
            _ => "!sp".into(),
        });
    }
    // the way: w0 -op-> w1 -op-> ... -> goal
    // a machine which leaves goal derivation its share of the step (0.08 s are expected per step)
    sp.tick_ns = [200, 1_000][r.below(2) as usize];
    sp.now_ns = 20_000 + r.below(180_000);
    sp.knobs.insert("len".into(), 1 + r.below(3) as i64);
    sp.knobs.insert("order".into(), r.below(64) as i64);
    sp.knobs.insert("var".into(), (r.below(4) == 0) as i64);
    sp.knobs.insert("between".into(), if r.below(2) == 0 { 0 } else { r.below(6) as i64 });
    for i in 0..3 {
        // other things to do on the way
        if r.below(4) == 0 {
            sp.ops.push(format!("<(w{},{}) =/> v{}>.", i, opx(r, &nl), r.below(3)));
        }
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
}
fn run_plan(sp: &Spec) {
    let mut w = start();
    for nm in ["^x", "^y", "^z"] {
        w.line(&format!("@op {} 1 3", nm));
    }
    for l in &sp.ops {
        if spent() {
            inconclusive("budget", "history too long");
        }
        w.line(l);
    }
    simcore::faults_enable(false);
    idle();
    let k = sp.knob("len");
    let var = sp.knob("var") == 1;
    let wn = |i: i64, x: &str| if var { format!("<{{{}}} --> w{}>", x, i) } else { format!("w{}", i) };
    let mut lines: Vec<String> = (0..k)
        .map(|i| {
            let arg = if var { "$1".to_string() } else { format!("w{}", i) };
            format!("<({},<{{({{SELF}}*{})}} --> {}>) =/> {}>.", wn(i, "$1"), arg, ["^x", "^y", "^z"][i as usize], if i + 1 == k { "wg".into() } else { wn(i + 1, "$1") })
        })
        .collect();
    lines.push("wg! :|:".into());
    // told in any order
    let mut o = sp.knob("order");
    for i in (1..lines.len()).rev() {
        lines.swap(i, (o % (i as i64 + 1)) as usize);
        o /= i as i64 + 1;
    }
    for l in &lines {
        w.line(l);
        for _ in 0..sp.knob("between") {
            w.line("!sp");
        }
    }
    let first = op_term("^x", vec![C(K::SetExt, vec![n("SELF")]), if var { n("k") } else { n("w0") }]);
    let c0 = lk(&CALLS).len();
    for i in 0..PLAN_STEPS {
        w.line(&format!("{}. :|:", wn(0, "k")));
        w.line("!sp");
        let hit = lk(&CALLS)[c0..].iter().any(|c| op_term(&c.name, c.args.clone()) == first);
        if hit {
            simcore::probe("judged");
            simcore::probe(match i {
                0..=1 => "steps<=2",
                2..=5 => "steps<=6",
                6..=19 => "steps<=20",
                20..=49 => "steps<=50",
                50..=99 => "steps<=100",
                _ => "steps>100",
            });
            return;
        }
    }
    fail(
        "no-action",
        &format!("{} was not executed within {} steps although wg is a goal, {} is perceived and a way of {} relations is known", first, PLAN_STEPS, wn(0, "k"), k),
    );
}
