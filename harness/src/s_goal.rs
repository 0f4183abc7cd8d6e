//! P28 goals: each held goal was given or follows from one; goals are kept while useful and wanted until they happen
use crate::exec::fail;
use crate::model::{self, T::*, *};
use crate::rec::{self, peek};
use nar20_1::Nar::Nar;
use nar20_1::NarMem::Mem;
use nar20_1::NarGoalSystem::Entry;
use nar20_1::NarSentence::Sentence;
use parking_lot::RwLock;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

type Ids = Vec<i64>;
type Bits = (u64, u64);
/// most truth values of one goal which are followed up
const MANY: usize = 400;
struct Known {
    _keep: Arc<RwLock<Sentence>>,
    t: T,
    last: (Bits, Ids),
}
struct G {
    e: Arc<RwLock<Entry>>,
    t: T,
    ids: Ids,
    tv: Tv,
    born: i64,
    /// its event was the latest one at a step since
    met: bool,
}
struct GoalRec {
    nar: *const Nar,
    em: Arc<RwLock<Mem>>,
    ga: usize,
    ea: usize,
    rels: BTreeMap<usize, Known>,
    /// all states a relation had
    states: BTreeMap<T, BTreeSet<(Bits, Ids)>>,
    told: Vec<(T, Tv, i64)>,
    /// items of evidence of what was told
    used: BTreeSet<i64>,
    seen: BTreeMap<usize, G>,
    /// goals are judged too
    judge: bool,
    /// goals which appeared in this step
    fresh: Option<Vec<Arc<RwLock<Entry>>>>,
    seen_now: BTreeMap<usize, Arc<RwLock<Entry>>>,
}
unsafe impl Send for GoalRec {}
static REC: Mutex<Option<Box<GoalRec>>> = Mutex::new(None);
fn with<R>(f: impl FnOnce(&mut GoalRec) -> R) -> R {
    let mut g = REC.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("goal recorder"))
}
/// a write lock is being released
pub fn released(a: usize) {
    if let Ok(mut g) = REC.try_lock() {
        if let Some(r) = g.as_mut() {
            if a == r.ga && r.judge {
                r.scan_goals();
            } else if a == r.ga && r.fresh.is_some() {
                r.scan_fresh();
            } else if a == r.ea {
                r.scan_rels();
            } else if r.rels.contains_key(&a) {
                r.state(a);
            }
        }
    }
}
/// this relation was once held with this truth value
pub fn had(t: &T, tv: Tv) -> bool {
    let g = REC.lock().unwrap_or_else(|e| e.into_inner());
    g.as_ref().map_or(false, |r| r.states.get(t).map_or(false, |s| s.iter().any(|x| (f64::from_bits(x.0 .0) - tv.0).abs() < 1e-6 && (f64::from_bits(x.0 .1) - tv.1).abs() < 1e-6)))
}
pub fn start(nar: &Nar, judge: bool) {
    let r = GoalRec {
        nar,
        em: Arc::clone(&nar.procNar.evidenceMem),
        ga: rec::addr(&nar.procNar.goalSystem),
        ea: rec::addr(&nar.procNar.evidenceMem),
        rels: BTreeMap::new(),
        states: BTreeMap::new(),
        told: vec![],
        used: BTreeSet::new(),
        seen: BTreeMap::new(),
        judge,
        fresh: None,
        seen_now: BTreeMap::new(),
    };
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = Some(Box::new(r));
    simcore::set_observer(rec::observer);
}
pub fn stop() {
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn tell(t: &T, tv: Tv, id: i64) {
    with(|r| {
        r.told.push((t.clone(), tv, id));
    });
    item(t, id);
}
/// collects the goals which appear from now on
pub fn collect(nar: &Nar) {
    rec::locked(&nar.procNar.evidenceMem, |_| with(|r| r.scan_rels()));
    with(|r| {
        r.fresh = Some(vec![]);
        r.seen_now = crate::s_bound::goals(nar).into_iter().map(|e| (rec::addr(&*e), e)).collect();
    })
}
pub fn fresh() -> Vec<Arc<RwLock<Entry>>> {
    with(|r| r.fresh.clone().unwrap_or_default())
}
/// all relations with the truth values they had
pub fn relations(mut f: impl FnMut(&T, &[Tv])) {
    let g = REC.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(r) = g.as_ref() {
        for (t, st) in &r.states {
            let v: Vec<Tv> = st.iter().map(|x| (f64::from_bits(x.0 .0), f64::from_bits(x.0 .1))).collect();
            f(t, &v);
        }
    }
}
/// everything told is its own item of evidence
pub fn item(t: &T, id: i64) {
    if with(|r| !r.used.insert(id)) {
        fail("shared", &format!("{} got the item of evidence {} which something told before has already", t, id));
    }
}
/// after a goal was given: it is held
pub fn told_done(nar: &Nar) {
    with(|r| {
        r.scan_goals();
        let (t, _, id) = r.told.last().cloned().unwrap();
        let held = held(nar).iter().any(|a| r.seen.get(a).map_or(false, |g| g.t == t && g.ids == [id]));
        if !held {
            fail("lost", &format!("the goal {} was given, but it isn't held", t));
        }
        simcore::probe("goal_told");
    })
}
fn held(nar: &Nar) -> BTreeSet<usize> {
    crate::s_bound::goals(nar).iter().map(|e| rec::addr(&**e)).collect()
}
pub struct Before {
    held: BTreeSet<usize>,
    des: BTreeMap<usize, f64>,
    t: i64,
}
pub fn before_step(nar: &Nar) -> Before {
    rec::locked(&nar.procNar.evidenceMem, |_| with(|r| r.scan_rels()));
    with(|r| {
        r.scan_goals();
        let held = held(nar);
        let des = held.iter().map(|a| (*a, peek(&r.seen[a].e).desirability as f64)).collect();
        Before { held, des, t: nar.procNar.t }
    })
}
pub fn after_step(nar: &Nar, b: &Before, latest: Option<&T>) {
    with(|r| {
        r.scan_goals();
        let now = held(nar);
        // wanted until it happened
        for a in &b.held {
            let g = r.seen.get_mut(a).unwrap();
            let op = crate::s_proc::op_of(&g.t).is_some();
            let d = peek(&g.e).desirability as f64;
            if latest == Some(&g.t) {
                g.met = true;
                if now.contains(a) && d > 0.0001 {
                    fail("met", &format!("the goal {} is still wanted, although it was just perceived", g.t));
                }
                simcore::probe("goal_met");
            } else if !op && !g.met && d <= 0.0001 {
                fail("unwanted", &format!("the goal {} isn't wanted any more, although it was not perceived", g.t));
            }
        }
        // forgotten only for lack of room, the least useful ones first
        let is_op = |a: &usize| crate::s_proc::op_of(&r.seen[a].t).is_some();
        let n_op = b.held.iter().filter(|a| is_op(*a)).count();
        let gone: Vec<usize> = b.held.iter().filter(|a| !now.contains(a) && !is_op(a)).cloned().collect();
        if gone.is_empty() {
            return;
        }
        simcore::probe("goal_forgotten");
        if b.held.len() + n_op + 2 <= 20 {
            fail("forgotten", &format!("{} of {} goals were forgotten, e.g. {}, although there was room", gone.len(), b.held.len(), r.seen[&gone[0]].t));
        }
        let util = |a: &usize, lo: bool| {
            let g = &r.seen[a];
            let d0 = *b.des.get(a).unwrap_or(&1.0);
            let d1 = peek(&g.e).desirability as f64;
            let d = if lo { d0.abs().min(d1.abs()) } else { d0.abs().max(d1.abs()) };
            (g.tv.1 * (g.tv.0 - 0.5) + 0.5) * d * ((b.t - g.born) as f64 * -0.01).exp()
        };
        let worst = b.held.iter().filter(|a| now.contains(a)).map(|a| (util(a, false), *a)).min_by(|x, y| x.0.total_cmp(&y.0));
        if let Some((u, k)) = worst {
            for a in &gone {
                let g = &r.seen[a];
                if util(a, true) > u + 1e-9 && !now.iter().any(|x| r.seen[x].t == g.t && r.seen[x].ids == g.ids) {
                    fail("useful", &format!("the goal {} (worth {}) was forgotten, but {} (worth {}) was kept", g.t, util(a, true), r.seen[&k].t, u));
                }
            }
            simcore::probe("goal_ranked");
        }
    })
}
fn bits(t: Tv) -> Bits {
    (t.0.to_bits(), t.1.to_bits())
}
fn sorted(v: &[i64]) -> Ids {
    let mut v = v.to_vec();
    v.sort();
    v
}
impl GoalRec {
    fn nar(&self) -> &'static Nar {
        unsafe { &*self.nar }
    }
    fn scan_rels(&mut self) {
        let em = Arc::clone(&self.em);
        for c in peek(&em).concepts.values() {
            for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
                let a = rec::addr(&**b);
                if !self.rels.contains_key(&a) {
                    let k = Known { _keep: Arc::clone(b), t: model::from(&peek(&**b).term), last: ((0, 0), vec![]) };
                    self.rels.insert(a, k);
                }
                self.state(a);
            }
        }
    }
    fn state(&mut self, a: usize) {
        let k = self.rels.get_mut(&a).unwrap();
        let s = peek(&*k._keep);
        if let Some(tv) = rec::tv_of(s) {
            if k.last.0 != bits(tv) || k.last.1.len() != s.stamp.ids.len() || k.last.1 != s.stamp.ids {
                k.last = (bits(tv), s.stamp.ids.clone());
                self.states.entry(k.t.clone()).or_default().insert((bits(tv), sorted(&s.stamp.ids)));
            }
        }
    }
    fn scan_fresh(&mut self) {
        for e in crate::s_bound::goals(self.nar()) {
            if self.seen_now.insert(rec::addr(&*e), Arc::clone(&e)).is_none() {
                self.fresh.as_mut().unwrap().push(e);
            }
        }
    }
    fn scan_goals(&mut self) {
        let mut new = vec![];
        for e in crate::s_bound::goals(self.nar()) {
            let a = rec::addr(&*e);
            if !self.seen.contains_key(&a) {
                let s = &peek(&*e).sentence;
                let g = G { t: model::from(&s.term), ids: sorted(&s.stamp.ids), tv: rec::tv_of(s).unwrap_or((f64::NAN, 0.0)), born: self.nar().procNar.t, met: false, e: Arc::clone(&e) };
                new.push((a, g));
            }
        }
        for (a, g) in new {
            self.judge(&g);
            self.seen.insert(a, g);
        }
    }
    fn judge(&self, g: &G) {
        let near = |x: &Bits| (f64::from_bits(x.0) - g.tv.0).abs() < 1e-9 && (f64::from_bits(x.1) - g.tv.1).abs() < 1e-9;
        if g.ids.len() >= 110 {
            return; // evidence may have been cut
        }
        // an operation which a relation calls for
        if crate::s_proc::op_of(&g.t).is_some() {
            for (t, st) in &self.states {
                if let Some((v, _)) = crate::s_proc::split(t) {
                    let l = v.last().unwrap();
                    if (*l == g.t || model::unifies(l, &g.t)) && st.iter().any(|s| near(&s.0)) && st.iter().any(|s| s.1 == g.ids) {
                        simcore::probe("goal_op");
                        return;
                    }
                }
            }
        }
        let mut memo = BTreeMap::new();
        let mut all = true;
        let v = self.possible(&g.t, &g.ids, &mut memo, &mut all, 0);
        if v.iter().any(near) {
            simcore::probe(if self.told.iter().any(|x| x.0 == g.t && g.ids == [x.2]) { "goal_given" } else { "goal_derived" });
            return;
        }
        if !all {
            return;
        }
        fail("goal", &format!("the goal {} {:?} with evidence {:?} was not given and doesn't follow from a given one and the known relations; truth values which would: {:?}", g.t, g.tv, g.ids, v.iter().take(4).map(|x| (f64::from_bits(x.0), f64::from_bits(x.1))).collect::<Vec<_>>()));
    }
    /// truth values which a goal with this term and this evidence can have
    fn possible(&self, t: &T, ids: &Ids, memo: &mut BTreeMap<(T, Ids), BTreeSet<Bits>>, all: &mut bool, depth: usize) -> BTreeSet<Bits> {
        let key = (t.clone(), ids.clone());
        if let Some(v) = memo.get(&key) {
            return v.clone();
        }
        memo.insert(key.clone(), BTreeSet::new());
        let mut res = BTreeSet::new();
        if depth > 40 {
            *all = false;
            return res;
        }
        for (x, tv, id) in &self.told {
            if ids[..] == [*id] {
                // given, or detached (again) from what was given
                let mut y = x;
                loop {
                    if y == t {
                        res.insert(bits(*tv));
                        break;
                    }
                    match y {
                        C(K::Seq, v) if !v.is_empty() => y = &v[0],
                        _ => break,
                    }
                }
            }
        }
        for (r, st) in &self.states {
            let (v, p) = match crate::s_proc::split(r) {
                Some(x) => x,
                None => continue,
            };
            let subj = C(K::Seq, v.clone());
            if subj == *t {
                for (tv, rids) in st {
                    if let Some(rest) = minus(ids, rids) {
                        for g in self.possible(&p, &rest, memo, all, depth + 1) {
                            let c = crate::s_proc::ded_goal((f64::from_bits(g.0), f64::from_bits(g.1)), (f64::from_bits(tv.0), f64::from_bits(tv.1)));
                            res.insert(bits(c));
                        }
                    }
                }
            }
            if v.first() == Some(t) {
                res.extend(self.possible(&subj, ids, memo, all, depth + 1));
            }
            if res.len() > MANY {
                *all = false;
                break;
            }
        }
        memo.insert(key, res.clone());
        res
    }
}
/// what is left of the evidence, if it holds all of b and nothing of b twice
fn minus(a: &Ids, b: &Ids) -> Option<Ids> {
    if b.is_empty() || b.len() >= a.len() {
        return None;
    }
    let mut r = a.clone();
    for x in b {
        let k = r.iter().position(|y| y == x)?;
        r.remove(k);
    }
    if r.iter().any(|x| b.contains(x)) {
        return None;
    }
    Some(r)
}
