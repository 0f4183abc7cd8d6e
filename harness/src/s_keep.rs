//! P29 what is forgotten is worth least, what is worked on is worth most
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::{self, peek};
use crate::s_cmd::{enter, idle, new_nar, spent};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use nar20_1::NarMem::Mem;
use nar20_1::NarSentence::Sentence;
use nar20_1::NarWorkingCycle::{DeclarativeShared, Task};
use nar20_1::Term::Term;
use parking_lot::RwLock;
use simcore::Prng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

pub const SCENS: &[Scen] = &[
    Scen { prop: "P29", name: "hub", weight: 8, gen: gen_hub, run: run_keep, viol: &[] },
    Scen { prop: "P29", name: "tasks", weight: 5, gen: gen_tasks, run: run_keep, viol: &[] },
    Scen { prop: "P29", name: "relations", weight: 3, gen: gen_rels, run: run_keep, viol: &[] },
    Scen { prop: "P29", name: "used", weight: 4, gen: gen_used, run: run_used, viol: &[] },
    Scen { prop: "P29", name: "concepts", weight: 1, gen: gen_concepts, run: run_keep, viol: &[] },
    Scen { prop: "P29", name: "temporal", weight: 1, gen: gen_temporal, run: run_keep, viol: &[] },
];
const ROOM: usize = 20;
const TASKS: usize = 30;
/// tasks with less credit are dropped anyway
const DUST: f64 = 0.001;

type Bel = Arc<RwLock<Sentence>>;
#[derive(Clone)]
struct B {
    arc: Bel,
    /// expectations it had since the table was looked at
    lo: f64,
    hi: f64,
    used: (i64, i64),
}
/// how often and when last used
fn usage(s: &Sentence) -> (i64, i64) {
    let u = peek(&s.usage);
    (u.useCount as i64, u.lastUsed as i64)
}
fn useful(u: (i64, i64), now: i64) -> f64 {
    u.0 as f64 / ((now - u.1).max(0) as f64 + 1.0)
}
fn exp(s: &Sentence) -> f64 {
    rec::tv_of(s).map_or(0.0, |v| v.1 * (v.0 - 0.5) + 0.5)
}
fn make(b: &Bel) -> B {
    let s = peek(&**b);
    let e = exp(s);
    B { arc: Arc::clone(b), lo: e, hi: e, used: usage(s) }
}
type Worth = (f64, f64, f64, i64);
fn worth(t: &Task) -> Worth {
    (t.credit, t.qaCredit, t.mulCredit, t.derivTime)
}
fn credit(w: &Worth, cycle: i64) -> f64 {
    (w.0 + 0.2 * w.1) * (-0.001 * (cycle - w.3) as f64).exp() * w.2
}
struct Store {
    mem: Arc<RwLock<Mem>>,
    at: usize,
    tables: HashMap<Term, [Vec<B>; 2]>,
}
struct Keep {
    shared: Arc<RwLock<DeclarativeShared>>,
    sa: usize,
    stores: Vec<Store>,
    /// sentence -> (store, concept, table)
    places: HashMap<usize, (usize, Term, usize)>,
    tasks: Vec<Arc<RwLock<Task>>>,
    versions: HashMap<usize, (Arc<RwLock<Task>>, Vec<Worth>)>,
    main: usize,
    /// a cycle is under way
    cycling: bool,
    /// the judgement being told: statement, expectation, evidence, was in order at some moment
    telling: Option<(T, f64, i64, Option<String>)>,
    nar: *const Nar,
}
unsafe impl Send for Keep {}
static KEEP: Mutex<Option<Box<Keep>>> = Mutex::new(None);
fn with<R>(f: impl FnOnce(&mut Keep) -> R) -> R {
    let mut g = KEEP.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("keeper"))
}
/// waits for the moment at which the concepts are limited
struct Watch {
    mem: Arc<RwLock<Mem>>,
    at: usize,
    main: usize,
    n: usize,
    left: Option<BTreeMap<T, f64>>,
}
static WATCH: Mutex<Option<Watch>> = Mutex::new(None);
/// a write lock is being released
pub fn released(a: usize) {
    if let Ok(mut w) = WATCH.try_lock() {
        if let Some(w) = w.as_mut() {
            if w.at == a && w.main == simcore::tid() && peek(&w.mem).concepts.len() < w.n {
                w.n = peek(&w.mem).concepts.len();
                w.left = Some(rate(peek(&w.mem)));
            }
        }
    }
    if let Ok(mut g) = KEEP.try_lock() {
        if let Some(k) = g.as_mut() {
            if a == k.sa {
                k.tasks_changed();
            } else if let Some(i) = k.stores.iter().position(|s| s.at == a) {
                k.mem_changed(i);
            } else if let Some(p) = k.places.get(&a).cloned() {
                k.belief_changed(a, p);
            } else if k.versions.contains_key(&a) {
                k.task_changed(a);
            }
        }
    }
}
fn start(nar: &Nar) {
    let shared = Arc::clone(&peek(&nar.mem).shared);
    let mut stores = vec![];
    for mem in [Arc::clone(&peek(&shared).mem), Arc::clone(&nar.procNar.evidenceMem)] {
        stores.push(Store { at: rec::addr(&*mem), mem, tables: HashMap::new() });
    }
    let k = Keep {
        sa: rec::addr(&*shared),
        shared,
        stores,
        places: HashMap::new(),
        tasks: vec![],
        versions: HashMap::new(),
        main: simcore::tid(),
        cycling: false,
        telling: None,
        nar,
    };
    *KEEP.lock().unwrap_or_else(|e| e.into_inner()) = Some(Box::new(k));
    simcore::set_observer(rec::observer);
}
impl Keep {
    fn mem_changed(&mut self, i: usize) {
        let now = unsafe { *(*self.nar).currentTime.as_ptr() };
        let mem = Arc::clone(&self.stores[i].mem);
        let m = peek(&mem);
        for (name, c) in m.concepts.iter() {
            let lists = [&c.payload.beliefsByExp, &c.payload.beliefsByUsage];
            let old = self.stores[i].tables.get(name);
            if let Some(o) = old {
                if (0..2).all(|w| o[w].len() == lists[w].len() && o[w].iter().zip(lists[w].iter()).all(|(x, y)| Arc::ptr_eq(&x.arc, y))) {
                    continue;
                }
                for w in 0..2 {
                    if lists[w].len() >= ROOM || o[w].len() > lists[w].len() {
                        judge_table(name, &o[w], lists[w], w, now);
                    }
                }
            }
            let old = self.stores[i].tables.remove(name);
            let mut t = [vec![], vec![]];
            for w in 0..2 {
                for b in lists[w].iter() {
                    t[w].push(make(b));
                    let a = rec::addr(&**b);
                    if !self.places.contains_key(&a) {
                        self.places.insert(a, (i, name.clone(), w));
                    }
                }
                for b in old.iter().flat_map(|o| o[w].iter()) {
                    if !lists[w].iter().any(|x| Arc::ptr_eq(x, &b.arc)) {
                        self.places.remove(&rec::addr(&*b.arc));
                    }
                }
            }
            self.stores[i].tables.insert(name.clone(), t);
        }
        if i == 0 && simcore::tid() == self.main {
            self.told();
        }
    }
    fn belief_changed(&mut self, a: usize, p: (usize, Term, usize)) {
        if let Some(t) = self.stores[p.0].tables.get_mut(&p.1) {
            for b in t[p.2].iter_mut() {
                if rec::addr(&*b.arc) == a {
                    let e = exp(peek(&*b.arc));
                    b.lo = b.lo.min(e);
                    b.hi = b.hi.max(e);
                }
            }
        }
    }
    fn task_changed(&mut self, a: usize) {
        let main = simcore::tid() == self.main;
        if let Some((t, v)) = self.versions.get_mut(&a) {
            if main {
                v.clear(); // it is the one who selects
            }
            v.push(worth(peek(&**t)));
        }
    }
    fn tasks_changed(&mut self) {
        if !self.cycling || simcore::tid() != self.main {
            return;
        }
        let sh = Arc::clone(&self.shared);
        let s = peek(&sh);
        let cycle = unsafe { *s.cycleCounter.as_ptr() }; // (nothing here may synchronise)
        {
            let set: BTreeSet<usize> = s.judgementTasks.iter().map(|t| rec::addr(&**t)).collect();
            let was: BTreeSet<usize> = self.tasks.iter().map(|t| rec::addr(&**t)).collect();
            let gone: Vec<&Arc<RwLock<Task>>> = self.tasks.iter().filter(|t| !set.contains(&rec::addr(&***t))).collect();
            let val = |t: &Arc<RwLock<Task>>, f: fn(f64, f64) -> f64| {
                let now = credit(&worth(peek(&**t)), cycle);
                self.versions.get(&rec::addr(&**t)).map_or(now, |v| v.1.iter().map(|x| credit(x, cycle)).fold(now, f))
            };
            let kept: Vec<&Arc<RwLock<Task>>> = s.judgementTasks.iter().filter(|t| was.contains(&rec::addr(&***t))).collect();
            let text = |t: &Arc<RwLock<Task>>| format!("{} (credit {})", model::from(&peek(&**t).sentence.term), credit(&worth(peek(&**t)), cycle));
            let better = |g: &Arc<RwLock<Task>>| kept.iter().find(|k| val(k, f64::min) > val(g, f64::max) + 1e-9);
            if gone.len() == 1 && (cycle % 111 != 0 || better(gone[0]).is_none()) {
                if let Some(k) = better(gone[0]) {
                    fail("attention", &format!("a cycle took up {} although {} was waiting", text(gone[0]), text(k)));
                }
                simcore::probe("judged");
                if !kept.is_empty() {
                    simcore::probe("task_selected");
                }
            } else if !gone.is_empty() && cycle % 111 == 0 {
                for g in &gone {
                    if val(g, f64::min) <= DUST + 1e-9 {
                        continue;
                    }
                    if s.judgementTasks.len() < TASKS {
                        fail("room", &format!("the working task {} was forgotten although only {} were kept", text(g), s.judgementTasks.len()));
                    }
                    if let Some(k) = kept.iter().find(|k| val(k, f64::max) + 1e-9 < val(g, f64::min)) {
                        fail("worth", &format!("the working task {} was forgotten but {} was kept", text(g), text(k)));
                    }
                    simcore::probe("task_forgotten");
                }
                simcore::probe("judged");
            } else if gone.len() > 1 {
                fail("room", &format!("a cycle removed {} working tasks at once", gone.len()));
            }
        }
        self.look();
    }
    fn look(&mut self) {
        self.tasks = peek(&self.shared).judgementTasks.clone();
        self.versions = self.tasks.iter().map(|t| (rec::addr(&**t), (Arc::clone(t), vec![]))).collect();
    }
    fn told(&mut self) {
        let (t, e, id) = match &self.telling {
            Some((t, e, id, Some(_))) => (t.clone(), *e, *id),
            _ => return,
        };
        let mut why = None;
        for c in usub(&t) {
            let name = model::to(&c);
            match self.stores[0].tables.get(&name) {
                None => why = Some(format!("there is no concept {}", c)),
                Some(l) => {
                    let has = l[0].iter().any(|b| peek(&*b.arc).stamp.ids.contains(&id) && model::from(&peek(&*b.arc).term) == t);
                    if !has && l[0].len() < ROOM {
                        why = Some(format!("concept {} has room for it", c));
                    }
                    if !has {
                        if let Some(b) = l[0].iter().find(|b| b.hi + 1e-9 < e) {
                            why = Some(format!("concept {} keeps {} (expectation {}) instead", c, model::from(&peek(&*b.arc).term), exp(peek(&*b.arc))));
                        }
                    }
                }
            }
        }
        self.telling.as_mut().unwrap().3 = why;
    }
}
fn judge_table(name: &Term, old: &[B], now: &[Bel], which: usize, time: i64) {
    for g in old {
        if now.iter().any(|x| Arc::ptr_eq(x, &g.arc)) {
            continue;
        }
        let s = peek(&*g.arc);
        let t = model::from(&s.term);
        // (or replaced by one which includes it)
        if now.iter().any(|x| {
            let y = peek(&**x);
            y.term == s.term && s.stamp.ids.iter().all(|i| y.stamp.ids.contains(i))
        }) {
            continue;
        }
        let what = ["by expectation", "by usage"][which];
        if now.len() < ROOM {
            fail("room", &format!("concept {} ({}) gave up {} although it holds only {} beliefs", model::from(name), what, t, now.len()));
        }
        for k in now {
            let ks = peek(&**k);
            let o = old.iter().find(|o| Arc::ptr_eq(&o.arc, k));
            if which == 0 {
                let lo = g.lo.min(exp(s));
                let hi = o.map_or(exp(ks), |o| o.hi.max(exp(ks)));
                if lo > hi + 1e-9 {
                    fail("worth", &format!("concept {} gave up {} (expectation {}) but kept {} (expectation {})", model::from(name), t, lo, model::from(&ks.term), hi));
                }
            } else {
                // (at which time it was compared is not known)
                let u = usage(ks);
                if (0..=time.max(0)).all(|x| useful(g.used, x) > useful(u, x) + 1e-9) {
                    fail("worth", &format!("concept {} gave up {} (used {} times, last at {}) but kept {} (used {} times, last at {})", model::from(name), t, g.used.0, g.used.1, model::from(&ks.term), u.0, u.1));
                }
            }
        }
        simcore::probe(["belief_forgotten", "unused_forgotten"][which]);
        simcore::probe("judged");
    }
}

// ---- limits of the number of concepts
fn rate(m: &Mem) -> BTreeMap<T, f64> {
    m.concepts.iter().map(|(n, c)| (model::from(n), c.payload.beliefsByExp.iter().map(|b| exp(peek(b))).fold(0.0, f64::max))).collect()
}
/// enters a line at which the concepts may be limited
fn limiting(nar: &mut Nar, mem: &Arc<RwLock<Mem>>, l: &str, limit: usize) {
    idle();
    let before = rec::locked(mem, rate);
    *WATCH.lock().unwrap() = Some(Watch { mem: Arc::clone(mem), at: rec::addr(&**mem), main: simcore::tid(), n: before.len(), left: None });
    simcore::set_observer(rec::observer);
    enter(nar, l);
    let w = WATCH.lock().unwrap().take();
    simcore::probe("judged");
    if let Some(after) = w.and_then(|w| w.left) {
        judge_concepts(&before, &after, limit);
    }
}
fn judge_concepts(before: &BTreeMap<T, f64>, after: &BTreeMap<T, f64>, limit: usize) {
    let gone: Vec<(&T, f64)> = before.iter().filter(|x| !after.contains_key(x.0)).map(|(t, v)| (t, *v)).collect();
    if gone.is_empty() {
        return;
    }
    simcore::probe("concept_forgotten");
    let kept: Vec<(&T, f64)> = before.iter().filter_map(|(t, v)| after.get(t).map(|w| (t, v.max(*w)))).collect();
    if after.len() < limit {
        fail("room", &format!("{} of {} concepts were forgotten, e.g. {}, and only {} are left", gone.len(), before.len(), gone[0].0, after.len()));
    }
    let best = gone.iter().max_by(|a, b| a.1.total_cmp(&b.1)).unwrap();
    let worst = kept.iter().min_by(|a, b| a.1.total_cmp(&b.1));
    if let Some(w) = worst {
        if best.1 > w.1 + 1e-9 {
            fail("worth", &format!("the concept {} (best belief {}) was forgotten but {} (best belief {}) was kept", best.0, best.1, w.0, w.1));
        }
    }
}

// ---- scenarios
fn tv(r: &mut Prng) -> String {
    match r.below(4) {
        0 => String::new(),
        1 => format!(" {{{} 0.{}}}", r.below(2), 1 + r.below(9)),
        _ => format!(" {{0.{} 0.{}}}", r.below(10), 1 + r.below(9)),
    }
}
/// many statements about few things
fn gen_hub(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 3_000_000;
    let hubs = 1 + r.below(3);
    let n = 18 + r.below(if tier == Tier::Quick { 40 } else { 90 });
    let slow = r.below(3) == 0;
    for i in 0..n {
        let h = format!("h{}", r.below(hubs));
        let o = if r.below(6) == 0 { format!("o{}", r.below(n)) } else { format!("o{}", i) };
        let s = match r.below(10) {
            0..=3 => format!("<{} --> {}>", o, h),
            4..=6 => format!("<{} --> {}>", h, o),
            7 => format!("<{} <-> {}>", h, o),
            8 => format!("<{{{}}} --> [{}]>", h, o),
            _ => format!("<<{} --> z> ==> <{} --> z>>", h, o),
        };
        sp.ops.push(format!("{}.{}", s, tv(r)));
        match r.below(if slow { 3 } else { 9 }) {
            0 => sp.ops.push(format!("!s{}", 1 + r.below(3))),
            1 if r.below(4) == 0 => sp.ops.push("@idle".into()),
            2 if r.below(6) == 0 => sp.ops.push(format!("<?q --> h{}>?", r.below(hubs))),
            _ => {}
        }
    }
    sp.ops.push(format!("!s{}", 4 + r.below(12)));
    let _ = rates;
}
fn gen_tasks(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 6_000_000;
    let mut v = vec![];
    {
        let mut g = G::new(r);
        let n = 5 + g.r.below(30);
        for _ in 0..n {
            v.push(g.judgement());
        }
        for i in 0..15 + g.r.below(60) {
            v.push(match g.r.below(5) {
                0 => format!("<(u{}*v{}) --> w{}>.", i, i, g.r.below(40)),
                1 => format!("<<u{} --> a> ==> <u{} --> b>>.", i, i),
                _ => format!("<u{} --> w{}>.", i, g.r.below(40)),
            });
        }
        for i in 0..v.len() {
            let j = g.r.below(v.len() as u64) as usize;
            v.swap(i, j);
        }
        let mut w = vec![];
        for l in v {
            w.push(l);
            match g.r.below(24) {
                0..=3 => w.push(format!("!s{}", 1 + g.r.below(2))),
                4 => {
                    let q = g.question();
                    w.push(q)
                }
                _ => {}
            }
        }
        v = w;
    }
    if r.below(2) == 0 {
        v.push("@until111".into());
    } else {
        v.push(format!("!s{}", 5 + r.below(20)));
    }
    sp.ops = v;
}
/// many relations about the same things
fn gen_rels(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, tier: Tier) {
    sp.max_steps = 4_000_000;
    sp.ops.push("!por NOP ^x".into());
    sp.ops.push("!por NOP ^y".into());
    sp.ops.push(format!("!peb {}", r.below(2)));
    let n = 30 + r.below(if tier == Tier::Quick { 60 } else { 200 });
    for i in 0..n {
        sp.ops.push(match r.below(10) {
            0..=2 => format!("<(c{},<{{({{SELF}}*k{})}} --> ^x>) =/> g>.", i, r.below(3)),
            3 | 4 => format!("{}. :|:", ["a", "b", "g"][r.below(3) as usize]),
            5 => "<{({SELF}*k)} --> ^x>. :|:".into(),
            6 => "<{({SELF}*k)} --> ^y>. :|:".into(),
            _ => "!sp".into(),
        });
    }
}
fn gen_concepts(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 20_000_000;
    sp.knobs.insert("bulk".into(), 1050 + r.below(400) as i64);
    sp.knobs.insert("salt".into(), r.below(1000) as i64);
    sp.ops = vec!["@bulk".into(), "!dtf".into(), "!s172".into(), "@limit".into()];
    sp.sched = crate::spec::SchedS::Random(r.next(), 3_000);
}
fn gen_temporal(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 10_000_000;
    sp.ops = vec!["!por NOP ^x".into(), "!peb 0".into()];
    for i in 0..6 + r.below(8) {
        for l in [format!("s{}. :|:", i), "!sp".into(), format!("<{{({{SELF}}*k{})}} --> ^x>. :|:", i), "!sp".into(), format!("t{}. :|:", i), "!sp".into(), "!sp".into()] {
            sp.ops.push(l);
        }
    }
    let at = r.below(sp.ops.len() as u64 - 2) as usize + 2;
    sp.ops.insert(at, "@fill".into());
    sp.knobs.insert("fill".into(), 300 + r.below(300) as i64);
    sp.ops.push("@steps".into());
    sp.sched = crate::spec::SchedS::Random(r.next(), 3_000);
}
fn cycle_of(nar: &Nar) -> i64 {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    peek(&sh).cycleCounter.load(Ordering::SeqCst)
}
fn tell(nar: &mut Nar, l: &str, x: &Line) {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let id = peek(&sh).stampIdCounter.load(Ordering::SeqCst);
    let name = model::to(&x.t);
    let mem = Arc::clone(&peek(&sh).mem);
    // (a statement held anywhere is pooled with it instead)
    let known = rec::locked(&mem, |m| usub(&x.t).iter().any(|c| m.concepts.get(&model::to(c)).map_or(false, |c| c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()).any(|b| *peek(&**b).term == name))));
    if !known {
        with(|k| k.telling = Some((x.t.clone(), x.tv.1 * (x.tv.0 - 0.5) + 0.5, id, Some("it was not stored".into()))));
    }
    enter(nar, l);
    if let Some((t, e, _, Some(w))) = with(|k| k.telling.take()) {
        // (unless a worker's conclusion about the same came in between)
        if !pooled(&mem, &t, id) {
            fail("refused", &format!("{} (expectation {}) was told but isn't kept: {}", t, e, w));
        }
    }
    simcore::probe("judged");
}
fn pooled(mem: &Arc<RwLock<Mem>>, t: &T, id: i64) -> bool {
    let name = model::to(t);
    rec::locked(mem, |m| usub(t).iter().any(|c| m.concepts.get(&model::to(c)).map_or(false, |c| c.payload.beliefsByExp.iter().any(|b| *peek(&**b).term == name && peek(&**b).stamp.ids.len() > 1 && peek(&**b).stamp.ids.contains(&id)))))
}
fn run_keep(sp: &Spec) {
    let mut nar = new_nar();
    let big = sp.ops.iter().any(|l| l == "@bulk" || l == "@fill");
    if !big {
        start(&nar);
    }
    let nar_mem = Arc::clone(&nar.mem);
    let cycling = |on: bool| {
        if !big {
            let sh = Arc::clone(&peek(&nar_mem).shared);
            rec::locked(&sh, |_| with(|k| {
                k.cycling = on;
                k.look();
            }))
        }
    };
    for l in &sp.ops {
        if spent() {
            break;
        }
        match l.as_str() {
            "@idle" => idle(),
            "@until111" => {
                for _ in 0..111 {
                    cycling(true);
                    enter(&mut nar, "!s");
                    cycling(false);
                    if cycle_of(&nar) % 111 == 0 || spent() {
                        break;
                    }
                }
            }
            "@bulk" => {
                for k in 0..sp.knob("bulk") {
                    let c = 1 + (k * 7 + sp.knob("salt")) * 31 % 97;
                    enter(&mut nar, &format!("<k{} --> l{}>. {{0.{} 0.{:02}}}", k - (k % 5 == 4) as i64, k, (k * 13 + sp.knob("salt")) % 10, c));
                }
            }
            "@limit" => {
                let mem = Arc::clone(&peek(&peek(&nar.mem).shared).mem);
                limiting(&mut nar, &mem, "!s", 3000);
            }
            "@fill" => {
                for k in 0..sp.knob("fill") {
                    enter(&mut nar, &format!("<(c{},<{{({{SELF}}*a)}} --> ^x>) =/> d{}>.", k, k));
                }
            }
            "@steps" => {
                for _ in 0..102 {
                    let t = nar.procNar.t;
                    let limit = (t + 1) % 101 == 0 || t % 101 == 0 || t % 101 == 1;
                    if !limit {
                        enter(&mut nar, "!sp");
                        continue;
                    }
                    let mem = Arc::clone(&nar.procNar.evidenceMem);
                    limiting(&mut nar, &mem, "!sp", 1000);
                }
            }
            x => {
                let p = model::parse_line(x);
                match p {
                    Some(p) if !big && !p.event && p.punct == '.' && complexity(&p.t) <= 64 && !matches!(p.t, T::S(Cop::Pred, ..)) => tell(&mut nar, x, &p),
                    _ => {
                        let c = x.starts_with("!s") && x != "!sp";
                        if c {
                            cycling(true);
                        }
                        enter(&mut nar, x);
                        if c {
                            cycling(false);
                        }
                    }
                }
            }
        }
    }
    cycling(false);
    *KEEP.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

/// judgements which combine, worked on cycle by cycle
fn gen_used(r: &mut Prng, sp: &mut Spec, _rates: &mut Rates, _tier: Tier) {
    sp.max_steps = 3_000_000;
    let mut g = G::new(r);
    let n = 3 + g.r.below(10);
    let mut v = vec![];
    for i in 0..n {
        v.push(match g.r.below(4) {
            0 => format!("<h --> u{}>.", i),
            1 => format!("<u{} --> u{}>.", g.r.below(n), i),
            2 => format!("(!<(u{}*h) --> u{}>).{}", i, g.r.below(n), tv(g.r)),
            _ => g.judgement(),
        });
        match g.r.below(6) {
            0 => v.push(g.question()),
            1 => v.push("@cycle".into()),
            _ => {}
        }
    }
    for _ in 0..8 + g.r.below(30) {
        v.push("@cycle".into());
    }
    sp.ops = v;
}
struct U {
    t: T,
    used: (i64, i64),
    mul: f64,
    /// the belief which was told
    belief: Option<Bel>,
}
fn run_used(sp: &Spec) {
    let mut nar = new_nar();
    let mut told: BTreeSet<i64> = BTreeSet::new();
    for l in &sp.ops {
        if spent() {
            break;
        }
        if l == "@cycle" {
            use_cycle(&mut nar, &told);
            continue;
        }
        let sh = Arc::clone(&peek(&nar.mem).shared);
        let id = peek(&sh).stampIdCounter.load(Ordering::SeqCst);
        enter(&mut nar, l);
        if model::parse_line(l).map_or(false, |x| crate::s_decl::is_told(&x)) {
            told.insert(id);
        }
    }
}
/// the tasks which are pending and those which can be found by term
fn used_now(nar: &Nar, told: &BTreeSet<i64>) -> (BTreeSet<i64>, BTreeMap<i64, U>, BTreeMap<T, Vec<i64>>) {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    let m = peek(&s.mem);
    let mut all = BTreeMap::new();
    let mut by = BTreeMap::new();
    for (k, v) in peek(&s.judgementTasksByTerm).iter() {
        let mut ids = vec![];
        for x in v {
            let x = peek(x);
            ids.push(x.id);
            all.entry(x.id).or_insert_with(|| {
                let t = model::from(&x.sentence.term);
                let i = &x.sentence.stamp.ids;
                let belief = if i.len() == 1 && told.contains(&i[0]) {
                    m.concepts.get(&*x.sentence.term).and_then(|c| c.payload.beliefsByUsage.iter().find(|b| peek(&***b).term == x.sentence.term && peek(&***b).stamp.ids == *i).cloned())
                } else {
                    None
                };
                U { t, used: usage(&x.sentence), mul: x.mulCredit, belief }
            });
        }
        by.insert(model::from(k), ids);
    }
    (s.judgementTasks.iter().map(|k| peek(k).id).collect(), all, by)
}
fn use_cycle(nar: &mut Nar, told: &BTreeSet<i64>) {
    idle();
    let (wait, before, by) = used_now(nar, told);
    let c0 = cycle_of(nar);
    if c0 % 111 == 110 {
        return;
    }
    let t0 = nar.currentTime.load(Ordering::SeqCst);
    enter(nar, "!s");
    idle();
    let t1 = nar.currentTime.load(Ordering::SeqCst);
    let (wait1, after, _) = used_now(nar, told);
    let taken: Vec<i64> = wait.difference(&wait1).cloned().collect();
    if cycle_of(nar) != c0 + 1 || taken.len() != 1 || before.len() >= 300 {
        return;
    }
    let x = taken[0];
    let main = match before.get(&x) {
        Some(m) => m,
        None => return,
    };
    let mut partners: BTreeSet<i64> = BTreeSet::new();
    let mut perhaps: BTreeSet<i64> = BTreeSet::new();
    for c in usub(&main.t) {
        for (i, p) in by.get(&c).into_iter().flatten().enumerate() {
            perhaps.insert(*p);
            if i < 50 {
                partners.insert(*p);
            }
        }
    }
    partners.insert(x);
    perhaps.insert(x);
    for (id, u) in &before {
        let n = match after.get(id) {
            Some(n) => n,
            None => continue,
        };
        if partners.contains(id) {
            if n.used.0 <= u.used.0 || n.used.1 < t0 || n.used.1 > t1 {
                fail("unused", &format!("{} was used together with {} at {}..{}, but its use count went from {:?} to {:?}", u.t, main.t, t0, t1, u.used, n.used));
            }
            simcore::probe("use_counted");
            if let (Some(b), true) = (&u.belief, n.belief.is_some()) {
                let k = usage(peek(&**b));
                if k.0 < n.used.0 || k.1 < n.used.1 {
                    fail("unused", &format!("{} was used {} times until {}, but the belief knows of {:?}", u.t, n.used.0, n.used.1, k));
                }
                simcore::probe("belief_use_counted");
            }
        } else if !perhaps.contains(id) && n.used != u.used {
            fail("unused", &format!("{} was not used together with {}, but its use count went from {:?} to {:?}", u.t, main.t, u.used, n.used));
        }
    }
    for (id, n) in &after {
        if !before.contains_key(id) && n.mul > main.mul + 1e-9 {
            fail("attention", &format!("{} was derived from {} with attention {}, but got {}", n.t, main.t, main.mul, n.mul));
        }
        if !before.contains_key(id) && main.mul < 0.9 {
            simcore::probe("attention_inherited");
        }
    }
    simcore::probe("judged");
}
