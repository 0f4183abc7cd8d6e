//! records, at every release of a write lock of the reasoner's memory, every statement it holds, and judges each
//! new one against the reference model; never synchronises, so it does not disturb the schedule
use crate::exec::fail;
use crate::model::{self, *};
use nar20_1::NarMem::Mem;
use nar20_1::NarSentence::{EnumPunctation, Evidence, Sentence};
use nar20_1::NarWorkingCycle::{DeclarativeShared, Task};
use parking_lot::RwLock;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub const DISTINCT: u32 = 1; // evidence
pub const VALID: u32 = 2; // truth values
pub const FOLLOWS: u32 = 4; // soundness
pub const BOUNDS: u32 = 8;
pub const CARRIED: u32 = 16; // accepted work is carried out
pub const LISTS: u32 = 32; // history of the task list
pub const BELIEFS: usize = 20;

/// reads without locking: sound where no other thread can be in the middle of an update (all idle, at the release of
/// the lock which covers it, or while it is held)
pub fn peek<X: ?Sized>(l: &RwLock<X>) -> &X {
    unsafe { &*l.data_ptr() }
}
/// reads under the lock: for looks at a moment at which another thread may be in the middle of an update
pub fn locked<X, R>(l: &RwLock<X>, f: impl FnOnce(&X) -> R) -> R {
    let g = l.read();
    f(&g)
}
pub fn addr<X: ?Sized>(l: &RwLock<X>) -> usize {
    unsafe { l.raw() as *const _ as *const u8 as usize }
}
#[derive(Clone, Debug)]
pub struct Kn {
    pub t: T,
    pub tv: Tv,
    pub ids: Vec<i64>,
    pub mask: u128,
}
pub fn tv_of(s: &Sentence) -> Option<Tv> {
    match &s.evi {
        Some(Evidence::TV(t)) => Some((t.f, t.c)),
        Some(Evidence::CNT { pos, cnt }) => Some((*pos as f64 / *cnt as f64, *cnt as f64 / (*cnt as f64 + 1.0))),
        None => None,
    }
}
pub fn valid_tv(tv: Tv) -> bool {
    tv.0 >= 0.0 && tv.0 <= 1.0 && tv.1 >= 0.0 && tv.1 < 1.0
}
fn mask(ids: &[i64]) -> u128 {
    let mut m = 0u128;
    for i in ids {
        if *i < 0 || *i > 127 {
            return 0;
        }
        m |= 1 << *i;
    }
    m
}
pub struct Told {
    pub t: T,
    pub tv: Tv,
    pub id: Option<i64>,
}
pub struct Rec {
    pub on: u32,
    shared: Arc<RwLock<DeclarativeShared>>,
    mem: Arc<RwLock<Mem>>,
    sa: usize,
    ma: usize,
    pub known: Vec<Kn>,
    by_mask: BTreeMap<u128, Vec<usize>>,
    by_term: BTreeMap<T, Vec<usize>>,
    seen: BTreeSet<(T, Vec<i64>, u64, u64)>,
    pub held: BTreeSet<(T, Vec<i64>)>,
    fast: BTreeSet<u64>,
    pub told: Vec<Told>,
    inflight: bool,
    ids: BTreeMap<i64, usize>,
    /// concepts whose table was ever full
    pub full: BTreeSet<T>,
    pub task_ids: BTreeSet<i64>,
    last_list: Vec<i64>,
    pub expect_pop: bool,
    pub oblig: Vec<(T, Vec<i64>, String)>,
    /// (step, ids of the working tasks)
    pub lists: Vec<(u64, Vec<i64>)>,
    pub task_text: BTreeMap<i64, (String, Vec<i64>)>,
    pub counts: Vec<usize>,
    pub new_tasks: u64,
    pub judged: u64,
    pub scans: u64,
}
static REC: Mutex<Option<Box<Rec>>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Rec) -> R) -> R {
    let mut g = REC.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("recorder"))
}
pub fn start(nar: &nar20_1::Nar::Nar, on: u32) {
    let shared = Arc::clone(&peek(&nar.mem).shared);
    let mem = Arc::clone(&peek(&shared).mem);
    let r = Rec {
        on,
        sa: addr(&shared),
        ma: addr(&mem),
        shared,
        mem,
        known: vec![],
        by_mask: BTreeMap::new(),
        by_term: BTreeMap::new(),
        seen: BTreeSet::new(),
        held: BTreeSet::new(),
        fast: BTreeSet::new(),
        told: vec![],
        inflight: false,
        ids: BTreeMap::new(),
        full: BTreeSet::new(),
        task_ids: BTreeSet::new(),
        last_list: vec![],
        expect_pop: false,
        oblig: vec![],
        lists: vec![],
        task_text: BTreeMap::new(),
        counts: vec![],
        new_tasks: 0,
        judged: 0,
        scans: 0,
    };
    *REC.lock().unwrap() = Some(Box::new(r));
    simcore::set_observer(observer);
}
pub fn stop() {
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn observer(a: usize) {
    crate::s_goal::released(a);
    crate::s_keep::released(a);
    // never blocks: the recorder is only used by the running thread
    if let Ok(mut g) = REC.try_lock() {
        if let Some(r) = g.as_mut() {
            if a == r.sa {
                r.scan_tasks();
            } else if a == r.ma {
                r.limits();
                r.scan_mem();
            }
        }
    }
}
/// looks at everything now (no lock is released by some in-place updates)
pub fn sweep() {
    let (mem, shared) = with(|r| (Arc::clone(&r.mem), Arc::clone(&r.shared)));
    locked(&mem, |_| with(|r| r.scan_mem()));
    locked(&shared, |_| with(|r| r.scan_tasks()));
}
/// called before a judgement is entered
pub fn tell(t: T, tv: Tv) {
    with(|r| {
        r.told.push(Told { t, tv, id: None });
        r.inflight = true;
    })
}
/// after the line was entered: the evidence item it got
pub fn told_done() -> Option<i64> {
    with(|r| {
        r.inflight = false;
        r.told.last().and_then(|t| t.id)
    })
}
fn h64(a: u64, b: u64) -> u64 {
    simcore::mix(a, b)
}
impl Rec {
    /// only at the release of the memory's write lock: an update in progress may pass the limit before it trims
    fn limits(&mut self) {
        if self.on & BOUNDS == 0 {
            return;
        }
        for (n, c) in peek(&self.mem).concepts.iter() {
            let (a, b) = (c.payload.beliefsByExp.len(), c.payload.beliefsByUsage.len());
            if a > BELIEFS || b > BELIEFS {
                fail("bounds", &format!("concept {} holds {} and {} beliefs (limit 20)", model::from(n), a, b));
            }
        }
    }
    fn scan_mem(&mut self) {
        self.scans += 1;
        let mem = Arc::clone(&self.mem);
        let m = peek(&mem);
        for (name, c) in m.concepts.iter() {
            let p = &c.payload;
            let (le, lu) = (p.beliefsByExp.len(), p.beliefsByUsage.len());
            if le >= BELIEFS || lu >= BELIEFS {
                let k = model::from(name);
                self.full.insert(k);
            }
            for (w, l) in [("beliefs by expectation", &p.beliefsByExp), ("beliefs by usage", &p.beliefsByUsage)] {
                for b in l.iter() {
                    let s = peek(b);
                    self.quick(s, w, Some(name));
                }
            }
        }
        if self.on & LISTS != 0 && self.counts.last() != Some(&m.concepts.len()) {
            self.counts.push(m.concepts.len());
        }
    }
    fn scan_tasks(&mut self) {
        self.scans += 1;
        let sh = Arc::clone(&self.shared);
        let s = peek(&sh);
        let mut list = Vec::with_capacity(s.judgementTasks.len());
        for t in s.judgementTasks.iter() {
            let k = peek(t);
            list.push(k.id);
            if self.task_ids.insert(k.id) {
                self.new_tasks += 1;
                let mut ids = k.sentence.stamp.ids.clone();
                ids.sort();
                if self.on & LISTS != 0 {
                    self.task_text.insert(k.id, (model::from(&k.sentence.term).to_string(), k.sentence.stamp.ids.clone()));
                }
            }
            self.quick(&k.sentence, "working tasks", None);
        }
        if self.expect_pop && list.len() < self.last_list.len() {
            self.expect_pop = false;
            let set: BTreeSet<i64> = list.iter().cloned().collect();
            let gone: Vec<i64> = self.last_list.iter().filter(|i| !set.contains(i)).cloned().collect();
            if gone.len() == 1 && self.on & CARRIED != 0 {
                self.popped(gone[0], s);
            }
        }
        if self.on & LISTS != 0 && list != self.last_list {
            let st = simcore::with(|s| s.steps).unwrap_or(0);
            self.lists.push((st, list.clone()));
        }
        self.last_list = list;
    }
    fn popped(&mut self, id: i64, s: &DeclarativeShared) {
        let idx = peek(&s.judgementTasksByTerm);
        let mut prim: Option<Arc<RwLock<Task>>> = None;
        for v in idx.values() {
            for t in v {
                if peek(t).id == id {
                    prim = Some(Arc::clone(t));
                }
            }
        }
        let prim = match prim {
            Some(p) => p,
            None => return, // flushed from the index meanwhile
        };
        let p = &peek(&prim).sentence;
        let pt = model::from(&p.term);
        let tv = match tv_of(p) {
            Some(v) => v,
            None => return,
        };
        let mut ids = p.stamp.ids.clone();
        ids.sort();
        let pid = ids.clone();
        let mut out: Vec<(T, Vec<i64>, String)> = vec![];
        for (t, _) in model::unary(&pt, tv) {
            out.push((t, ids.clone(), format!("{} alone", pt)));
        }
        let mut qs: BTreeMap<i64, &Sentence> = BTreeMap::new();
        for st in usub(&pt) {
            if let Some(v) = idx.get(&model::to(&st)) {
                if v.len() > 45 {
                    return;
                }
                for q in v {
                    let q = peek(q);
                    qs.insert(q.id, &q.sentence);
                }
            }
        }
        if qs.len() > 250 {
            return;
        }
        for (_, q) in qs {
            let qt = model::from(&q.term);
            let qv = match tv_of(q) {
                Some(v) => v,
                None => continue,
            };
            if q.stamp.ids.iter().any(|i| pid.contains(i)) {
                continue;
            }
            let mut u = pid.clone();
            u.extend(q.stamp.ids.iter());
            u.sort();
            if u.len() > 110 {
                continue;
            }
            for (t, _) in model::binary(&pt, tv, &qt, qv) {
                out.push((t, u.clone(), format!("{} and {}", pt, qt)));
            }
        }
        for o in out {
            if complexity(&o.0) <= 64 {
                self.oblig.push(o);
            }
        }
    }
    fn quick(&mut self, s: &Sentence, place: &str, concept: Option<&nar20_1::Term::Term>) {
        let tv = tv_of(s);
        use std::hash::{Hash, Hasher};
        let mut hr = std::collections::hash_map::DefaultHasher::new();
        s.term.hash(&mut hr);
        let mut h = h64(hr.finish(), s.stamp.ids.len() as u64);
        for i in &s.stamp.ids {
            h = h64(h, *i as u64);
        }
        if let Some((f, c)) = tv {
            h = h64(h, f.to_bits());
            h = h64(h, c.to_bits());
        }
        if !self.fast.insert(h) {
            return;
        }
        self.see(s, tv, place, concept);
    }
    fn see(&mut self, s: &Sentence, tv: Option<Tv>, place: &str, concept: Option<&nar20_1::Term::Term>) {
        let t = model::from(&s.term);
        let mut ids = s.stamp.ids.clone();
        ids.sort();
        if let Some(c) = concept {
            let c = model::from(c);
            if self.on & FOLLOWS != 0 && !subterms(&t).contains(&c) {
                fail("misplaced", &format!("concept {} holds {} which does not mention it", c, t));
            }
        }
        if s.punct != EnumPunctation::JUGEMENT {
            fail("not-a-judgement", &format!("{} holds the non-judgement {}", place, t));
        }
        let tv = match tv {
            Some(v) => v,
            None => {
                if self.on & VALID != 0 {
                    fail("tv", &format!("{}: {} has no truth value", place, t));
                }
                return;
            }
        };
        if self.on & VALID != 0 && !valid_tv(tv) {
            fail("tv", &format!("{}: {} has truth value {:?}", place, t, tv));
        }
        if self.on & BOUNDS != 0 {
            if ids.len() > 120 {
                fail("bounds", &format!("{}: {} has {} evidence items", place, t, ids.len()));
            }
            if complexity(&t) > 64 {
                fail("bounds", &format!("{}: {} has complexity {}", place, t, complexity(&t)));
            }
        }
        if self.on & DISTINCT != 0 {
            let n = ids.len();
            let mut d = ids.clone();
            d.dedup();
            if d.len() != n {
                fail("evidence", &format!("{}: {} counts an evidence item twice: {:?}", place, t, s.stamp.ids));
            }
            if n == 0 {
                fail("evidence", &format!("{}: {} has no evidence", place, t));
            }
        }
        let key = (t.clone(), ids.clone(), tv.0.to_bits(), tv.1.to_bits());
        if self.seen.contains(&key) {
            return;
        }
        // first appearance of an evidence item: it belongs to the line being entered
        if self.on & (DISTINCT | FOLLOWS) != 0 {
            let fresh: Vec<i64> = ids.iter().filter(|i| !self.ids.contains_key(i)).cloned().collect();
            if !fresh.is_empty() {
                let n = self.told.len();
                let open = self.inflight && n > 0 && self.told[n - 1].id.is_none();
                let mut f2 = fresh.clone();
                f2.dedup();
                if f2.len() > 1 || !open {
                    fail("evidence-origin", &format!("{}: {} rests on evidence {:?} which no input supplied", place, t, fresh));
                }
                self.told[n - 1].id = Some(f2[0]);
                self.ids.insert(f2[0], n - 1);
                let (tt, tvv) = (self.told[n - 1].t.clone(), self.told[n - 1].tv);
                self.add(tt, tvv, vec![f2[0]]);
                if self.seen.contains(&key) {
                    return;
                }
            }
            self.justify(&t, tv, &ids, place);
        }
        self.add(t, tv, ids);
    }
    fn add(&mut self, t: T, tv: Tv, ids: Vec<i64>) {
        let m = mask(&ids);
        let i = self.known.len();
        self.seen.insert((t.clone(), ids.clone(), tv.0.to_bits(), tv.1.to_bits()));
        self.held.insert((t.clone(), ids.clone()));
        self.by_mask.entry(m).or_default().push(i);
        self.by_term.entry(t.clone()).or_default().push(i);
        self.known.push(Kn { t, tv, ids, mask: m });
    }
    /// truth values a rule gives for `t` from held statements whose evidence is exactly `m`
    fn derivable(&self, t: &T, m: u128, overlap: bool) -> Vec<Tv> {
        let mut r = vec![];
        if let Some(l) = self.by_mask.get(&m) {
            for i in l {
                let k = &self.known[*i];
                for (x, v) in model::unary(&k.t, k.tv) {
                    if x == *t {
                        r.push(v);
                    }
                }
            }
        }
        let masks: Vec<u128> = self.by_mask.keys().cloned().filter(|p| *p != 0 && *p & !m == 0 && (overlap || *p != m)).collect();
        for p in &masks {
            for q in &masks {
                if q > p || p | q != m || ((p & q != 0) != overlap) {
                    continue;
                }
                for i in &self.by_mask[p] {
                    for j in &self.by_mask[q] {
                        let (a, b) = (&self.known[*i], &self.known[*j]);
                        for (x, v) in model::binary(&a.t, a.tv, &b.t, b.tv) {
                            if x == *t {
                                r.push(v);
                            }
                        }
                    }
                }
            }
        }
        r
    }
    /// is there a derivation? (told, rule, or revision of a held statement with a held or derivable one)
    pub fn explained(&self, t: &T, tv: Tv, ids: &[i64]) -> Option<bool> {
        let m = mask(ids);
        if m == 0 || ids.len() >= 120 {
            return None;
        }
        for i in self.by_mask.get(&m).into_iter().flatten() {
            let k = &self.known[*i];
            if k.t == *t && tv_eq(k.tv, tv) {
                return Some(true);
            }
        }
        if self.derivable(t, m, false).into_iter().any(|v| tv_eq(v, tv)) {
            return Some(true);
        }
        for i in self.by_term.get(t).into_iter().flatten() {
            let y = &self.known[*i];
            if y.mask == 0 || y.mask & !m != 0 || y.mask == m {
                continue;
            }
            let rest = m & !y.mask;
            for j in self.by_mask.get(&rest).into_iter().flatten() {
                let z = &self.known[*j];
                if z.t == *t && tv_eq(f_rev(y.tv, z.tv), tv) {
                    return Some(true);
                }
            }
            if self.derivable(t, rest, false).into_iter().any(|z| tv_eq(f_rev(y.tv, z), tv)) {
                return Some(true);
            }
        }
        Some(false)
    }
    fn explained_by_overlap(&self, t: &T, ids: &[i64]) -> Option<String> {
        let m = mask(ids);
        if !self.derivable(t, m, true).is_empty() {
            return Some("a rule applied to two statements sharing evidence".into());
        }
        let l: Vec<&Kn> = self.by_term.get(t).into_iter().flatten().map(|i| &self.known[*i]).filter(|k| k.mask != 0 && k.mask & !m == 0).collect();
        for a in &l {
            for b in &l {
                if a.mask | b.mask == m && a.mask & b.mask != 0 && a.mask != m {
                    return Some("revision of two statements sharing evidence".into());
                }
            }
        }
        None
    }
    fn justify(&mut self, t: &T, tv: Tv, ids: &[i64], place: &str) {
        match self.explained(t, tv, ids) {
            None => simcore::probe("unjudged"),
            Some(true) => {
                self.judged += 1;
                simcore::probe("judged");
            }
            Some(false) => {
                if self.on & DISTINCT != 0 {
                    if ids.len() == 1 && self.told[self.ids[&ids[0]]].t != *t && self.told.iter().any(|x| x.t == *t && x.id.is_none()) {
                        fail("evidence-origin", &format!("{}: {} got the evidence item {} of another input", place, t, ids[0]));
                    }
                    if let Some(w) = self.explained_by_overlap(t, ids) {
                        fail("overlap", &format!("{}: {} {:?} with evidence {:?} comes from {}", place, t, tv, ids, w));
                    }
                }
                if self.on & FOLLOWS != 0 {
                    let other: Vec<Tv> = self.derivable(t, mask(ids), false);
                    fail(
                        "unjustified",
                        &format!("{}: {} {:?} with evidence {:?} was not told and follows by no rule from what was held (rules give {:?})", place, t, tv, ids, other),
                    );
                }
                simcore::probe("unjustified_not_judged_here");
            }
        }
    }
    /// obligations which were not met (call when the workers are idle)
    pub fn unmet(&mut self) -> Option<String> {
        let o = std::mem::take(&mut self.oblig);
        let n = o.len();
        for (t, ids, from) in o {
            if !self.held.contains(&(t.clone(), ids.clone())) {
                return Some(format!("{} with evidence {:?} follows from the selected work item ({}) but was never stored", t, ids, from));
            }
        }
        if n > 0 {
            simcore::probe("judged");
            simcore::with(|s| *s.probes.entry("derivations_expected".into()).or_insert(0) += n as u64);
        }
        None
    }
}
