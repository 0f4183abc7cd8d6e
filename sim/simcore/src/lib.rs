//! Deterministic simulator core: one process = one simulated run.
//!
//! Real OS threads are used as execution contexts, but exactly one of them is released at any
//! time; who runs next is decided here, at every intercepted synchronisation point, from a seeded
//! PRNG (or from an explicit list of picks when replaying). The simulated clock, fault draws and
//! the randomness handed to the code under test are decided here, too.
#![allow(clippy::all)]
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

pub mod net;
pub mod rw;
pub use rw::{RawMx, RawRw};

// ---------------------------------------------------------------- PRNG
/// splitmix64 based PRNG: tiny, seedable, stable across platforms
#[derive(Clone, Debug)]
pub struct Prng(pub u64);
impl Prng {
    pub fn new(seed: u64) -> Prng {
        let mut p = Prng(seed ^ 0x9E37_79B9_7F4A_7C15);
        p.next();
        p
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// true with probability ppm/1e6
    pub fn ppm(&mut self, ppm: u64) -> bool {
        self.below(1_000_000) < ppm
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut p = Prng(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
    p.next();
    p.next()
}

// ---------------------------------------------------------------- configuration
#[derive(Clone, Debug)]
pub enum Sched {
    /// at each scheduling point: with probability ppm choose uniformly among the runnable threads
    Random { seed: u64, switch_ppm: u64 },
    /// PCT: random priorities, `depth` priority change points within the first `len` decisions
    Pct { seed: u64, depth: u32, len: u64 },
    /// explicit: deviations (decision index -> thread id); otherwise continue current thread,
    /// else lowest id
    Explicit(BTreeMap<u64, u32>),
}
#[derive(Clone, Debug)]
pub enum Faults {
    /// kind -> (ppm, max count)
    Random { seed: u64, rates: BTreeMap<String, (u64, u64)> },
    /// (kind, query index) -> value
    Explicit(BTreeMap<(String, u64), u32>),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub sys_seed: u64,
    pub sched: Sched,
    pub faults: Faults,
    /// simulated nanoseconds per scheduling point
    pub tick_ns: u64,
    /// simulated nanoseconds per clock read
    pub now_ns: u64,
    pub max_steps: u64,
    pub args: Vec<String>,
}

// ---------------------------------------------------------------- state
#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    Blocked { key: u64, deadline: Option<u64> },
    Idle { deadline: u64 },
    Done,
}
struct Gate {
    open: AtomicBool,
    th: Mutex<Option<std::thread::Thread>>,
}
struct Th {
    name: String,
    st: St,
    gate: Arc<Gate>,
    why: &'static str,
    timed_out: bool,
    prio: u64,
    stalled_until: u64,
    panicked: Option<String>,
    rng: Prng,
    hash_rng: Prng,
    ignore_panic: bool,
}
#[derive(Clone, Debug)]
pub struct OutLine {
    pub step: u64,
    pub tid: usize,
    pub text: String,
}
#[derive(Clone, Debug)]
pub enum Outcome {
    /// everybody is blocked, including the scenario's main thread
    Deadlock(Vec<(usize, String, String)>),
    StepCap(String),
    /// the code under test called process::exit
    Exit(i32),
}
pub struct Sim {
    pub cfg: Cfg,
    ths: Vec<Th>,
    cur: usize,
    pub steps: u64,
    decisions: u64,
    clock: u64,
    sched_rng: Prng,
    fault_rng: Prng,
    pct_changes: Vec<u64>,
    pct_low: u64,
    pub picks: Vec<(u64, u32)>,
    pub hash: u64,
    pub switches: u64,
    fault_q: BTreeMap<String, u64>,
    pub fired: Vec<(String, u64, u32)>,
    fault_cnt: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub out: Vec<OutLine>,
    out_cap: usize,
    pub out_dropped: u64,
    finish: fn(&mut Sim, Outcome) -> !,
    faults_on: bool,
    idle_rounds: u64,
    pub panics: Vec<(usize, String, String)>,
    stdin: Stdin,
    next_key: u64,
    sched_off: bool,
}
#[derive(Default)]
struct Stdin {
    data: Vec<u8>,
    pos: usize,
    persistent_err: Option<usize>,
    reads: u64,
    eof_reads: u64,
    patient: bool,
}

static S: Mutex<Option<Box<Sim>>> = Mutex::new(None);
static KEYS: AtomicU64 = AtomicU64::new(1);
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn lock() -> MutexGuard<'static, Option<Box<Sim>>> {
    match S.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    let mut g = lock();
    g.as_mut().map(|s| f(s))
}
pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(usize::MAX)
}
/// is the calling thread a simulated thread?
pub fn in_sim() -> bool {
    tid() != usize::MAX
}
pub fn new_key() -> u64 {
    KEYS.fetch_add(1, Ordering::Relaxed)
}

// ---------------------------------------------------------------- lifecycle
/// runs `f` as simulated thread 0; returns when it returns
pub fn run_main(cfg: Cfg, finish: fn(&mut Sim, Outcome) -> !, f: impl FnOnce() + Send + 'static) {
    let (sseed, fseed) = (
        match &cfg.sched {
            Sched::Random { seed, .. } | Sched::Pct { seed, .. } => *seed,
            _ => 0,
        },
        match &cfg.faults {
            Faults::Random { seed, .. } => *seed,
            _ => 0,
        },
    );
    let mut sched_rng = Prng::new(sseed);
    let mut pct_changes = vec![];
    if let Sched::Pct { depth, len, .. } = &cfg.sched {
        for _ in 0..*depth {
            pct_changes.push(sched_rng.below((*len).max(1)));
        }
    }
    *lock() = Some(Box::new(Sim {
        cfg,
        ths: vec![],
        cur: 0,
        steps: 0,
        decisions: 0,
        clock: 1_000_000_000,
        sched_rng,
        fault_rng: Prng::new(fseed),
        pct_changes,
        pct_low: 1 << 20,
        picks: vec![],
        hash: 0xcbf29ce484222325,
        switches: 0,
        fault_q: BTreeMap::new(),
        fired: vec![],
        fault_cnt: BTreeMap::new(),
        probes: BTreeMap::new(),
        out: vec![],
        out_cap: 400_000,
        out_dropped: 0,
        finish,
        faults_on: true,
        idle_rounds: 0,
        panics: vec![],
        stdin: Stdin::default(),
        next_key: 1,
        sched_off: false,
    }));
    KEYS.store(1, Ordering::Relaxed);
    let (t, h) = spawn_inner("main".into(), false, Box::new(f));
    let _ = t;
    // release it
    with(|s| {
        s.cur = 0;
        open_gate(&s.ths[0].gate);
    });
    let _ = h.join();
}
fn open_gate(g: &Gate) {
    g.open.store(true, Ordering::Release);
    if let Some(t) = g.th.lock().unwrap().as_ref() {
        t.unpark();
    }
}
fn wait_gate(g: &Gate) {
    while !g.open.swap(false, Ordering::Acquire) {
        std::thread::park();
    }
}
fn spawn_inner(
    name: String,
    ignore_panic: bool,
    f: Box<dyn FnOnce() + Send + 'static>,
) -> (usize, std::thread::JoinHandle<()>) {
    let gate = Arc::new(Gate { open: AtomicBool::new(false), th: Mutex::new(None) });
    let id = with(|s| {
        let id = s.ths.len();
        let prio = (1 << 30) + s.sched_rng.below(1 << 30);
        let rng = Prng::new(mix(s.cfg.sys_seed, id as u64 + 1));
        let hash_rng = Prng::new(mix(s.cfg.sys_seed ^ 0x5555, id as u64 + 1));
        s.ths.push(Th {
            name,
            st: St::Runnable,
            gate: gate.clone(),
            why: "start",
            timed_out: false,
            prio,
            stalled_until: 0,
            panicked: None,
            rng,
            hash_rng,
            ignore_panic,
        });
        id
    })
    .expect("no simulation");
    let g2 = gate.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            *g2.th.lock().unwrap() = Some(std::thread::current());
            TID.with(|t| t.set(id));
            wait_gate(&g2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Err(e) = r {
                let m = panic_text(&e);
                with(|s| s.ths[id].panicked = Some(m));
            }
            finish_thread(id);
        })
        .expect("spawn");
    (id, h)
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}
/// spawn a simulated thread
pub fn spawn(name: &str, f: Box<dyn FnOnce() + Send + 'static>) -> usize {
    let (id, h) = spawn_inner(name.to_string(), false, f);
    drop(h);
    id
}
pub fn set_name(id: usize, name: &str) {
    with(|s| s.ths[id].name = name.to_string());
}
fn finish_thread(id: usize) {
    TID.with(|t| t.set(usize::MAX));
    let mut g = lock();
    let s = match g.as_mut() {
        Some(s) => s,
        None => return,
    };
    s.ths[id].st = St::Done;
    s.ths[id].why = "done";
    let jk = join_key(id);
    s.wake_key(jk);
    if id == 0 {
        // scenario is over: nobody else is scheduled any more, run_main returns
        return;
    }
    let n = s.pick(id, "exit");
    s.cur = n;
    s.switches += 1;
    let gate = s.ths[n].gate.clone();
    drop(g);
    open_gate(&gate);
}
pub fn join_key(id: usize) -> u64 {
    (1 << 60) + id as u64
}
pub fn is_done(id: usize) -> bool {
    with(|s| s.ths[id].st == St::Done).unwrap_or(true)
}
pub fn join(id: usize) {
    point("join");
    while !is_done(id) {
        block(join_key(id), "join");
    }
}
#[derive(Clone, Debug)]
pub struct ThInfo {
    pub id: usize,
    pub name: String,
    pub done: bool,
    pub panicked: Option<String>,
    pub why: String,
}
pub fn threads() -> Vec<ThInfo> {
    with(|s| {
        s.ths
            .iter()
            .enumerate()
            .map(|(id, t)| ThInfo {
                id,
                name: t.name.clone(),
                done: t.st == St::Done,
                panicked: t.panicked.clone(),
                why: t.why.to_string(),
            })
            .collect()
    })
    .unwrap_or_default()
}

// ---------------------------------------------------------------- scheduling
impl Sim {
    fn wake_key(&mut self, key: u64) -> usize {
        let mut n = 0;
        for t in self.ths.iter_mut() {
            if let St::Blocked { key: k, .. } = t.st {
                if k == key {
                    t.st = St::Runnable;
                    t.timed_out = false;
                    n += 1;
                }
            }
        }
        n
    }
    /// decide who runs next
    fn pick(&mut self, me: usize, kind: &'static str) -> usize {
        self.steps += 1;
        self.clock += self.cfg.tick_ns;
        if self.steps > self.cfg.max_steps {
            let names = self.describe();
            let f = self.finish;
            f(self, Outcome::StepCap(names));
        }
        // timers that are due
        for t in self.ths.iter_mut() {
            if let St::Blocked { deadline: Some(d), .. } = t.st {
                if d <= self.clock {
                    t.st = St::Runnable;
                    t.timed_out = true;
                }
            }
        }
        let mut run: Vec<usize>;
        loop {
            run = (0..self.ths.len()).filter(|&i| self.ths[i].st == St::Runnable).collect();
            if !run.is_empty() {
                break;
            }
            // nothing runnable: idle waiter, or jump the clock to the next timer
            let next = self
                .ths
                .iter()
                .filter_map(|t| match t.st {
                    St::Blocked { deadline: Some(d), .. } => Some(d),
                    _ => None,
                })
                .min();
            let idle = self.ths.iter().position(|t| matches!(t.st, St::Idle { .. }));
            let idle_dl = idle.map(|i| match self.ths[i].st {
                St::Idle { deadline } => deadline,
                _ => 0,
            });
            match (next, idle) {
                (Some(d), i) if i.is_none() || d <= idle_dl.unwrap() => {
                    self.clock = self.clock.max(d);
                    for t in self.ths.iter_mut() {
                        if let St::Blocked { deadline: Some(x), .. } = t.st {
                            if x <= self.clock {
                                t.st = St::Runnable;
                                t.timed_out = true;
                            }
                        }
                    }
                }
                (_, Some(i)) => {
                    self.idle_rounds += 1;
                    self.ths[i].st = St::Runnable;
                }
                (_, None) => {
                    let v = self
                        .ths
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.st != St::Done)
                        .map(|(i, t)| (i, t.name.clone(), t.why.to_string()))
                        .collect();
                    let f = self.finish;
                    f(self, Outcome::Deadlock(v));
                }
            }
        }
        // stalled threads are skipped as long as somebody else can run
        if run.len() > 1 {
            let d = self.decisions;
            let f: Vec<usize> = run.iter().cloned().filter(|&i| self.ths[i].stalled_until <= d).collect();
            if !f.is_empty() {
                run = f;
            }
        }
        let default = if run.contains(&me) { me } else { run[0] };
        let n = if run.len() == 1 {
            run[0]
        } else {
            self.decisions += 1;
            let d = self.decisions;
            let n = if self.sched_off {
                default
            } else {
                match &self.cfg.sched {
                    Sched::Random { switch_ppm, .. } => {
                        if !run.contains(&me) || self.sched_rng.ppm(*switch_ppm) {
                            run[self.sched_rng.below(run.len() as u64) as usize]
                        } else {
                            me
                        }
                    }
                    Sched::Pct { .. } => {
                        if self.pct_changes.contains(&d) {
                            self.pct_low -= 1;
                            self.ths[me].prio = self.pct_low;
                        }
                        *run.iter().max_by_key(|&&i| (self.ths[i].prio, usize::MAX - i)).unwrap()
                    }
                    Sched::Explicit(m) => match m.get(&d) {
                        Some(&t) if run.contains(&(t as usize)) => t as usize,
                        _ => default,
                    },
                }
            };
            if n != default {
                self.picks.push((d, n as u32));
            }
            n
        };
        // interleaving signature
        let mut h = self.hash;
        for b in std::iter::once(n as u64).chain(kind.bytes().map(|b| b as u64)) {
            h = (h ^ b).wrapping_mul(0x100000001b3);
        }
        self.hash = h;
        n
    }
    pub fn describe(&self) -> String {
        self.ths
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Done)
            .map(|(i, t)| format!("{}:{}:{}", i, t.name, t.why))
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn now(&self) -> u64 {
        self.clock
    }
    pub fn decisions(&self) -> u64 {
        self.decisions
    }
    pub fn n_threads(&self) -> usize {
        self.ths.len()
    }
}
fn reschedule(mut g: MutexGuard<'static, Option<Box<Sim>>>, me: usize, kind: &'static str) {
    let s = g.as_mut().unwrap();
    let n = s.pick(me, kind);
    if n == me {
        return;
    }
    s.cur = n;
    s.switches += 1;
    let go = s.ths[n].gate.clone();
    let my = s.ths[me].gate.clone();
    drop(g);
    open_gate(&go);
    wait_gate(&my);
}
/// a scheduling point: another runnable thread may be chosen
pub fn point(kind: &'static str) {
    let me = tid();
    if me == usize::MAX {
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        s.ths[me].why = kind;
        // fault: stall of the current thread (slow thread / descheduled by the OS)
        if let Some(v) = s.fault_draw("stall") {
            let d = s.decisions;
            s.ths[me].stalled_until = d + 1 + (v as u64 % 400);
        }
        if let Some(v) = s.fault_draw("clock_jump") {
            s.clock += 1_000_000 * (1 + (v as u64 % 10_000));
        }
        reschedule(g, me, kind);
    }
}
/// block until woken by `wake(key)`
pub fn block(key: u64, why: &'static str) {
    block_until(key, None, why);
}
/// returns true if it timed out
pub fn block_until(key: u64, deadline: Option<u64>, why: &'static str) -> bool {
    let me = tid();
    if me == usize::MAX {
        panic!("simulator: blocking call ({}) outside of a simulated thread", why);
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.ths[me].st = St::Blocked { key, deadline };
    s.ths[me].why = why;
    s.ths[me].timed_out = false;
    reschedule(g, me, why);
    with(|s| s.ths[me].timed_out).unwrap()
}
pub fn wake(key: u64) {
    with(|s| s.wake_key(key));
}
/// wake only one (scheduler-chosen) thread blocked on key
pub fn wake_one(key: u64) {
    with(|s| {
        let c: Vec<usize> = (0..s.ths.len())
            .filter(|&i| matches!(s.ths[i].st, St::Blocked{key:k,..} if k==key))
            .collect();
        if !c.is_empty() {
            let i = c[0];
            s.ths[i].st = St::Runnable;
            s.ths[i].timed_out = false;
        }
    });
}
/// wait until no other thread can run (timers within `max_ns` of simulated time still fire)
pub fn wait_idle(max_ns: u64) {
    let me = tid();
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let deadline = s.clock.saturating_add(max_ns);
    s.ths[me].st = St::Idle { deadline };
    s.ths[me].why = "wait_idle";
    reschedule(g, me, "wait_idle");
}
pub fn sleep_ns(ns: u64) {
    let k = new_key();
    let dl = now_raw() + ns;
    while !block_until(k, Some(dl), "sleep") {}
}
/// stop making scheduling decisions (used by the harness for inspection sections)
pub fn sched_off(off: bool) {
    with(|s| s.sched_off = off);
}

// ---------------------------------------------------------------- clock
pub fn now_raw() -> u64 {
    with(|s| s.clock).unwrap_or(0)
}
/// a clock read by the code under test
pub fn clock_read() -> u64 {
    if !in_sim() {
        return now_raw();
    }
    point("clock");
    with(|s| {
        s.clock += s.cfg.now_ns;
        s.clock
    })
    .unwrap()
}

// ---------------------------------------------------------------- faults
impl Sim {
    fn fault_draw(&mut self, kind: &str) -> Option<u32> {
        if !self.faults_on {
            return None;
        }
        match &self.cfg.faults {
            Faults::Random { rates, .. } => {
                let (ppm, max) = match rates.get(kind) {
                    Some(x) => *x,
                    None => return None,
                };
                let q = self.fault_q.entry(kind.to_string()).or_insert(0);
                *q += 1;
                let q = *q;
                if *self.fault_cnt.get(kind).unwrap_or(&0) >= max {
                    return None;
                }
                if !self.fault_rng.ppm(ppm) {
                    return None;
                }
                let v = (self.fault_rng.next() >> 33) as u32;
                *self.fault_cnt.entry(kind.to_string()).or_insert(0) += 1;
                self.fired.push((kind.to_string(), q, v));
                Some(v)
            }
            Faults::Explicit(m) => {
                if m.is_empty() {
                    return None;
                }
                let q = self.fault_q.entry(kind.to_string()).or_insert(0);
                *q += 1;
                let q = *q;
                let k = (kind.to_string(), q);
                match m.get(&k) {
                    Some(&v) => {
                        self.fired.push((k.0, q, v));
                        Some(v)
                    }
                    None => None,
                }
            }
        }
    }
}
/// should fault `kind` fire here? the value parametrises it
pub fn fault(kind: &str) -> Option<u32> {
    if !in_sim() {
        return None;
    }
    with(|s| s.fault_draw(kind)).flatten()
}
pub fn faults_enable(on: bool) {
    with(|s| s.faults_on = on);
}
/// "this rare condition was hit"
pub fn probe(name: &str) {
    with(|s| *s.probes.entry(name.to_string()).or_insert(0) += 1);
}

// ---------------------------------------------------------------- randomness for the code under test
pub fn sys_rand() -> u64 {
    let me = tid();
    with(|s| {
        if me == usize::MAX {
            return 0x1234_5678_9abc_def0;
        }
        if let Some(v) = s.fault_draw("rng_extreme") {
            return match v % 4 {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << 63,
                _ => 0x0000_0001_0000_0001,
            };
        }
        s.ths[me].rng.next()
    })
    .unwrap_or(0x0f0f_1234_5678_9abc)
}
/// seeds of hash maps etc. (getrandom)
pub fn sys_entropy() -> u64 {
    let me = tid();
    with(|s| if me == usize::MAX { 7 } else { s.ths[me].hash_rng.next() }).unwrap_or(9)
}

// ---------------------------------------------------------------- output
pub fn emit(text: String) {
    let me = tid();
    let done = with(|s| {
        if me == usize::MAX {
            return false;
        }
        if s.out.len() < s.out_cap {
            let step = s.steps;
            s.out.push(OutLine { step, tid: me, text: text.clone() });
        } else {
            s.out_dropped += 1;
        }
        true
    });
    if done != Some(true) {
        println!("{}", text);
    }
}
pub fn output_len() -> usize {
    with(|s| s.out.len()).unwrap_or(0)
}
pub fn output_from(from: usize) -> Vec<OutLine> {
    with(|s| s.out[from.min(s.out.len())..].to_vec()).unwrap_or_default()
}
pub fn output_clear() {
    with(|s| s.out.clear());
}

// ---------------------------------------------------------------- stdin
pub fn set_stdin(data: Vec<u8>, persistent_err_at: Option<usize>) {
    with(|s| s.stdin = Stdin { data, pos: 0, persistent_err: persistent_err_at, reads: 0, eof_reads: 0, patient: false });
}
/// the user enters a line only when everything has settled
pub fn stdin_patient() {
    with(|s| s.stdin.patient = true);
}
/// number of bytes the code under test has read
pub fn stdin_pos() -> usize {
    with(|s| s.stdin.pos).unwrap_or(0)
}
pub fn stdin_reads() -> u64 {
    with(|s| s.stdin.reads).unwrap_or(0)
}
/// simulated read(0): Err(kind name) / Ok(bytes)
pub fn stdin_read(max: usize) -> Result<Vec<u8>, std::io::ErrorKind> {
    point("stdin");
    if with(|s| s.stdin.patient && (s.stdin.pos == 0 || s.stdin.data[s.stdin.pos - 1] == b'\n')).unwrap_or(false) {
        wait_idle(60_000_000_000);
    }
    with(|s| {
        s.stdin.reads += 1;
        if let Some(p) = s.stdin.persistent_err {
            if s.stdin.pos >= p {
                s.stdin.eof_reads += 1;
                return Err(std::io::ErrorKind::Other);
            }
        }
        if s.fault_draw("stdin_eintr").is_some() {
            return Err(std::io::ErrorKind::Interrupted);
        }
        if s.fault_draw("stdin_eio").is_some() {
            return Err(std::io::ErrorKind::Other);
        }
        let left = s.stdin.data.len() - s.stdin.pos;
        let mut n = left.min(max);
        if s.stdin.patient {
            if let Some(e) = s.stdin.data[s.stdin.pos..].iter().position(|b| *b == b'\n') {
                n = n.min(e + 1);
            }
        }
        if n > 1 {
            if let Some(v) = s.fault_draw("stdin_short") {
                n = 1 + (v as usize % (n - 1));
            }
        }
        if n == 0 {
            s.stdin.eof_reads += 1;
        }
        let p = s.stdin.pos;
        s.stdin.pos += n;
        Ok(s.stdin.data[p..p + n].to_vec())
    })
    .unwrap()
}
pub fn stdin_eof_reads() -> u64 {
    with(|s| s.stdin.eof_reads).unwrap_or(0)
}

// ---------------------------------------------------------------- misc
pub fn args() -> Vec<String> {
    with(|s| s.cfg.args.clone()).unwrap_or_default()
}
pub fn set_args(a: Vec<String>) {
    with(|s| s.cfg.args = a);
}
/// what a call of exit() unwinds with while the harness expects it
pub struct ExitMark(pub i32);
static CATCH_EXIT: AtomicBool = AtomicBool::new(false);
pub fn catch_exit(on: bool) {
    CATCH_EXIT.store(on, std::sync::atomic::Ordering::SeqCst);
}
pub fn exit(code: i32) -> ! {
    if in_sim() && CATCH_EXIT.load(std::sync::atomic::Ordering::SeqCst) && tid() == 0 {
        std::panic::resume_unwind(Box::new(ExitMark(code)));
    }
    if in_sim() {
        with(|s| {
            let f = s.finish;
            f(s, Outcome::Exit(code));
        });
    }
    std::process::exit(code)
}
/// called by the panic hook
pub fn note_panic(msg: String, loc: String) {
    let me = tid();
    // the hook may run while the state lock is held by this very thread (simulator bug): never block
    if let Ok(mut g) = S.try_lock() {
        if let Some(s) = g.as_mut() {
            if me != usize::MAX && !s.ths[me].ignore_panic {
                s.panics.push((me, msg, loc));
            }
        }
    }
}
/// panics raised inside the given thread on purpose by the harness are not recorded
pub fn ignore_panics(on: bool) {
    let me = tid();
    with(|s| {
        if me != usize::MAX {
            s.ths[me].ignore_panic = on
        }
    });
}
pub fn try_with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    match S.try_lock() {
        Ok(mut g) => g.as_mut().map(|s| f(s)),
        Err(_) => None,
    }
}

/// oracle hook: called by the thread which is about to release a write lock, with the lock's address; it must not
/// synchronise or draw random numbers
static OBSERVER: std::sync::OnceLock<fn(usize)> = std::sync::OnceLock::new();
pub fn set_observer(f: fn(usize)) {
    let _ = OBSERVER.set(f);
}
pub fn observe(addr: usize) {
    if let Some(f) = OBSERVER.get() {
        f(addr)
    }
}

/// oracle hook: called by the sending thread at the moment a channel takes a message, with the name of the message's
/// type and a pointer to it; it must not synchronise or draw random numbers
static SENDOBS: std::sync::OnceLock<fn(&'static str, *const ())> = std::sync::OnceLock::new();
pub fn set_send_observer(f: fn(&'static str, *const ())) {
    let _ = SENDOBS.set(f);
}
pub fn observe_send(ty: &'static str, p: *const ()) {
    if let Some(f) = SENDOBS.get() {
        f(ty, p)
    }
}
