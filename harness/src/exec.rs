//! executes one run in a forked child: the code under test keeps global state and runs threads which may be
//! deadlocked at the end, so a run owns a process
use crate::json::J;
use crate::scen::Scen;
use crate::spec::*;
use simcore::{Outcome, Sim};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::OnceLock;

static FD: AtomicI32 = AtomicI32::new(-1);
static VIOL: OnceLock<Vec<&'static str>> = OnceLock::new();
static WANT_LOG: OnceLock<bool> = OnceLock::new();

/// std's HashMap keys come from here: deterministic per run
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if simcore::in_sim() {
        let mut i = 0;
        while i < len {
            let v = simcore::sys_entropy().to_le_bytes();
            for b in v {
                if i < len {
                    *buf.add(i) = b;
                    i += 1;
                }
            }
        }
        return len as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}

fn send(r: &Res) -> ! {
    let s = r.to_j().dump();
    let b = s.as_bytes();
    let fd = FD.load(Ordering::SeqCst);
    let mut o = 0;
    unsafe {
        while o < b.len() {
            let n = libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o);
            if n <= 0 {
                break;
            }
            o += n as usize;
        }
        libc::_exit(0)
    }
}
fn collect(s: &mut Sim, outcome: &str, class: &str, msg: &str) -> Res {
    let mut log = vec![];
    if *WANT_LOG.get().unwrap_or(&false) || outcome == "violation" {
        let n = s.out.len();
        let lim = if *WANT_LOG.get().unwrap_or(&false) { 4000 } else { 80 };
        for l in s.out[n.saturating_sub(lim)..].iter() {
            log.push(format!("[{} t{}] {}", l.step, l.tid, l.text));
        }
        for (t, m, l) in &s.panics {
            log.push(format!("[panic t{}] {} at {}", t, m, l));
        }
    }
    // the event log hash covers everything the code printed
    let mut h = s.hash;
    for l in &s.out {
        for b in l.text.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = simcore::mix(h, l.step ^ ((l.tid as u64) << 48));
    }
    Res {
        outcome: outcome.into(),
        class: class.into(),
        msg: msg.into(),
        steps: s.steps,
        decisions: s.decisions(),
        switches: s.switches,
        hash: h,
        sim_ns: s.now(),
        picks: if outcome == "violation" { s.picks.clone() } else { vec![] },
        fired: s.fired.clone(),
        probes: s.probes.clone(),
        log,
    }
}
/// ends the run: the property is violated
pub fn fail(class: &str, msg: &str) -> ! {
    let r = simcore::with(|s| collect(s, "violation", class, msg)).unwrap();
    send(&r)
}
pub fn inconclusive(class: &str, msg: &str) -> ! {
    let r = simcore::with(|s| collect(s, "inconclusive", class, msg)).unwrap();
    send(&r)
}
/// a panic raised in the harness itself says nothing about the code under test
fn ours(loc: &str) -> bool {
    loc.contains("harness/src") || loc.starts_with("src/s_") || ["src/model.rs", "src/rec.rs", "src/gen.rs", "src/exec.rs"].iter().any(|p| loc.starts_with(p))
}
fn classify(class: &str) -> &'static str {
    if VIOL.get().unwrap().iter().any(|c| *c == class) {
        "violation"
    } else {
        "inconclusive"
    }
}
/// judges the output of a run which is still going on when its step budget is used up: a scenario whose runs may
/// be long sets this, the run is then judged by the progress it made
static CAP: OnceLock<fn(&[simcore::OutLine], u64) -> Option<(&'static str, String)>> = OnceLock::new();
pub fn on_stepcap(f: fn(&[simcore::OutLine], u64) -> Option<(&'static str, String)>) {
    let _ = CAP.set(f);
}
fn finish(s: &mut Sim, o: Outcome) -> ! {
    if let (Outcome::StepCap(_), Some(f)) = (&o, CAP.get()) {
        let r = match f(&s.out, s.steps) {
            Some((class, msg)) => collect(s, "violation", class, &msg),
            None => {
                *s.probes.entry("cut_while_progressing".into()).or_default() += 1;
                collect(s, "ok", "", "")
            }
        };
        send(&r)
    }
    let (class, msg) = match o {
        Outcome::Deadlock(w) => (
            if s.panics.iter().any(|(t, ..)| *t != 0) && classify("panic-worker") == "violation" { "panic-worker" } else { "deadlock" },
            format!(
                "no thread can run: {}; panics: {:?}",
                w.iter().map(|(t, n, y)| format!("t{} {} waits in {}", t, n, y)).collect::<Vec<_>>().join(", "),
                s.panics
            ),
        ),
        Outcome::StepCap(d) => ("stepcap", format!("still running after {} steps: {}", s.steps, d)),
        Outcome::Exit(c) => ("exit", format!("the code under test called exit({})", c)),
    };
    let oc = classify(class);
    let r = collect(s, oc, class, &msg);
    send(&r)
}

pub struct Opts {
    pub log: bool,
    pub dir: String,
}
/// the calling process must be single threaded
pub fn run_one(sc: &'static Scen, spec: &Spec, o: &Opts) -> Res {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(p[0]);
            FD.store(p[1], Ordering::SeqCst);
            child(sc, spec.clone(), o);
        }
        libc::close(p[1]);
        let mut data: Vec<u8> = vec![];
        let mut buf = vec![0u8; 65536];
        let mut late = false;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, 180_000);
            if r < 0 {
                continue;
            }
            if r == 0 {
                late = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::wait4(pid, &mut st, 0, &mut ru);
        let t = String::from_utf8_lossy(&data).to_string();
        if let Ok(j) = J::parse(&t) {
            return Res::from_j(&j);
        }
        let mut r = Res::default();
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        r.class = if late {
            "wall"
        } else if sig == libc::SIGXCPU || sig == libc::SIGKILL {
            "cpu"
        } else {
            "crash"
        }
        .into();
        r.msg = format!("run ended without a result: signal {} status {:#x}", sig, st);
        r.outcome = if sc.viol.contains(&r.class.as_str()) { "violation" } else { "inconclusive" }.into();
        r
    }
}
unsafe fn child(sc: &'static Scen, spec: Spec, o: &Opts) -> ! {
    let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
    libc::setrlimit(libc::RLIMIT_CPU, &cpu);
    let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &mem);
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &core);
    let fsz = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 };
    libc::setrlimit(libc::RLIMIT_FSIZE, &fsz);
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
    libc::dup2(null, 0);
    libc::dup2(null, 1);
    if !o.log {
        libc::dup2(null, 2);
    }
    let _ = std::fs::create_dir_all(&o.dir);
    if std::env::set_current_dir(&o.dir).is_err() {
        libc::_exit(3);
    }
    // nothing an earlier run left behind may be seen
    if let Ok(d) = std::fs::read_dir(".") {
        for e in d.flatten() {
            let p = e.path();
            let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
        }
    }
    let _ = VIOL.set(sc.viol.to_vec());
    let _ = WANT_LOG.set(o.log);
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        simcore::note_panic(m, l);
    }));
    let f = sc.run;
    let cfg = spec.cfg();
    simcore::run_main(cfg, finish, move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&spec)));
        if let Err(e) = r {
            let m = simcore::panic_text(&e);
            let loc = simcore::with(|s| s.panics.last().map(|p| p.2.clone()).unwrap_or_default()).unwrap_or_default();
            let class = if ours(&loc) { "harness-panic" } else { "panic-main" };
            let oc = classify(class);
            let msg = format!("the input thread panicked: {} at {}", m, loc);
            let r = simcore::with(|s| collect(s, oc, class, &msg)).unwrap();
            send(&r)
        }
        let pw = simcore::threads().into_iter().find(|t| t.panicked.is_some() && t.id != 0);
        let hp = simcore::with(|s| s.panics.iter().find(|p| ours(&p.2)).cloned()).unwrap();
        if let Some(p) = hp {
            let r = simcore::with(|s| collect(s, "inconclusive", "harness-panic", &format!("{} at {}", p.1, p.2))).unwrap();
            send(&r)
        }
        let (oc, class, msg) = match pw {
            Some(t) => (
                classify("panic-worker"),
                "panic-worker",
                format!("background thread t{} {} panicked: {}", t.id, t.name, t.panicked.unwrap()),
            ),
            None => ("ok", "", String::new()),
        };
        let r = simcore::with(|s| collect(s, oc, class, &msg)).unwrap();
        send(&r)
    });
    libc::_exit(4)
}
