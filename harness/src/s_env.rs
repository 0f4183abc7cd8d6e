//! P21 the bundled environments run to completion and keep their own rules
use crate::exec::fail;
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use simcore::Prng;

const V: &[&str] = &["stepcap", "deadlock", "cpu", "panic-main", "panic-worker", "exit", "crash"];
pub const SCENS: &[Scen] = &[
    Scen { prop: "P21", name: "pong", weight: 3, gen: gen_long, run: run_pong, viol: V },
    Scen { prop: "P21", name: "chaos", weight: 2, gen: gen_long, run: run_chaos, viol: V },
    Scen { prop: "P21", name: "tictactoe", weight: 4, gen: gen_ttt, run: run_ttt, viol: V },
    Scen { prop: "P21", name: "benchmark", weight: 3, gen: gen_eval, run: run_eval, viol: V },
];
fn gen_long(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, t: Tier) {
    faults(r, rates);
    sp.max_steps = if t == Tier::Quick { 10_000_000 } else { 100_000_000 };
}
fn faults(r: &mut Prng, rates: &mut Rates) {
    if r.below(3) == 0 {
        rates.insert("rng_extreme".into(), (500 + r.below(5_000), 200));
    }
    if r.below(3) == 0 {
        rates.insert("clock_jump".into(), (200, 20));
    }
    if r.below(2) == 0 {
        rates.insert("stall".into(), (200 + r.below(2000), 100));
    }
}
fn gen_ttt(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, t: Tier) {
    sp.max_steps = if t == Tier::Quick { 10_000_000 } else { 100_000_000 };
    sp.knobs.insert("games".into(), r.below(if t == Tier::Quick { 4 } else { 20 }) as i64);
    faults(r, rates);
}
/// what the main thread printed
fn printed(from: usize) -> Vec<String> {
    let me = simcore::tid();
    simcore::output_from(from).into_iter().filter(|o| o.tid as usize == me).flat_map(|o| o.text.split('\n').map(|s| s.to_string()).collect::<Vec<_>>()).collect()
}
fn num(l: &str, key: &str) -> Option<i64> {
    let i = l.find(key)? + key.len();
    let t: String = l[i..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
    t.parse().ok()
}
/// long runs are cut: the world has to be right and to go on in the last third of the budget
fn progress(out: &[simcore::OutLine], steps: u64, mark: &str) -> bool {
    out.iter().rev().take_while(|l| l.step * 3 > steps * 2).any(|l| l.tid == 0 && l.text.contains(mark))
}
fn lines(out: &[simcore::OutLine]) -> Vec<String> {
    out.iter().filter(|o| o.tid == 0).flat_map(|o| o.text.split('\n').map(|s| s.to_string()).collect::<Vec<_>>()).collect()
}
fn cap_pong(out: &[simcore::OutLine], steps: u64) -> Option<(&'static str, String)> {
    if let Err(e) = pong(&lines(out), None) {
        return Some(e);
    }
    if !progress(out, steps, "PONG ") {
        return Some(("stuck", "the world stands still".into()));
    }
    None
}
fn run_pong(_: &Spec) {
    crate::exec::on_stepcap(cap_pong);
    let from = simcore::output_len();
    let ratio = nar20_1::Reasoner1Entry::reasoner1Entry();
    simcore::faults_enable(false);
    match pong(&printed(from), Some(ratio)) {
        Err((c, m)) => fail(c, &m),
        Ok((hits, misses)) => {
            simcore::probe("judged");
            simcore::probe("complete");
            if hits > 0 && misses > 0 {
                simcore::probe("hit_and_miss");
            }
        }
    }
}
/// the ball of the reference world; what was drawn at random is known only as far as it showed
struct Ball {
    x: i64,
    vx: Option<i64>,
    y: (i64, i64),
    vy: i64,
}
/// a model of the world follows the printed history; ratio: the run has ended
fn pong(out: &[String], ratio: Option<f64>) -> Result<(i64, i64), (&'static str, String)> {
    let (mut bat, mut vx) = (20i64, 0i64);
    let mut ball = Ball { x: 25, vx: Some(1), y: (4, 4), vy: 1 };
    let (mut hits, mut misses, mut t) = (0i64, 0i64, 0i64);
    let (mut hit, mut respawn) = (None, false);
    let mut spawned = false; // the place of the ball is not known yet
    let mut done = false;
    let mut score = None;
    for l in out {
        if l == "CALL ^L" {
            vx = 1;
        } else if l == "CALL ^R" {
            vx = -1;
        } else if l == "env: good" {
            hits += 1;
            hit = Some(true);
        } else if l == "env: bad" {
            misses += 1;
            hit = Some(false);
        } else if l == "env: respawn ball" {
            respawn = true;
        } else if l.starts_with("PONG ") {
            t += 1;
            if (num(l, "Hits="), num(l, "misses="), num(l, "time=")) != (Some(hits), Some(misses), Some(t)) {
                return Err(("world", format!("score line {:?} at step {}, counted hits {} misses {}", l, t, hits, misses)));
            }
            // walls, then the move
            if ball.x <= 0 {
                ball.vx = Some(1);
            }
            if ball.x >= 49 {
                ball.vx = Some(-1);
            }
            if ball.y.1 >= 19 {
                ball.vy = -1;
            }
            let xs: Vec<i64> = match (t % 2 == 1, ball.vx) {
                (false, _) => vec![ball.x],
                (true, Some(v)) => vec![ball.x + v],
                (true, None) => vec![ball.x - 1, ball.x + 1],
            };
            ball.y = (ball.y.0 + ball.vy, ball.y.1 + ball.vy);
            let at = format!("step {}: ball at {:?} (height {:?}), bat at {}", t, xs, ball.y, bat);
            match hit {
                Some(_) if ball.y.0 > 0 => return Err(("world", format!("a hit or miss was counted with the ball in the air; {}", at))),
                None if ball.y.1 <= 0 => return Err(("world", format!("neither hit nor miss was counted with the ball on the ground; {}", at))),
                Some(h) if !spawned && !xs.iter().any(|x| ((x - bat).abs() <= 6) == h) => return Err(("world", format!("a {} was counted; {}", if h { "hit" } else { "miss" }, at))),
                _ => {}
            }
            if hit.is_none() {
                ball.y.0 = ball.y.0.max(1);
            }
            if !spawned && !xs.iter().any(|x| (hit.is_some() || *x <= 0 || *x >= 49) == respawn) {
                return Err(("world", format!("the ball was {}put back into play; {}", if respawn { "" } else { "not " }, at)));
            }
            if respawn {
                ball = Ball { x: 25, vx: None, y: (10, 19), vy: -1 };
                spawned = true;
            } else if xs.len() == 1 {
                ball.x = xs[0];
            }
            hit = None;
            respawn = false;
            bat = 12.max(55.min(bat + vx * 3));
        } else if l.contains(" ballX=") {
            let (b, p, d) = match (num(l, "ballX="), num(l, "batX="), num(l, "diff=")) {
                (Some(b), Some(p), Some(d)) => (b, p, d),
                _ => continue,
            };
            if !(0..50).contains(&b) || d != b - p {
                return Err(("world", format!("step {}: {:?} is no state of the world", t, l)));
            }
            if p != bat {
                return Err(("world", format!("step {}: the bat is at {}, it has to be at {} after the last operation", t, p, bat)));
            }
            if spawned {
                ball.x = b;
                spawned = false;
            } else if t % 2 == 1 && ball.vx.is_none() && (b - ball.x).abs() == 1 {
                ball.vx = Some(b - ball.x);
                ball.x = b;
            } else if b != ball.x {
                return Err(("world", format!("step {}: the ball is at {}, it has to be at {}", t, b, ball.x)));
            }
            let want = if d.abs() <= 6 { "0-1-xc" } else if d < 0 { "0-1-xl" } else { "0-1-xr" };
            let name = l.split(' ').next().unwrap_or("");
            if name.starts_with("0-1-x") && name != want {
                return Err(("world", format!("step {}: perceived {} but the world is {:?}", t, name, l)));
            }
        } else if l.starts_with("[i] env hits=") {
            score = Some((num(l, "hits="), num(l, "misses=")));
        } else if l == "[d] reasoner: DONE!" {
            done = true;
        }
    }
    let ratio = match ratio {
        Some(r) => r,
        None => return Ok((hits, misses)),
    };
    if t < 5000 || !done {
        return Err(("incomplete", format!("the environment ended after {} steps, completion reported: {}", t, done)));
    }
    if score != Some((Some(hits), Some(misses))) {
        return Err(("world", format!("final score {:?}, counted {} {}", score, hits, misses)));
    }
    if hits + misses > 0 && (ratio - hits as f64 / (hits + misses) as f64).abs() > 1e-9 {
        return Err(("world", format!("reported ratio {} with {} hits and {} misses", ratio, hits, misses)));
    }
    Ok((hits, misses))
}
fn cap_chaos(out: &[simcore::OutLine], steps: u64) -> Option<(&'static str, String)> {
    if !progress(out, steps, "CALL ") && steps >= 10_000_000 {
        return Some(("stuck", "no operation was called any more".into()));
    }
    None
}
fn run_chaos(_: &Spec) {
    crate::exec::on_stepcap(cap_chaos);
    let from = simcore::output_len();
    nar20_1::ProcChaosEntry::procChaosEntry();
    simcore::faults_enable(false);
    let out = printed(from);
    if !out.iter().any(|l| l == "[d] reasoner: DONE!") {
        fail("incomplete", "the environment did not report completion");
    }
    // limited to 1000 every 101 steps
    match out.iter().rev().find_map(|l| num(l, "nConcepts=")) {
        Some(n) if n > 0 && n <= 1000 + 101 * 25 => simcore::probe("judged"),
        n => fail("world", &format!("number of concepts after the run: {:?}", n)),
    }
}
fn winner(f: &[char]) -> Option<char> {
    const L: [[usize; 3]; 8] = [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]];
    L.iter().find(|l| f[l[0]] != ' ' && f[l[0]] == f[l[1]] && f[l[1]] == f[l[2]]).map(|l| f[l[0]])
}
pub fn cap_ttt(out: &[simcore::OutLine], steps: u64) -> Option<(&'static str, String)> {
    if let Err(e) = ttt(&lines(out)) {
        return Some(e);
    }
    if !progress(out, steps, "Gamestate") {
        return Some(("stuck", "no move is made any more".into()));
    }
    None
}
/// returns the number of finished games
pub fn ttt(out: &[String]) -> Result<i64, (&'static str, String)> {
    let mut field = vec![' '; 9];
    let mut player = true;
    let mut games = 0i64;
    let (mut wins, mut losses) = (0i64, 0i64);
    let mut last: Option<char> = None; // winner of the game just reported
    let mut call: Option<usize> = None; // the latest move the reasoner decided for, not yet made
    let mut seen = false; // the field was shown to the reasoner since the last move
    let mut pending: Option<Option<char>> = None; // the game has ended: winner or draw to be reported
    for (i, l) in out.iter().enumerate() {
        if l.starts_with("Gamestate {") {
            if let Some(w) = pending {
                return Err(("world", format!("the game went on after it was decided ({:?}): {}", w, l)));
            }
            let f: Vec<char> = l.split('[').nth(1).unwrap_or("").split(']').next().unwrap_or("").split('\'').skip(1).step_by(2).map(|s| s.chars().next().unwrap_or('?')).collect();
            let p = l.contains("player: true");
            let mark = if player { 'a' } else { 'b' };
            let diff: Vec<usize> = (0..9).filter(|i| f.get(*i) != field.get(*i)).collect();
            if f.len() != 9 || p != player || diff.len() != 1 || field[diff[0]] != ' ' || f[diff[0]] != mark {
                return Err(("world", format!("illegal move of player {}: {:?} -> {}", mark, field, l)));
            }
            if player {
                if call.take() != Some(diff[0]) {
                    return Err(("world", format!("the reasoner moved to {} without having decided for it since its last move: {}", diff[0], l)));
                }
                if !seen {
                    return Err(("world", format!("the reasoner moved without having been shown the field: {}", l)));
                }
            }
            seen = false;
            field = f;
            player = !player;
            let w = winner(&field);
            if w.is_some() || !field.contains(&' ') {
                pending = Some(w);
            }
        } else if l.starts_with("WINNER: ") || l == "DRAW!" {
            let w = l.strip_prefix("WINNER: ").and_then(|s| s.chars().next());
            if pending != Some(w) {
                return Err(("world", format!("reported {:?} (line {}) with the field {:?}, expected {:?}", l, i, field, pending)));
            }
            pending = None;
            last = w;
            games += 1;
            field = vec![' '; 9];
            player = true;
        } else if l.starts_with("w/l ratio") {
            if num(l, "games = ").map_or(false, |g| g != games - 1) {
                return Err(("world", format!("{:?} after {} games", l, games)));
            }
            // (the score before the game just ended)
            let ratio = format!("w/l ratio = {} ", wins as f64 / losses as f64);
            if !l.starts_with(&ratio) {
                return Err(("world", format!("{:?} after {} wins and {} losses", l, wins, losses)));
            }
            match last.take() {
                Some('a') => wins += 1,
                Some(_) => losses += 1,
                None => {}
            }
        } else if let Some(i) = l.strip_prefix("CALL ^").and_then(|i| i.parse().ok()) {
            call = Some(i);
        } else if let Some(s) = l.strip_prefix("NARS stimulus: ") {
            let want: String = field.iter().collect::<String>().replace(' ', "S");
            seen = true;
            if s != want {
                return Err(("world", format!("the reasoner perceives {} but the field is {}", s, want)));
            }
        }
    }
    Ok(games)
}
fn run_ttt(sp: &Spec) {
    crate::exec::on_stepcap(cap_ttt);
    let from = simcore::output_len();
    let n = sp.knob("games");
    nar20_1::ProcTicTacToe::run(n);
    simcore::faults_enable(false);
    let out = printed(from);
    let games = match ttt(&out) {
        Err((c, m)) => fail(c, &m),
        Ok(g) => g,
    };
    if games != n + 1 && games != n.max(1) {
        fail("incomplete", &format!("{} games were asked for, {} were played to the end", n, games));
    }
    simcore::probe("judged");
    simcore::probe(&format!("games_{}", games));
}
fn gen_eval(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    let n = 1 + r.below(10);
    let mut v = vec![];
    {
        let mut g = crate::gen::G::new(r);
        for _ in 0..n {
            v.push(g.judgement());
        }
        if g.r.below(2) == 0 {
            let i = g.r.below(v.len() as u64) as usize;
            if let Some(p) = v[i].rfind(">.") {
                let q = format!("{}>?", &v[i][..p]);
                let at = g.r.below(v.len() as u64 + 1) as usize;
                v.insert(at, q);
            }
        } else if g.r.below(3) != 0 {
            let at = g.r.below(v.len() as u64 + 1) as usize;
            let q = g.question();
            v.insert(at, q);
        }
    }
    sp.ops = v;
    faults(r, rates);
    sp.max_steps = 20_000_000;
}
/// the times of the first answer at all and of the first one announced by the cycle itself (i64::MAX: none)
struct Seen {
    time: *const std::sync::atomic::AtomicI64,
    any: std::sync::Arc<std::sync::atomic::AtomicI64>,
    own: std::sync::Arc<std::sync::atomic::AtomicI64>,
}
unsafe impl Send for Seen {}
unsafe impl Sync for Seen {}
impl nar20_1::NarWorkingCycle::QHandler for Seen {
    fn answer(&mut self, _: &nar20_1::Term::Term, _: &nar20_1::NarSentence::Sentence) {
        use std::sync::atomic::Ordering::SeqCst;
        // (the reasoner outlives the run of the benchmark)
        let t = unsafe { (*self.time).load(SeqCst) };
        self.any.fetch_min(t, SeqCst);
        if simcore::tid() == 0 {
            self.own.fetch_min(t, SeqCst);
        }
    }
}
fn run_eval(sp: &Spec) {
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    let mut nar = crate::s_cmd::new_nar();
    for l in &sp.ops {
        crate::s_cmd::enter(&mut nar, l);
    }
    let any = std::sync::Arc::new(AtomicI64::new(i64::MAX));
    let own = std::sync::Arc::new(AtomicI64::new(i64::MAX));
    let seen = Seen { time: &nar.currentTime as *const _ as *const AtomicI64, any: any.clone(), own: own.clone() };
    let handlers = nar.mem.read().globalQaHandlers.clone();
    handlers.write().push(std::sync::Arc::new(parking_lot::RwLock::new(seen)));
    let t0 = nar.currentTime.load(SeqCst);
    let r = nar20_1::Eval::run(&mut nar);
    handlers.write().clear();
    let t = nar.currentTime.load(SeqCst) - t0;
    let rel = |v: i64| if v == i64::MAX { v } else { v - t0 };
    let (any, own) = (rel(any.load(SeqCst)), rel(own.load(SeqCst)));
    match r {
        Some(i) if t != i + 1 => fail("benchmark", &format!("reported an answer after cycle {}; cycles run {}", i, t)),
        Some(i) if i + 1 < any => fail("benchmark", &format!("reported an answer in cycle {}, the first answer was announced in cycle {}", i, any - 1)),
        // (a background thread may be anywhere between announcing its answer and the benchmark being told)
        Some(i) if i + 1 > own => fail("benchmark", &format!("reported an answer in cycle {}, the cycle {} itself had announced one", i, own - 1)),
        None if own != i64::MAX => fail("benchmark", &format!("reported no answer after {} cycles, one was announced in cycle {}", t, own - 1)),
        None if t != 180 => fail("benchmark", &format!("gave up after {} of 180 cycles", t)),
        _ => {}
    }
    simcore::probe(if r.is_some() { "answered" } else { "unanswered" });
    simcore::probe("judged");
}
