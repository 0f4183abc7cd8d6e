//! the server: P04 every line once and in order, isolation; P05 broadcasts
use crate::exec::fail;
use crate::gen::*;
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use simcore::net;
use simcore::Prng;
use std::collections::{BTreeMap, BTreeSet};

pub const SCENS: &[Scen] = &[
    Scen { prop: "P04", name: "lines", weight: 1, gen: gen_lines, run: run_lines, viol: &["deadlock", "stepcap", "panic-main", "panic-worker", "crash", "exit"] },
    Scen { prop: "P05", name: "prompt", weight: 3, gen: gen_prompt, run: run_prompt, viol: crate::scen::DEAD },
    Scen { prop: "P05", name: "lagging", weight: 1, gen: gen_lag, run: run_lag, viol: crate::scen::DEAD },
];
const PORT: u16 = 2039;
const SEC: u64 = 1_000_000_000;

struct Cl {
    c: usize,
    cap: usize,
    /// complete lines sent
    sent: Vec<String>,
    part: String,
    got: Vec<u8>,
    /// data may legitimately be missing (reset, connection error, undecodable bytes)
    broken: bool,
    gone: bool,
    stuck: bool,
}
struct World {
    cl: BTreeMap<usize, Cl>,
    old: Vec<Cl>,
    cap: usize,
    srv: usize,
}
impl World {
    fn new(sp: &Spec) -> World {
        let cap = sp.knob("cap") as usize;
        if sp.knob("main") == 1 {
            // by way of the program
            simcore::set_args(vec!["20nar1".into(), "srv".into()]);
        }
        net::set_capacity(cap);
        let srv = simcore::spawn("server", Box::new(if simcore::args().len() > 1 { || narsim_app::narsim_entry() } else { || nar20_1::NarServer::run() }));
        World { cl: BTreeMap::new(), old: vec![], cap, srv }
    }
    fn alive(&self) {
        if simcore::is_done(self.srv) {
            let p = simcore::threads().into_iter().filter_map(|t| t.panicked.map(|p| format!("{}: {}", t.name, p))).collect::<Vec<_>>().join("; ");
            fail("server-down", &format!("the server ended {}", p));
        }
        for t in simcore::threads() {
            if let Some(p) = t.panicked {
                fail("server-down", &format!("server thread t{} {} panicked: {}", t.id, t.name, p));
            }
        }
    }
    fn get(&mut self, k: usize) -> &mut Cl {
        if !self.cl.contains_key(&k) {
            match net::connect(PORT, 3600 * SEC) {
                Ok(c) => {
                    self.cl.insert(k, Cl { c, cap: self.cap, sent: vec![], part: String::new(), got: vec![], broken: false, gone: false, stuck: false });
                }
                Err(e) => {
                    self.alive();
                    fail("refused", &format!("a new connection was refused: {}", e))
                }
            }
        }
        self.cl.get_mut(&k).unwrap()
    }
    fn retire(&mut self, k: usize) {
        if let Some(c) = self.cl.remove(&k) {
            self.old.push(c);
        }
    }
}
impl Cl {
    fn drain(&mut self) {
        match net::cl_take(self.c) {
            Ok(Some(v)) => self.got.extend(v),
            Ok(None) => self.gone = true,
            Err(_) => {
                self.broken = true;
                self.gone = true;
            }
        }
    }
    /// writes without blocking the driver: a client which cannot write reads first
    fn raw(&mut self, b: &[u8]) {
        let mut b = b;
        let mut tries = 0;
        while !b.is_empty() && !self.gone {
            let room = self.cap.saturating_sub(net::info(self.c).unread_by_server);
            if room == 0 {
                let n = self.got.len();
                self.drain();
                simcore::wait_idle(SEC);
                tries = if self.got.len() == n { tries + 1 } else { 0 };
                if tries > 40 {
                    self.stuck = true;
                    return;
                }
                continue;
            }
            let m = room.min(b.len());
            if net::cl_write(self.c, &b[..m]).is_err() {
                self.gone = true;
                return;
            }
            tries = 0;
            b = &b[m..];
        }
    }
    fn text(&mut self, t: &str) {
        self.raw(t.as_bytes());
        if self.gone || self.stuck {
            return;
        }
        for ch in t.chars() {
            if ch == '\n' {
                let l = std::mem::take(&mut self.part);
                self.sent.push(l.trim_end_matches('\r').to_string());
            } else {
                self.part.push(ch);
            }
        }
    }
    fn lines(&self) -> (Vec<String>, String) {
        let s = String::from_utf8_lossy(&self.got).to_string();
        let mut v: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
        let p = v.pop().unwrap_or_default();
        (v, p)
    }
}
fn split(op: &str) -> Option<(usize, &str, &str)> {
    let (k, r) = op.split_once(':')?;
    let (a, t) = r.split_once(' ').unwrap_or((r, ""));
    Some((k.parse().ok()?, a, t))
}
/// one action of one client; false = not a client action
fn act(w: &mut World, op: &str) -> bool {
    let (k, a, t) = match split(op) {
        Some(x) => x,
        None => return false,
    };
    match a {
        "line" => w.get(k).text(&format!("{}\n", t)),
        "crlf" => w.get(k).text(&format!("{}\r\n", t)),
        "part" => w.get(k).text(t),
        "long" => {
            let n: usize = t.parse().unwrap_or(100);
            let v: Vec<String> = (0..1 + n / 400).map(|i| format!("z{}{}", "z".repeat(395), i)).collect();
            w.get(k).text(&format!("<({}*n{}) --> k{}>.\n", v.join("*"), n, k))
        }
        "open" => {
            w.get(k);
        }
        "bytes" => {
            let c = w.get(k);
            c.raw(&[0xff, 0xfe, b'x', b'\n']);
            c.broken = true;
        }
        "drain" => w.get(k).drain(),
        "shut" => {
            if w.cl.contains_key(&k) {
                let c = w.get(k).c;
                net::cl_shutdown_write(c);
                w.retire(k);
            }
        }
        "close" => {
            if w.cl.contains_key(&k) {
                let x = w.get(k);
                // what it sent before is still there to be read (only writing to it fails)
                net::cl_close(x.c);
                w.retire(k);
            }
        }
        "reset" => {
            if w.cl.contains_key(&k) {
                let x = w.get(k);
                x.broken = true;
                net::cl_reset(x.c);
                w.retire(k);
            }
        }
        _ => return false,
    }
    true
}

// ---- P04
fn net_rates(r: &mut Prng, rates: &mut Rates) {
    let mut on = |r: &mut Prng, k: &str, ppm: u64, max: u64, p: u64| {
        if r.below(100) < p {
            rates.insert(k.into(), (ppm, max));
        }
    };
    on(r, "net_short_read", 300_000, 400, 60);
    on(r, "net_short_write", 300_000, 400, 60);
    on(r, "net_pending", 100_000, 100, 50);
    on(r, "accept_aborted", 300_000, 3, 30);
    on(r, "accept_emfile", 200_000, 3, 20);
    on(r, "peer_addr_err", 300_000, 2, 25);
    on(r, "net_read_err", 20_000, 2, 25);
    on(r, "net_write_err", 60_000, 2, 25);
}
fn gen_lines(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 1_500_000;
    let m = 1 + r.below(5);
    sp.knobs.insert("cap".into(), [16, 64, 300, 4096, 65536][r.below(5) as usize]);
    sp.knobs.insert("main".into(), (r.below(2) == 0) as i64);
    let n = 5 + r.below(if tier == Tier::Quick { 45 } else { 90 });
    for i in 0..n {
        let k = r.below(m);
        sp.ops.push(match r.below(40) {
            0..=15 => format!("{}:line <s{} --> k{}>.", k, i, k),
            16 | 17 => format!("{}:crlf <s{} --> k{}>.", k, i, k),
            18 => format!("{}:part <s{} --> ", k, i),
            19 => format!("{}:line k{}>.", k, k),
            20 => format!("{}:line !dmd", k),
            21 => format!("{}:line !dt", k),
            22 => format!("{}:line ", k),
            23 => format!("{}:line {}", k, hostile_line(r)),
            24 => format!("{}:line !QQ", k),
            25 => format!("{}:long {}", k, [50, 3000, 9000][r.below(3) as usize] + i),
            26 => format!("{}:bytes", k),
            27 => format!("{}:reset", k),
            28 => format!("{}:close", k),
            29 => format!("{}:shut", k),
            30 | 31 => format!("{}:drain", k),
            32 => format!("{}:open", k),
            33 | 34 => "@idle".into(),
            35 => format!("@wait {}", r.below(2000)),
            _ => format!("{}:line <s{} --> k{}>. {{1 0.9}}", k, i, k),
        });
    }
    net_rates(r, rates);
}
fn hostile_line(r: &mut Prng) -> String {
    for _ in 0..20 {
        let l = garbage(r);
        if !l.contains('\n') && !l.contains('\r') && !l.starts_with('!') && nesting_ok(&l) && !l.contains("=/>") && !l.contains(":|:") && l.len() < 200 {
            return l;
        }
    }
    "???".into()
}
/// "task  <s --> k>. {1 0.9} <stamp> credit=.." -> (statement, evidence)
fn parse_task(l: &str) -> Option<(String, Vec<i64>)> {
    let r = l.strip_prefix("task  ")?;
    let k = r.find(". {")?;
    let st = r[..k].replace(' ', "");
    let r = &r[k + 3..];
    let r = &r[r.find('}')? + 1..];
    let r = &r[..r.rfind("credit=")?];
    let ids = r.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
    Some((st, ids))
}
fn run_lines(sp: &Spec) {
    let mut w = World::new(sp);
    for op in &sp.ops {
        if op == "@idle" {
            simcore::wait_idle(10 * SEC);
        } else if let Some(t) = op.strip_prefix("@wait ") {
            simcore::sleep_ns(t.parse::<u64>().unwrap_or(0) * 1000);
        } else {
            act(&mut w, op);
        }
        if w.cl.get(&split(op).map_or(999, |x| x.0)).map_or(false, |c| c.gone) {
            w.retire(split(op).unwrap().0);
        }
        w.alive();
    }
    // faults stop; everybody reads
    simcore::faults_enable(false);
    for _ in 0..200_000 {
        simcore::wait_idle(10 * SEC);
        let mut moved = false;
        for c in w.cl.values_mut().chain(w.old.iter_mut()) {
            let n = c.got.len();
            c.drain();
            moved |= c.got.len() != n;
        }
        if !moved {
            break;
        }
    }
    for (k, c) in &w.cl {
        let i = net::info(c.c);
        if c.stuck || (i.unread_by_server > 0 && !c.broken && !i.srv_err) {
            fail("unserved", &format!("the server does not read from client {} any more ({} bytes waiting)", k, i.unread_by_server));
        }
    }
    w.alive();
    // a new client still gets served
    let p0 = simcore::output_len();
    {
        let c = w.get(900);
        c.text("!dt\n");
        for _ in 0..200_000 {
            simcore::wait_idle(10 * SEC);
            let n = c.got.len();
            c.drain();
            if c.got.len() == n {
                break;
            }
        }
        let i = net::info(c.c);
        if !i.accepted {
            fail("unserved", "after the faults a new connection is not accepted any more");
        }
        if i.unread_by_server > 0 {
            fail("unserved", "after the faults the server does not read from a new connection");
        }
    }
    w.alive();
    simcore::probe("judged");
    // what the reasoner was given, by evidence number = order of acceptance
    let mut seen: BTreeMap<i64, String> = BTreeMap::new();
    let mut any = false;
    for o in simcore::output_from(p0) {
        if let Some((s, ids)) = parse_task(&o.text) {
            any = true;
            if ids.len() == 1 {
                seen.insert(ids[0], s);
            }
        }
    }
    let all: Vec<(i64, String)> = seen.into_iter().collect();
    let is_ours = |s: &str| s.starts_with("<s") && s.contains("-->k") && model_ok(s) || s.starts_with("<(zzz");
    let mut groups: Vec<(Vec<String>, bool, String)> = vec![];
    for c in w.cl.values().chain(w.old.iter()) {
        let lines: Vec<String> = c.sent.iter().filter_map(|l| l.split_once(">.").map(|x| format!("{}>", x.0.replace(' ', "")))).filter(|s| is_ours(s)).collect();
        let i = net::info(c.c);
        let part = c.part.split_once(">.").map(|x| format!("{}>", x.0.replace(' ', ""))).unwrap_or_default();
        groups.push((lines, c.broken || i.srv_err || i.reset, part));
    }
    let mut left: Vec<(i64, String)> = all.into_iter().filter(|(_, s)| is_ours(s)).collect();
    if !any && groups.iter().any(|g| !g.1 && !g.0.is_empty()) {
        fail("line-lost", "the reasoner lists no task at all although lines were sent");
    }
    // statements are unique per client except for long ones
    for (lines, broken, part) in &groups {
        let set: BTreeSet<&String> = lines.iter().collect();
        if set.len() != lines.len() {
            continue;
        }
        let others = groups.iter().filter(|g| g.0.iter().any(|l| set.contains(l))).count();
        if others > 1 {
            continue;
        }
        let got: Vec<String> = left.iter().filter(|(_, s)| set.contains(s) && s != part).map(|x| x.1.clone()).collect();
        let lines: Vec<String> = lines.iter().filter(|s| *s != part).cloned().collect();
        let ok = if *broken { got.len() <= lines.len() && lines[..got.len()] == got[..] } else { lines == got };
        simcore::probe("clients_judged");
        if !ok {
            let class = if got.len() > lines.len() { "line-twice" } else if got.len() < lines.len() { "line-lost" } else { "line-order" };
            fail(class, &format!("a client{} sent {:?}, the reasoner was given {:?}", if *broken { " (which broke off)" } else { "" }, short(&lines), short(&got)));
        }
        left.retain(|(_, s)| !set.contains(s));
    }
    let known: BTreeSet<String> = groups.iter().flat_map(|g| g.0.iter().cloned().chain(std::iter::once(g.2.clone()))).collect();
    if let Some((_, s)) = left.iter().find(|(_, s)| !known.contains(s)) {
        fail("line-invented", &format!("the reasoner was given {} which no client sent", &s[..s.len().min(80)]));
    }
}
fn model_ok(s: &str) -> bool {
    s.matches('<').count() == 1 && s.chars().all(|c| c.is_ascii_alphanumeric() || "<> -".contains(c))
}
fn short(v: &[String]) -> Vec<String> {
    v.iter().map(|s| s.chars().take(40).collect()).collect()
}

// ---- P05
fn is_bcast(l: &str) -> Option<char> {
    if l.starts_with("TRACE answer: ") {
        Some('A')
    } else if l.starts_with("task  ") || l.starts_with("concept count") {
        Some('R')
    } else {
        None
    }
}
fn chains(from: usize) -> (Vec<String>, Vec<String>) {
    let (mut a, mut r) = (vec![], vec![]);
    for o in simcore::output_from(from) {
        match is_bcast(&o.text) {
            Some('A') => a.push(o.text),
            Some(_) => r.push(o.text),
            None => {}
        }
    }
    (a, r)
}
fn talk(r: &mut Prng, i: u64) -> String {
    match r.below(12) {
        0..=3 => format!("<a{} --> b>. {{1 0.{}}}", i % 4, 1 + r.below(9)),
        4 => format!("<x{} --> y{}>.", i, i),
        5 => "!dmd".into(),
        6 => "!dt".into(),
        7 => format!("<{} --> b>?", ["a0", "a1", "?1"][r.below(3) as usize]),
        8 => "<b --> c>.".into(),
        9 => "<?1 --> c>?".into(),
        _ => format!("!s{}", 1 + r.below(3)),
    }
}
fn gen_prompt(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 1_500_000;
    let m = 1 + r.below(4);
    sp.knobs.insert("cap".into(), [64, 300, 4096, 65536][r.below(4) as usize]);
    sp.knobs.insert("main".into(), (r.below(2) == 0) as i64);
    let n = 5 + r.below(if tier == Tier::Quick { 25 } else { 40 });
    for i in 0..n {
        let k = r.below(m);
        sp.ops.push(match r.below(20) {
            0..=9 => format!("{}:line {}", k, talk(r, i)),
            10 | 11 => format!("{}:line //", k),
            12 => format!("{}:drain", k),
            13 => "@idle".into(),
            14 => format!("{}:open", k),
            15 if i < 6 && sp.knob("cap") >= 300 => format!("{}:long {}", k, 8000 + r.below(3000)),
            16 => format!("{}:reset", k),
            17 => format!("{}:shut", k),
            _ => format!("{}:line {}", k, talk(r, i)),
        });
    }
    net_rates(r, rates);
    rates.remove("accept_aborted");
    rates.remove("accept_emfile");
    rates.remove("peer_addr_err");
}
fn contiguous(part: &[&String], whole: &[String]) -> bool {
    part.is_empty() || whole.windows(part.len()).any(|w| w.iter().zip(part).all(|(a, b)| a == *b))
}
/// every line intact and known, each chain once and in order
fn judge_stream(who: &str, c: &Cl, a: &[String], r: &[String], min_a: usize, min_r: usize, complete: bool) {
    let (lines, part) = c.lines();
    for l in &lines {
        if !a.contains(l) && !r.contains(l) {
            fail("torn", &format!("{} received a line which was never broadcast: '{}' ({} bytes)", who, l.chars().take(120).collect::<String>(), l.len()));
        }
    }
    if complete && !part.is_empty() {
        fail("torn", &format!("{} received an unfinished line: '{}'", who, part.chars().take(120).collect::<String>()));
    }
    if !part.is_empty() && !a.iter().chain(r.iter()).any(|x| x.starts_with(part.as_str())) {
        fail("torn", &format!("{} received bytes which were never broadcast: '{}'", who, part.chars().take(120).collect::<String>()));
    }
    for (name, ch, min) in [('A', a, min_a), ('R', r, min_r)] {
        let mine: Vec<&String> = lines.iter().filter(|l| is_bcast(l) == Some(name)).collect();
        let ok = if complete {
            mine.len() <= ch.len() && mine.len() >= min && mine.iter().zip(&ch[ch.len() - mine.len()..]).all(|(x, y)| *x == y)
        } else {
            contiguous(&mine, ch)
        };
        if !ok {
            let show = |v: Vec<&String>| v.iter().map(|s| s.chars().take(70).collect::<String>()).collect::<Vec<_>>();
            fail(
                "broadcast",
                &format!(
                    "{} received {} of the {} {} (at least {} were broadcast after it connected): got {:?} of {:?}",
                    who,
                    mine.len(),
                    ch.len(),
                    if name == 'A' { "answers" } else { "results" },
                    min,
                    show(mine),
                    show(ch.iter().collect())
                ),
            );
        }
        simcore::with(|s| *s.probes.entry("broadcasts_received".into()).or_insert(0) += lines.len() as u64);
    }
}
fn run_prompt(sp: &Spec) {
    let mut w = World::new(sp);
    let mut base: BTreeMap<usize, (usize, usize)> = BTreeMap::new(); // connection -> (answers, results) when it was surely served
    for op in &sp.ops {
        if op == "@idle" {
            simcore::wait_idle(10 * SEC);
            let (a, r) = chains(0);
            for c in w.cl.values() {
                // accepted and idle: its cursor is set
                if net::info(c.c).accepted {
                    base.entry(c.c).or_insert((a.len(), r.len()));
                }
            }
            continue;
        }
        // lines which would produce too many messages are left out
        let (a, r) = chains(0);
        if a.len() + r.len() > 30 && op.contains(":line ") && !op.ends_with(" //") {
            continue;
        }
        if op.ends_with("!dt") && tasks_pending() > 8 {
            continue;
        }
        if act(&mut w, op) && op.contains(":line !dt") {
            simcore::wait_idle(10 * SEC);
        }
        let k = split(op).map_or(999, |x| x.0);
        if w.cl.get(&k).map_or(false, |c| c.gone) {
            w.retire(k);
        }
    }
    simcore::faults_enable(false);
    quiet(&mut w);
    let (a0, r0) = chains(0);
    if a0.len() + r0.len() > 50 {
        simcore::probe("too_many");
        return;
    }
    // everybody polls once more
    for c in w.cl.values_mut() {
        let bad = c.broken || net::info(c.c).srv_err;
        if !bad && !c.gone {
            c.text("//\n");
        }
    }
    quiet(&mut w);
    let (a, r) = chains(0);
    let mut orders: Vec<Vec<String>> = vec![];
    for (k, c) in w.cl.iter() {
        let i = net::info(c.c);
        let complete = !(c.broken || c.gone || i.srv_err || i.reset || i.srv_closed);
        if complete && !i.accepted {
            continue;
        }
        let (ba, br) = base.get(&c.c).copied().unwrap_or((a.len(), r.len()));
        judge_stream(&format!("client {}", k), c, &a, &r, a.len() - ba, r.len() - br, complete);
        simcore::probe("judged");
        orders.push(c.lines().0);
    }
    for c in &w.old {
        judge_stream("an earlier client", c, &a, &r, 0, 0, false);
        simcore::probe("judged");
        orders.push(c.lines().0);
    }
    // one order for everybody
    let mut cnt: BTreeMap<&String, usize> = BTreeMap::new();
    for x in a.iter().chain(r.iter()) {
        *cnt.entry(x).or_insert(0) += 1;
    }
    for i in 0..orders.len() {
        for j in 0..i {
            let u: Vec<&String> = orders[i].iter().filter(|l| cnt.get(l) == Some(&1) && orders[j].contains(l)).collect();
            let v: Vec<&String> = orders[j].iter().filter(|l| cnt.get(l) == Some(&1) && orders[i].contains(l)).collect();
            if u != v {
                fail("order", &format!("two clients received broadcasts in different orders: {:?} and {:?}", u, v));
            }
        }
    }
}
fn tasks_pending() -> usize {
    // an upper estimate from what was said: every statement adds a few tasks
    simcore::output_from(0).iter().filter(|o| o.text.starts_with("recv:<") && o.text.contains(">.")).count()
}
fn quiet(w: &mut World) {
    for _ in 0..200_000 {
        simcore::wait_idle(20 * SEC);
        let mut moved = false;
        for c in w.cl.values_mut().chain(w.old.iter_mut()) {
            let n = c.got.len();
            c.drain();
            moved |= c.got.len() != n;
        }
        if !moved {
            break;
        }
    }
}
fn gen_lag(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.max_steps = 4_000_000;
    sp.knobs.insert("cap".into(), [300, 4096, 65536][r.below(3) as usize]);
    let rounds = 1 + r.below(if tier == Tier::Quick { 4 } else { 8 });
    sp.ops.push("1:open".into());
    sp.ops.push("@idle".into());
    let answers = r.below(2) == 0;
    if answers {
        for i in 0..1 + r.below(4) {
            sp.ops.push(format!("0:line <b{} --> ?1>?", i));
        }
        sp.ops.push("0:line <?1 --> ?2>?".into());
    }
    let mut z = 0;
    for _ in 0..rounds {
        let n = match r.below(5) {
            0 => r.below(10),
            1 => 45 + r.below(10),
            2 => 49 + r.below(3),
            _ => 20 + r.below(60),
        };
        if r.below(4) == 0 {
            // one command with a long result
            for _ in 0..20 + r.below(50) {
                z += 1;
                sp.ops.push(format!("0:line <p{} --> q{}>.", z, z));
            }
            sp.ops.push("0:line !dt".into());
        }
        for _ in 0..n {
            if answers && r.below(3) > 0 {
                // ever better answers
                z += 1;
                sp.ops.push(format!("0:line <b{} --> c{}>. {{1 0.{:04}}}", r.below(4), z, 1000 + z * 7));
                if r.below(8) > 0 {
                    sp.ops.push("0:line !dtf".into());
                }
                sp.ops.push("0:line !s2".into());
            } else {
                sp.ops.push("0:line !dmd".into());
            }
        }
        sp.ops.push("1:poll".into());
        if r.below(2) == 0 {
            sp.ops.push("2:poll".into());
        }
        if r.below(3) == 0 {
            sp.ops.push("1:poll".into());
        }
    }
    if r.below(2) == 0 {
        rates.insert("net_short_write".into(), (200_000, 300));
        rates.insert("net_short_read".into(), (200_000, 300));
    }
}
fn run_lag(sp: &Spec) {
    let mut w = World::new(sp);
    let mut cursor: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for op in &sp.ops {
        if op == "@idle" {
            simcore::wait_idle(10 * SEC);
            continue;
        }
        if let Some((k, "poll", _)) = split(op) {
            quiet(&mut w);
            if !w.cl.contains_key(&k) {
                w.get(k);
                quiet(&mut w);
                let (a, r) = chains(0);
                cursor.insert(k, (a.len(), r.len()));
            }
            let (a, r) = chains(0);
            let (ca, cr) = cursor.get(&k).copied().unwrap_or((0, 0));
            let out = a.len() - ca + r.len() - cr;
            w.get(k).got.clear();
            w.get(k).text("//p\n");
            quiet(&mut w);
            let (a2, r2) = chains(0);
            if (a2.len(), r2.len()) != (a.len(), r.len()) {
                cursor.insert(k, (a2.len(), r2.len()));
                simcore::probe("moved");
                continue;
            }
            let (l, _) = w.get(k).lines();
            let want = out.min(50);
            if l.len() != want {
                fail(
                    if l.len() > 50 { "retained" } else { "broadcast" },
                    &format!("client {} was {} broadcasts behind and received {} lines (at most 50 are kept): {:?}", k, out, l.len(), short(&l)),
                );
            }
            judge_stream(&format!("client {}", k), w.get(k), &a, &r, 0, 0, true);
            cursor.insert(k, (a.len(), r.len()));
            simcore::probe("judged");
            if out > 50 {
                simcore::probe("lagged");
            }
            continue;
        }
        if op == "1:open" {
            cursor.insert(1, (0, 0));
        }
        act(&mut w, op);
        if let Some(c) = w.cl.get_mut(&0) {
            c.drain();
        }
        w.alive();
    }
}
