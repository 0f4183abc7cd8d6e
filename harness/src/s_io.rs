//! P17 interactive session over standard input, P18 loading of files
use crate::exec::fail;
use crate::gen::*;
use crate::rec::peek;
use crate::s_cmd::{enter, idle, new_nar};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use simcore::Prng;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub const SCENS: &[Scen] = &[
    Scen { prop: "P17", name: "stdin", weight: 1, gen: gen_stdin, run: run_stdin, viol: &["stepcap", "deadlock", "cpu", "panic-main", "panic-worker", "exit", "crash"] },
    Scen { prop: "P18", name: "file", weight: 4, gen: gen_file, run: run_file, viol: &["stepcap", "deadlock", "cpu", "panic-main", "panic-worker", "exit", "crash"] },
    Scen { prop: "P18", name: "nofile", weight: 1, gen: gen_nofile, run: run_file, viol: &["stepcap", "deadlock", "cpu", "panic-main", "panic-worker", "exit", "crash"] },
];

/// one line of the input: text, whether it is decodable, terminator
struct L {
    bytes: Vec<u8>,
    text: String,
    ok: bool,
}
/// ops: kind, ':' and text. N newline, C carriage return + newline, X undecodable bytes inside, P padding to a long line
fn lines_of(sp: &Spec) -> (Vec<L>, Vec<u8>) {
    let mut v = vec![];
    let mut all = vec![];
    let n = sp.ops.len();
    for (i, o) in sp.ops.iter().enumerate() {
        let (k, t) = o.split_once(':').unwrap_or(("N", o));
        let mut text = t.to_string();
        if k == "P" {
            text = format!("// {}{}", t, "p".repeat(sp.knob("pad") as usize));
        }
        let mut b = text.clone().into_bytes();
        let ok = k != "X";
        if !ok {
            let at = b.len() / 2;
            b.insert(at, 0xff);
            b.insert(0, 0xc3);
        }
        if k == "C" {
            b.push(b'\r');
        }
        if i + 1 < n || sp.knob("nofinal") == 0 {
            b.push(b'\n');
        }
        if b.is_empty() {
            continue; // nothing after the last newline: not a line
        }
        all.extend_from_slice(&b);
        v.push(L { bytes: b, text: if k == "C" { text } else { text }, ok });
    }
    (v, all)
}
fn text_line(r: &mut Prng, i: u64) -> String {
    let at = ["a", "b", "c", "d", "e"];
    match r.below(24) {
        0..=5 => format!("<{}{} --> {}>.", pick(r, &at), r.below(4), pick(r, &at)),
        6 | 7 => format!("{}. :|:", pick(r, &at)),
        8 => format!("{}! :|:", pick(r, &at)),
        9 => format!("<{} --> {}>?", pick(r, &at), pick(r, &at)),
        10 => format!("<({},<{{({{SELF}}*k)}} --> ^x>) =/> {}>.", pick(r, &at), pick(r, &at)),
        11 | 12 => "!sp".into(),
        13 => "!s".into(),
        14 => format!("!s{}", 1 + r.below(3)),
        15 => "!dmd".into(),
        16 => "!dt".into(),
        17 => format!("// comment {}", i),
        18 => "no narsese at all (".into(),
        19 => format!("!peb {}", r.below(2)),
        20 => "!pse".into(),
        21 => "// é ü 漢字 comment".into(),
        _ => format!("<u{} --> v>.", i),
    }
}
fn gen_lines(r: &mut Prng, sp: &mut Spec, tier: Tier, empties: bool) {
    let n = if r.below(16) == 0 { r.below(400) } else { r.below(if tier == Tier::Quick { 20 } else { 60 }) };
    sp.knobs.insert("pad".into(), [10, 100, 5000, 9000][r.below(4) as usize]);
    sp.knobs.insert("nofinal".into(), (r.below(3) == 0) as i64);
    for i in 0..n {
        // white space belongs to the line
        let t = match r.below(20) {
            0 => ["// spaces  ", "   ", "//\ttabs\t"][r.below(3) as usize].to_string(),
            1 if !empties => ["  !sp", "!sp  ", " <a --> b>.", "<a --> b>.  ", "\t!peb 0", " !QQ", " // c", "a. :|: "][r.below(8) as usize].to_string(),
            _ => text_line(r, i),
        };
        // (long inputs must not reason much)
        let t = if n > 60 && t.trim().starts_with("!s") { format!("// {}", t) } else { t };
        let k = match r.below(24) {
            0 | 1 => "C",
            2 => "X",
            3 => "P",
            _ => "N",
        };
        sp.ops.push(format!("{}:{}", k, t));
        if empties && r.below(6) == 0 {
            sp.ops.push(["N:", "C:"][r.below(2) as usize].into());
        }
        if !empties && r.below(10) == 0 {
            sp.ops.push("N:".into());
        }
    }
    match r.below(4) {
        0 => sp.ops.push("N:!QQ".into()),
        1 => {
            let at = r.below(sp.ops.len() as u64 + 1) as usize;
            sp.ops.insert(at, ["N:!QQ", "C:!QQ"][r.below(2) as usize].into());
        }
        _ => {}
    }
    sp.max_steps = 2_000_000;
}
fn gen_stdin(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_lines(r, sp, tier, true);
    if r.below(3) != 0 {
        rates.insert("stdin_short".into(), (200_000 + r.below(800_000), 400));
    }
    if r.below(3) == 0 {
        rates.insert("stdin_eintr".into(), (20_000 + r.below(200_000), 50));
    }
    if r.below(2) == 0 {
        rates.insert("stdin_eio".into(), (20_000 + r.below(200_000), 30));
    }
}
fn counters(nar: &Nar) -> (i64, i64, i64, i64) {
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let s = peek(&sh);
    (s.stampIdCounter.load(Ordering::SeqCst), s.cycleCounter.load(Ordering::SeqCst), nar.currentTime.load(Ordering::SeqCst), nar.procNar.t)
}
/// what a line adds to the counters: evidence items, cycles, steps
fn adds(t: &str) -> (i64, i64, i64) {
    if t == "!sp" {
        (0, 0, 1)
    } else if let Some(k) = t.strip_prefix("!s") {
        (0, if k.is_empty() { 1 } else { k.parse().unwrap_or(0) }, 0)
    } else if t.trim().is_empty() || t.starts_with('!') || t.starts_with("//") || t.starts_with("no ") {
        (0, 0, 0)
    } else {
        (1, 0, 0)
    }
}
fn run_stdin(sp: &Spec) {
    let mut nar = new_nar();
    let (ls, data) = lines_of(sp);
    simcore::set_stdin(data, None);
    let from = simcore::output_len();
    nar20_1::NarInteractive::runInteractive(&mut nar);
    simcore::faults_enable(false);
    let me = simcore::tid();
    // the lines the session has to process
    let mut want: Vec<String> = vec![];
    let mut last = String::new();
    let mut quit = false;
    for l in &ls {
        if !l.ok {
            continue;
        }
        let t = if l.text.is_empty() {
            last.clone()
        } else {
            last = l.text.clone();
            l.text.clone()
        };
        want.push(t.clone());
        if t == "!QQ" {
            quit = true;
            break;
        }
    }
    let out: Vec<String> = simcore::output_from(from).into_iter().filter(|o| o.tid as usize == me).map(|o| o.text).collect();
    let mut at = 0;
    for (i, w) in want.iter().enumerate() {
        if w.is_empty() {
            continue;
        }
        match out[at..].iter().position(|o| o == w) {
            Some(p) => at += p + 1,
            None => fail("echo", &format!("line {} of the input ({:?}) was not processed in its turn; the session must process {:?}", i, cut(w), want.iter().map(|w| cut(w)).collect::<Vec<_>>())),
        }
    }
    let mut seen: std::collections::BTreeMap<&str, (i64, i64)> = Default::default();
    for w in &want {
        if !w.is_empty() {
            seen.entry(w).or_default().0 += 1;
        }
    }
    let inputs: Vec<&str> = ls.iter().map(|l| l.text.as_str()).collect();
    for o in &out {
        if let Some(e) = seen.get_mut(o.as_str()) {
            e.1 += 1;
        } else if !o.is_empty() && inputs.contains(&o.as_str()) {
            fail("echo", &format!("{:?} was processed, though it comes after the quit command or cannot be decoded", cut(o)));
        }
    }
    for (w, (a, b)) in &seen {
        if a != b {
            fail("echo", &format!("{:?} has to be processed {} times, it was processed {} times", cut(w), a, b));
        }
    }
    let (st, c, t, p) = counters(&nar);
    let (mut es, mut ec, mut ep) = (0, 0, 0);
    for w in &want {
        let a = adds(w);
        es += a.0;
        ec += a.1;
        ep += a.2;
    }
    if (st, c, t, p) != (es, ec, ec, ep) {
        fail("effect", &format!("the session processed {:?}: {} evidence items, {} cycles and {} steps expected, found {} {} {}", want.iter().map(|w| cut(w)).collect::<Vec<_>>(), es, ec, ep, st, c, p));
    }
    if simcore::stdin_eof_reads() > 3 {
        fail("spin", &format!("{} reads after the end of input", simcore::stdin_eof_reads()));
    }
    simcore::probe("judged");
    simcore::probe(if quit { "ended_by_quit" } else { "ended_by_eof" });
    // the reasoner is usable afterwards
    enter(&mut nar, "<zz1 --> zz2>.");
    enter(&mut nar, "!s");
    idle();
}
fn cut(s: &str) -> String {
    s.chars().take(60).collect()
}
// ---------------------------------------------------------------- files
fn gen_file(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_lines(r, sp, tier, false);
    if r.below(3) != 0 {
        rates.insert("file_short".into(), (100_000 + r.below(900_000), 2000));
    }
    if r.below(3) == 0 {
        rates.insert("file_eintr".into(), (20_000 + r.below(200_000), 50));
    }
    match r.below(6) {
        0 => {
            rates.insert("file_eio".into(), (20_000 + r.below(200_000), 3));
        }
        1 => {
            rates.insert("file_dead".into(), (20_000 + r.below(200_000), 1));
        }
        2 => {
            rates.insert("file_open_err".into(), (200_000, 1));
        }
        _ => {}
    }
}
fn gen_nofile(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    gen_file(r, sp, rates, tier);
    sp.knobs.insert("path".into(), 1 + r.below(3) as i64);
}
type State = ((i64, i64, i64, i64), usize, usize, bool, Vec<String>, std::collections::BTreeSet<String>);
/// what was told: counters, questions, operations, babbling, recent events, told beliefs
fn state(nar: &Nar, full: bool) -> State {
    let c = counters(nar);
    let sh = Arc::clone(&peek(&nar.mem).shared);
    let q = peek(&peek(&sh).questionTasks).len();
    let ev: Vec<String> = nar.procNar.trace.ret_view().iter().map(|e| format!("{}@{}", nar20_1::Term::convTermToStr(&e.name), e.occT)).collect();
    let mut b = std::collections::BTreeSet::new();
    if full {
        let mem = peek(&peek(&sh).mem);
        for (n, c) in mem.concepts.iter() {
            for s in c.payload.beliefsByExp.iter() {
                let s = peek(s);
                b.insert(format!("{} in {}", nar20_1::NarSentence::convSentenceTermPunctToStr(&s, true), nar20_1::Term::convTermToStr(n)));
            }
        }
    }
    (c, q, nar.procNar.ops.len(), nar.procNar.cfgEnBabbling, ev, b)
}
fn run_file(sp: &Spec) {
    let mut nar = new_nar();
    let (ls, data) = lines_of(sp);
    let path = match sp.knob("path") {
        1 => "missing.nal".to_string(),
        2 => "nowhere/missing.nal".to_string(),
        3 => ".".to_string(),
        _ => "input.nal".to_string(),
    };
    if sp.knob("path") == 0 {
        std::fs::write(&path, &data).expect("scratch file");
    }
    let fired0 = fired();
    let mut quit = false;
    nar20_1::NarUtilReadn::readNarseseFile(&mut nar, &path, &mut quit);
    simcore::faults_enable(false);
    idle();
    let f1 = fired();
    let broken = sp.knob("path") != 0 || f1.0 > fired0.0;
    // lines which had been read completely when a read failed
    let delivered = if sp.knob("path") != 0 || f1.1 > fired0.1 {
        0
    } else if broken {
        simstd::fs::bytes_until_error() as usize
    } else {
        data.len()
    };
    // (they have to be applied, a reader which gets over the error may apply more)
    let mut want: Vec<String> = vec![];
    let mut wquit = false;
    let mut off = 0;
    let mut must = 0;
    for l in &ls {
        off += l.bytes.len();
        if off <= delivered && !(broken && !l.bytes.ends_with(b"\n")) {
            must = want.len() + l.ok as usize;
        }
        if sp.knob("path") != 0 || f1.1 > fired0.1 {
            break;
        }
        if l.ok {
            want.push(l.text.clone());
            if l.text == "!QQ" {
                wquit = true;
                break;
            }
        }
    }
    // declarative inference is random: beliefs are compared when there was none
    let cycles = want.iter().any(|w| w.starts_with("!s") && w != "!sp");
    let got = state(&nar, !cycles);
    let mut twin = new_nar();
    let mut tq = false;
    let mut ok = false;
    let mut i = 0;
    loop {
        if i == want.len() || (broken && i >= must) {
            idle();
            let t = state(&twin, !cycles);
            if t == got && (tq == quit) {
                ok = true;
                break;
            }
        }
        if i == want.len() {
            break;
        }
        nar20_1::NarInputFacade::input(&mut twin, &want[i], &mut tq);
        i += 1;
    }
    if !ok {
        let t = state(&twin, !cycles);
        fail(
            "load",
            &format!(
                "the loaded file is not as typed (read error: {}, quit {} expected {}): loaded {:?}, typed {:?}, lines {:?}",
                broken,
                quit,
                wquit,
                got,
                t,
                want.iter().map(|w| cut(w)).collect::<Vec<_>>()
            )
            .chars()
            .take(3000)
            .collect::<String>(),
        );
    }
    simcore::probe("judged");
    if broken {
        simcore::probe("read_failed");
    }
    if want.len() > 3 {
        simcore::probe("loaded_some");
    }
    let c0 = counters(&nar);
    enter(&mut nar, "<zz1 --> zz2>.");
    enter(&mut nar, "!sp");
    let c1 = counters(&nar);
    if c1.0 != c0.0 + 1 || c1.3 != c0.3 + 1 {
        fail("unusable", "the reasoner does not take input after loading a file");
    }
}
/// (read or open errors, open errors) injected so far
fn fired() -> (u64, u64) {
    simcore::with(|s| {
        let mut r = (0, 0);
        for (k, ..) in &s.fired {
            if k == "file_eio" || k == "file_dead" || k == "file_open_err" {
                r.0 += 1u64;
            }
            if k == "file_open_err" {
                r.1 += 1u64;
            }
        }
        r
    })
    .unwrap()
}
