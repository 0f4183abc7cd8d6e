//! P26 the program itself: what its modes do with their arguments, files and standard input
use crate::exec::fail;
use crate::gen::*;
use crate::s_cmd::new_nar;
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use simcore::Prng;
use std::collections::BTreeMap;

const V: &[&str] = &["stepcap", "deadlock", "cpu", "panic-main", "panic-worker", "crash"];
pub const SCENS: &[Scen] = &[
    Scen { prop: "P26", name: "session", weight: 12, gen: gen_it, run: run_it, viol: V },
    Scen { prop: "P26", name: "ask", weight: 6, gen: gen_ask, run: run_ask, viol: V },
    Scen { prop: "P26", name: "benchmark", weight: 6, gen: gen_bqa, run: run_bqa, viol: V },
    Scen { prop: "P26", name: "tictactoe", weight: 1, gen: gen_ttt, run: run_ttt, viol: V },
];
const NAMES: &[&str] = &["a.nal", "b c.nal", "ü漢.nal", "-x", "d/e.nal", "it", "!QQ", "x.nars"];

/// runs the program to its end; true: it ended by calling exit
fn start(args: &[String]) -> bool {
    let mut a = vec!["20nar1".to_string()];
    a.extend(args.iter().cloned());
    simcore::set_args(a);
    simcore::catch_exit(true);
    let r = std::panic::catch_unwind(|| narsim_app::narsim_entry());
    simcore::catch_exit(false);
    match r {
        Ok(()) => false,
        Err(e) => match e.downcast_ref::<simcore::ExitMark>() {
            Some(simcore::ExitMark(0)) => true,
            Some(simcore::ExitMark(c)) => fail("exit", &format!("the program ended with exit code {}", c)),
            None => std::panic::resume_unwind(e),
        },
    }
}
fn mine(from: usize) -> Vec<String> {
    simcore::output_from(from).into_iter().filter(|o| o.tid == 0).map(|o| o.text).collect()
}
/// ops: "<file>:<line>" and "S:<line>" of the standard input
fn parts(sp: &Spec) -> (Vec<Option<Vec<String>>>, Vec<String>) {
    let n = sp.knob("files") as usize;
    let mut f: Vec<Option<Vec<String>>> = (0..n).map(|i| if sp.knob("missing") >> i & 1 == 1 { None } else { Some(vec![]) }).collect();
    let mut s = vec![];
    for o in &sp.ops {
        let (k, l) = o.split_once(':').unwrap_or(("S", o));
        match k.parse::<usize>() {
            Ok(i) if i < n => {
                if let Some(v) = f[i].as_mut() {
                    v.push(l.to_string())
                }
            }
            _ => s.push(l.to_string()),
        }
    }
    (f, s)
}
fn write_files(sp: &Spec, f: &[Option<Vec<String>>]) -> Vec<String> {
    let _ = std::fs::create_dir_all("d");
    let mut v = vec![];
    for (i, c) in f.iter().enumerate() {
        let n = NAMES[(i + sp.knob("names") as usize) % NAMES.len()];
        if let Some(c) = c {
            let t: String = c.iter().map(|l| l.to_string() + if sp.knob("crlf") == 1 { "\r\n" } else { "\n" }).collect();
            std::fs::write(n, t).expect("scratch file");
        }
        v.push(n.to_string());
    }
    v
}
fn line(r: &mut Prng, i: u64) -> String {
    let at = ["a", "b", "c", "d", "e"];
    match r.below(20) {
        0..=4 => format!("<{}{} --> {}>.", pick(r, &at), r.below(4), pick(r, &at)),
        5 => format!("{}. :|:", pick(r, &at)),
        6 => format!("{}! :|:", pick(r, &at)),
        7 => format!("<{} --> {}>?", pick(r, &at), pick(r, &at)),
        8 | 9 => format!("<({},<{{({{SELF}}*k)}} --> ^x>) =/> {}>.", pick(r, &at), pick(r, &at)),
        10 => format!("// comment {}", i),
        11 => "no narsese at all (".into(),
        12 => "!peb 0".into(),
        13 => "!dtf".into(),
        14 => format!("!por NOP ^{}", pick(r, &at)),
        15 => "!dmd".into(),
        16 => "!dt".into(),
        _ => format!("<u{} --> v>.", i),
    }
}
fn io_faults(r: &mut Prng, rates: &mut Rates) {
    if r.below(2) == 0 {
        rates.insert("file_short".into(), (100_000 + r.below(900_000), 500));
    }
    if r.below(3) == 0 {
        rates.insert("file_eintr".into(), (20_000 + r.below(200_000), 20));
    }
    if r.below(2) == 0 {
        rates.insert("stdin_short".into(), (200_000 + r.below(800_000), 200));
    }
    if r.below(3) == 0 {
        rates.insert("stdin_eintr".into(), (20_000 + r.below(200_000), 20));
    }
    if r.below(3) == 0 {
        rates.insert("stdin_eio".into(), (20_000 + r.below(100_000), 10));
    }
    if r.below(3) == 0 {
        rates.insert("stall".into(), (500 + r.below(5000), 50));
    }
}
fn names(r: &mut Prng, sp: &mut Spec, n: u64) {
    sp.knobs.insert("files".into(), n as i64);
    sp.knobs.insert("names".into(), r.below(NAMES.len() as u64) as i64);
    sp.knobs.insert("crlf".into(), (r.below(4) == 0) as i64);
    let mut m = 0;
    for i in 0..n {
        if r.below(6) == 0 {
            m |= 1i64 << i;
        }
    }
    sp.knobs.insert("missing".into(), m);
}
fn gen_it(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    let n = r.below(5);
    names(r, sp, n);
    let mut id = 0;
    for f in 0..n {
        for _ in 0..r.below(9) {
            id += 1;
            sp.ops.push(format!("{}:{}", f, if r.below(40) == 0 { "!QQ".into() } else { line(r, id) }));
        }
    }
    for _ in 0..r.below(10) {
        id += 1;
        sp.ops.push(format!("S:{}", if r.below(3) == 0 { ["!dmd", "!dt", "!pse"][r.below(3) as usize].into() } else { line(r, id) }));
    }
    for p in ["!dmd", "!dt", "!pse"] {
        sp.ops.push(format!("S:{}", p));
    }
    if r.below(3) == 0 {
        sp.ops.push("S:!QQ".into());
        sp.ops.push("S:!dmd".into());
    }
    io_faults(r, rates);
    sp.max_steps = 2_000_000;
}
fn sorted(v: &[String]) -> Vec<String> {
    let mut v: Vec<String> = v.to_vec();
    v.sort();
    v
}
fn cut(v: &[String]) -> String {
    format!("{:?}", v).chars().take(700).collect()
}
fn run_it(sp: &Spec) {
    let (files, input) = parts(sp);
    let mut args = vec!["it".to_string()];
    args.extend(write_files(sp, &files));
    simcore::set_stdin(input.iter().map(|l| l.to_string() + "\n").collect::<String>().into_bytes(), None);
    simcore::stdin_patient();
    let from = simcore::output_len();
    start(&args);
    simcore::faults_enable(false);
    let got = mine(from);
    let reads = simcore::stdin_reads();
    // the same lines given to a reasoner one by one
    let mut twin = new_nar();
    let mut quit = false;
    'f: for f in files.iter().flatten() {
        for l in f {
            nar20_1::NarInputFacade::input(&mut twin, l, &mut quit);
            if l == "!QQ" {
                quit = true;
                break 'f;
            }
        }
    }
    if quit {
        if reads != 0 {
            fail("quit", &format!("a file says quit, but the program read standard input afterwards: {}", cut(&got)));
        }
        simcore::probe("quit_in_file");
        simcore::probe("judged");
        return;
    }
    if reads == 0 {
        fail("session", &format!("no file says quit, but the program ended without reading standard input; files {:?}", args));
    }
    let mut at = 0;
    for (i, l) in input.iter().enumerate() {
        crate::s_cmd::idle();
        let f2 = simcore::output_len();
        let mut out = vec![];
        let ret = nar20_1::NarInputFacade::input(&mut twin, l, &mut quit);
        out.extend(mine(f2));
        out.extend(ret);
        let want = sorted(&out);
        at = match got[at..].iter().position(|o| o == l) {
            Some(p) => at + p + 1,
            None => fail("session", &format!("line {} of the session ({:?}) was not processed in its turn; output {}", i, l, cut(&got))),
        };
        let end = match input.get(i + 1).filter(|_| l != "!QQ") {
            Some(n) => match got[at..].iter().skip(out.len()).position(|o| o == n || o.starts_with("error: ")) {
                Some(p) => at + p + out.len(),
                None => fail("session", &format!("line {} of the session ({:?}) was not processed in its turn; output {}", i + 1, n, cut(&got))),
            },
            None => got.len(),
        };
        let seg = &got[at..end];
        let same = if end == got.len() { count(&want).iter().all(|(k, n)| count(seg).get(k).map_or(false, |m| m >= n)) } else { sorted(seg) == want };
        if !same {
            fail(
                "state",
                &format!("line {} of the session ({:?}) gives {} in the program, but {} when the lines of the files {:?} and of the session are entered one by one", i, l, cut(seg), cut(&want), files),
            );
        }
        if l == "!QQ" {
            if got[at..].iter().any(|o| input[i + 1..].contains(o)) {
                fail("quit", "the session went on after quit");
            }
            break;
        }
    }
    simcore::probe("judged");
    if files.iter().flatten().filter(|f| !f.is_empty()).count() > 1 {
        simcore::probe("several_files");
    }
}
fn count(v: &[String]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry(s.clone()).or_default() += 1;
    }
    m
}
// ---------------------------------------------------------------- a question of the session about what a file told
fn gen_ask(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    let n = 1 + r.below(4);
    names(r, sp, n);
    let k = r.below(n);
    let m = sp.knob("missing") & !(1 << k);
    sp.knobs.insert("missing".into(), m);
    sp.knobs.insert("key".into(), r.below(3) as i64);
    for f in 0..n {
        for i in 0..r.below(4) {
            sp.ops.push(format!("{}:<u{} --> v{}>.", f, i, f));
        }
        if f == k {
            sp.ops.push(format!("{}:{}.", f, KEY[sp.knob("key") as usize]));
        }
        for i in 0..r.below(4) {
            sp.ops.push(format!("{}:{}", f, [format!("// {}", i), format!("<w{} --> v{}>.", i, f), "x. :|:".into(), "<(p,<{({SELF}*k)} --> ^y>) =/> q>.".into()][r.below(4) as usize]));
        }
    }
    io_faults(r, rates);
    sp.max_steps = 5_000_000;
}
const KEY: [&str; 3] = ["<k --> l>", "<(m,<{({SELF}*k)} --> ^x>) =/> g>", "<<k --> l> ==> <m --> l>>"];
fn run_ask(sp: &Spec) {
    let (files, _) = parts(sp);
    let key = KEY[sp.knob("key") as usize];
    let told = files.iter().flatten().any(|f| f.contains(&format!("{}.", key)));
    let mut args = vec!["it".to_string()];
    args.extend(write_files(sp, &files));
    simcore::set_stdin(format!("{}?\n!s 40\n", key).into_bytes(), None);
    simcore::stdin_patient();
    let from = simcore::output_len();
    start(&args);
    simcore::faults_enable(false);
    let sq = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let q = format!("TRACEanswer:{}?", sq(key));
    let got: Vec<String> = simcore::output_from(from).into_iter().map(|o| o.text).collect();
    let n = got.iter().filter(|o| sq(o).starts_with(&q)).count();
    if told != (n > 0) {
        fail("answer", &format!("{}? was {} in the session, it was {} by a file: {}", key, if n > 0 { "answered" } else { "not answered within 40 cycles" }, if told { "told" } else { "not told" }, cut(&got)));
    }
    simcore::probe("judged");
    simcore::probe(if told { "answered" } else { "not_told" });
}
// ---------------------------------------------------------------- benchmark
fn gen_bqa(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    let n = r.below(5);
    names(r, sp, n);
    for f in 0..n {
        let kind = r.below(4);
        let mut v = vec![];
        if kind < 2 {
            v.push("<k --> l>.".to_string());
        }
        if kind == 0 || kind == 2 {
            v.push("<k --> l>?".to_string());
        }
        for i in 0..r.below(4) {
            v.push([format!("// {}", i), format!("<u{} --> v{}>.", i, f), "!QQ".into(), "no narsese (".into()][r.below(4) as usize].clone());
        }
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
        for l in v {
            sp.ops.push(format!("{}:{}", f, l));
        }
    }
    sp.knobs.insert("rounds".into(), if r.below(2) == 0 { 0 } else { 1 + r.below(3) as i64 });
    io_faults(r, rates);
    sp.max_steps = 20_000_000;
}
fn run_bqa(sp: &Spec) {
    let (files, _) = parts(sp);
    let rounds = sp.knob("rounds");
    let mut args = if rounds == 0 { vec!["bQA".to_string()] } else { vec!["bQA2".to_string(), rounds.to_string()] };
    args.extend(write_files(sp, &files));
    let from = simcore::output_len();
    start(&args);
    simcore::faults_enable(false);
    let got = mine(from);
    let mut res: Vec<Option<i64>> = vec![];
    for l in &got {
        let t = if rounds == 0 { Some(l.as_str()) } else { l.strip_prefix("CYCLES ") };
        match t {
            Some("None") => res.push(None),
            Some(t) => {
                if let Ok(n) = t.parse::<i64>() {
                    res.push(Some(n))
                }
            }
            None => {}
        }
    }
    // (an answer must come from the file itself; the loading of a file ends with quit)
    let mut want = vec![];
    for _ in 0..rounds.max(1) {
        for f in &files {
            let f: Vec<&String> = f.iter().flatten().take_while(|l| *l != "!QQ").collect();
            want.push(f.iter().any(|l| *l == "<k --> l>.") && f.iter().any(|l| *l == "<k --> l>?"));
        }
    }
    if res.len() != want.len() || res.iter().zip(&want).any(|(r, w)| r.is_some() != *w || r.map_or(false, |c| c < 0 || c >= 180)) {
        fail("benchmark", &format!("reported {:?}, answers must be found for {:?}; files {:?}", res, want, files));
    }
    if rounds > 0 {
        let num = |k: &str| got.iter().rev().find_map(|l| l.strip_prefix(k)).and_then(|t| t.trim().parse::<f64>().ok());
        let acc: f64 = res.iter().flatten().map(|c| (*c as f64 * -0.002).exp()).sum::<f64>() / rounds as f64;
        let un = res.iter().filter(|r| r.is_none()).count() as f64 / res.len() as f64;
        if !num("SCORE ").map_or(false, |s| (s - acc).abs() < 1e-9) || !num("H unanswered ratio ").map_or(false, |s| res.is_empty() || (s - un).abs() < 1e-9) || num("H # runs ") != Some(rounds as f64) {
            fail("benchmark", &format!("the summary does not fit the results {:?}: expected score {} and ratio {}: {}", res, acc, un, cut(&got)));
        }
    }
    simcore::probe("judged");
    if res.len() > 1 {
        simcore::probe("several_files");
    }
}
fn gen_ttt(_: &mut Prng, sp: &mut Spec, _: &mut Rates, t: Tier) {
    sp.max_steps = if t == Tier::Quick { 10_000_000 } else { 100_000_000 };
}
fn run_ttt(_: &Spec) {
    crate::exec::on_stepcap(crate::s_env::cap_ttt);
    let from = simcore::output_len();
    start(&["envTTTprof".to_string()]);
    simcore::faults_enable(false);
    let out: Vec<String> = mine(from).iter().flat_map(|t| t.split('\n').map(|s| s.to_string()).collect::<Vec<_>>()).collect();
    match crate::s_env::ttt(&out) {
        Err((c, m)) => fail(c, &m),
        Ok(10) | Ok(11) => simcore::probe("judged"),
        Ok(g) => fail("incomplete", &format!("10 games were asked for, {} were played to the end", g)),
    }
}
