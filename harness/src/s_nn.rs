//! P20 the stored language model: saving it under crashes and disk errors, language commands without a usable model
use crate::exec::fail;
use crate::gen::pick;
use crate::s_cmd::{enter, idle, new_nar};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use simcore::Prng;

const DB: &str = "nn_nlp0.db";
pub const SCENS: &[Scen] = &[
    Scen { prop: "P20", name: "save", weight: 2, gen: gen_save, run: run_save, viol: &["panic-main", "stepcap", "cpu", "exit", "crash", "deadlock"] },
    Scen { prop: "P20", name: "command", weight: 1, gen: gen_cmd, run: run_cmd, viol: &["panic-main", "stepcap", "cpu", "exit", "crash", "deadlock"] },
];
fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|s| s.to_string()).collect()
}
const SENT: &[&str] = &["Tom is fast and fat", "can Tom dance ?", "Cat want to dance", "Tim and John are thin", "food is good"];
/// what the stored network does: control sequence, relations and everything printed; None: reported as not usable
type Seen = (Vec<i64>, Vec<String>, Vec<String>);
fn observe() -> Option<Vec<Seen>> {
    let mut v = vec![];
    for s in SENT {
        let from = simcore::output_len();
        let (c, r) = nar20_1::ModNlpA::network_run(&words(s));
        if c.is_empty() && r.is_empty() {
            return None;
        }
        let out = simcore::output_from(from).into_iter().map(|o| o.text).collect();
        v.push((c, r.iter().map(nar20_1::ModNlpA::conv_rel_to_narsese).collect(), out));
    }
    Some(v)
}
fn train(epochs: i64) {
    std::env::set_var("NARSIM_EPOCHS", epochs.to_string());
    nar20_1::ModNlpA::train();
}
fn gen_save(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    sp.knobs.insert("old".into(), [0, 150, 150, 150][r.below(4) as usize]);
    sp.knobs.insert("saves".into(), 1 + r.below(2) as i64);
    sp.knobs.insert("retry".into(), (r.below(3) == 0) as i64);
    if r.below(4) != 0 {
        // one save is about a hundred operations
        rates.insert("disk_crash".into(), ([3_000, 10_000, 30_000, 100_000][r.below(4) as usize], 1));
    }
    if r.below(3) == 0 {
        for k in ["disk_full", "disk_werr", "disk_sync_err", "disk_rename_err", "disk_unlink_err", "disk_open_err", "disk_rerr"] {
            if r.below(3) == 0 {
                rates.insert(k.into(), ([3_000, 20_000, 100_000, 500_000][r.below(4) as usize], 1 + r.below(20)));
            }
        }
    }
    if r.below(3) == 0 {
        rates.insert("disk_wshort".into(), (100_000, 20));
    }
    sp.max_steps = 3_000_000;
}
fn run_save(sp: &Spec) {
    simcore::faults_enable(false);
    // reference behaviour of the new network, in a directory of its own
    let new_epochs = 40;
    std::fs::create_dir("ref").unwrap();
    let here = std::env::current_dir().unwrap();
    std::env::set_current_dir("ref").unwrap();
    let from = simcore::output_len();
    train(new_epochs);
    // shows the first neuron as trained, then as loaded
    for what in ["[d  ] weights =", "[d  ] bias "] {
        let l: Vec<String> = simcore::output_from(from).into_iter().map(|o| o.text).filter(|t| t.starts_with(what)).collect();
        if l.len() == 2 && l[0] != l[1] {
            fail("unequal", &format!("the network which was loaded is not the network which was stored: {} / {}", l[0].chars().take(200).collect::<String>(), l[1].chars().take(200).collect::<String>()));
        }
    }
    let new = match observe() {
        Some(o) => o,
        None => fail("unusable", "a network which was stored without any fault can't be used"),
    };
    std::env::set_current_dir(&here).unwrap();
    let mut old = None;
    if sp.knob("old") > 0 {
        train(sp.knob("old"));
        old = observe();
        if old.is_none() {
            fail("unusable", "a network which was stored without any fault can't be used");
        }
        if old.as_ref() == Some(&new) {
            crate::exec::inconclusive("same", "old and new network behave alike");
        }
    }
    crate::disk::start();
    simcore::faults_enable(true);
    for _ in 0..sp.knob("saves") {
        train(new_epochs);
        if sp.knob("retry") == 1 {
            let _ = observe();
        }
    }
    simcore::faults_enable(false);
    let (crashed, ops) = crate::disk::stop();
    let clean = simcore::with(|s| s.fired.is_empty()).unwrap();
    let seen = observe();
    let what = || format!("after {} disk operations, {}", ops, if crashed { "then a crash" } else { "no crash" });
    match &seen {
        None if old.is_some() => fail("lost", &format!("a save was interrupted ({}): neither the old nor the new network can be loaded", what())),
        None => {}
        Some(s) if *s == new => simcore::probe("new"),
        Some(s) if Some(s) == old.as_ref() => simcore::probe("old"),
        Some(_) => fail("mixed", &format!("a save was interrupted ({}): the network which is loaded is neither the old nor the new one", what())),
    }
    if seen.is_none() {
        simcore::probe("none");
    }
    if clean && seen.as_ref() != Some(&new) {
        fail("lost", "a save without any fault did not store the new network");
    }
    if crashed {
        simcore::probe("crashed");
    }
    // the next save succeeds
    train(new_epochs);
    if observe().as_ref() != Some(&new) {
        fail("wedged", &format!("a save was interrupted ({}): a later save without faults does not store the new network", what()));
    }
    simcore::probe("judged");
}
// ---------------------------------------------------------------- language commands
fn gen_cmd(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, _: Tier) {
    sp.knobs.insert("db".into(), r.below(13) as i64);
    sp.knobs.insert("dbseed".into(), r.next() as i64 & 0xffff_ffff);
    let w = ["Tom", "Tim", "is", "can", "are", "?", "to", "of", "the", "what", "and", "fast", "fat", "dance", "food", "Cat", "want", "purpose", "hunting"];
    for i in 0..1 + r.below(6) {
        let mut s = vec![];
        if r.below(3) == 0 {
            s.push(pick(r, SENT).to_string());
        } else {
            for _ in 0..r.below(14) {
                s.push(if r.below(12) == 0 { format!("unknown{}", r.below(3)) } else { pick(r, &w).to_string() });
            }
        }
        sp.ops.push(format!("!.nlp {}", s.join(" ")));
        if r.below(3) == 0 {
            sp.ops.push(format!("<w{} --> v>.", i));
        }
    }
    if r.below(3) == 0 {
        for k in ["disk_open_err", "disk_rerr", "disk_werr", "disk_full", "file_werr", "file_open_err"] {
            if r.below(2) == 0 {
                rates.insert(k.into(), ([3_000, 50_000, 300_000][r.below(3) as usize], 1 + r.below(20)));
            }
        }
    }
    sp.max_steps = 3_000_000;
}
fn run_cmd(sp: &Spec) {
    simcore::faults_enable(false);
    let mut r = Prng::new(sp.knob("dbseed") as u64);
    let kind = sp.knob("db");
    let mut refs: Vec<Vec<String>> = vec![];
    if kind >= 2 {
        train(0);
        if kind == 2 {
            for l in &sp.ops {
                if let Some(s) = l.strip_prefix("!.nlp ") {
                    let s = s.replace('?', " ? ");
                    let (_, rel) = nar20_1::ModNlpA::network_run(&words(&s));
                    refs.push(rel.iter().map(nar20_1::ModNlpA::conv_rel_to_narsese).collect());
                }
            }
        } else {
            damage(kind, &mut r);
        }
    } else if kind == 1 {
        let n = r.below(3000) as usize;
        let g: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        std::fs::write(DB, g).unwrap();
    }
    crate::disk::start();
    simcore::faults_enable(true);
    let mut nar = new_nar();
    let c = |nar: &nar20_1::Nar::Nar| {
        let sh = std::sync::Arc::clone(&crate::rec::peek(&nar.mem).shared);
        let s = crate::rec::peek(&sh);
        s.stampIdCounter.load(std::sync::atomic::Ordering::SeqCst)
    };
    let clean = |f: &mut bool| *f = *f && simcore::with(|s| s.fired.is_empty()).unwrap();
    let mut pristine = kind == 2;
    let mut k = 0;
    for l in &sp.ops {
        let c0 = c(&nar);
        enter(&mut nar, l);
        let c1 = c(&nar);
        clean(&mut pristine);
        if l.starts_with("!.nlp ") {
            if pristine && c1 - c0 != refs[k].len() as i64 {
                fail("relations", &format!("{:?} has to add {:?}, {} judgements were added", l, refs[k], c1 - c0));
            }
            if kind <= 1 && c1 != c0 {
                fail("relations", &format!("{:?} added {} judgements without a usable model", l, c1 - c0));
            }
            k += 1;
        } else if c1 != c0 + 1 {
            fail("session", &format!("{:?} was not taken after a language command", l));
        }
    }
    simcore::faults_enable(false);
    crate::disk::stop();
    let c0 = c(&nar);
    enter(&mut nar, "<zz1 --> zz2>.");
    if c(&nar) != c0 + 1 {
        fail("session", "the session does not take input after language commands");
    }
    enter(&mut nar, "!s");
    idle();
    simcore::probe("judged");
    simcore::probe(&format!("db_{}", kind));
}
/// a database which is valid but holds something else than a complete network
fn foreign(r: &mut Prng) -> rusqlite::Result<()> {
    if r.below(4) == 0 {
        let _ = std::fs::remove_file(DB);
    }
    let c = rusqlite::Connection::open(DB)?;
    c.execute_batch("PRAGMA synchronous=OFF;")?;
    if r.below(4) == 0 {
        c.execute_batch("drop table if exists weights;")?;
        c.execute_batch(["create table weights (a integer);", "create table weights (layer,neuronidx,valueid,value);", "create view weights as select 1 as layer;", "create table other (layer integer);"][r.below(4) as usize])?;
    } else {
        c.execute_batch("create table if not exists weights (id integer primary key, nnid integer, layer integer, neuronidx integer, valueid integer, value real);")?;
    }
    let big = ["-1", "0", "1", "2", "5", "1000000000000", "9223372036854775807", "-9223372036854775808", "'x'", "x'00'", "1e300", "-1e300", "9e999", "0.5", "70", "1000"];
    for _ in 0..1 + r.below(4) {
        let v = *pick(r, &big);
        let w = *pick(r, &big);
        let q = match r.below(8) {
            0 => format!("insert into weights (nnid,layer,neuronidx,valueid,value) values (0,{},0,0,{});", v, w),
            1 => format!("insert into weights (nnid,layer,neuronidx,valueid,value) values (0,0,{},0,{});", v, w),
            2 => format!("update weights set value={} where id%{}=0;", v, 1 + r.below(50)),
            3 => format!("update weights set layer={} where id={};", v, 1 + r.below(3000)),
            4 => format!("update weights set neuronidx={} where id={};", v, 1 + r.below(3000)),
            5 => format!("update weights set valueid={} where id={};", v, 1 + r.below(3000)),
            6 => format!("delete from weights where {}={};", pick(r, &["layer", "neuronidx", "valueid", "nnid"]), r.below(3)),
            _ => format!("insert into weights (nnid,layer,neuronidx,valueid,value) select nnid,layer+{},neuronidx,valueid,value from weights;", r.below(3)),
        };
        let _ = c.execute_batch(&q);
    }
    Ok(())
}
fn damage(kind: i64, r: &mut Prng) {
    if kind >= 9 {
        let _ = foreign(r);
        return;
    }
    let mut b = std::fs::read(DB).unwrap_or_default();
    if b.is_empty() {
        return;
    }
    match kind {
        3 => b.truncate(r.below(b.len() as u64) as usize),
        4 => {
            for _ in 0..1 + r.below(40) {
                let i = r.below(b.len() as u64) as usize;
                b[i] = r.next() as u8;
            }
        }
        5 => {
            for _ in 0..1 + r.below(3) {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        6 => {
            let p = b.len() / 4096;
            let k = r.below(p.max(1) as u64) as usize;
            for x in b[k * 4096..].iter_mut().take(4096) {
                *x = 0;
            }
        }
        7 => b.clear(),
        _ => {
            let _ = std::fs::remove_file(DB);
            let _ = std::fs::create_dir(DB);
            return;
        }
    }
    std::fs::write(DB, b).unwrap();
}
