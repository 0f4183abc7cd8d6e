//! P27 the library of operations: a call has its whole effect exactly once
use crate::exec::fail;
use crate::gen::*;
use crate::model::{self, *};
use crate::rec::peek;
use crate::s_cmd::{enter, idle, new_nar, spent};
use crate::scen::{Rates, Scen, Tier};
use crate::spec::Spec;
use nar20_1::Nar::Nar;
use nar20_1::NarProc::{Op, ProcNar};
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Term::Term;
use parking_lot::RwLock;
use simcore::Prng;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

pub const SCENS: &[Scen] = &[Scen { prop: "P27", name: "library", weight: 1, gen: gen_lib, run: run_lib, viol: crate::scen::DEAD }];

const EXEC: &str = "^nal9_exeAndInject";
const REL: &str = "^nlpRel0";
static CALLS: Mutex<Vec<T>> = Mutex::new(vec![]);
fn lk<X>(m: &Mutex<X>) -> std::sync::MutexGuard<'_, X> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
struct HOp(String);
impl Op for HOp {
    fn retName(&self) -> String {
        self.0.clone()
    }
    fn call(&self, _: &mut ProcNar, _: &Option<Arc<RwLock<Mem2>>>, args: &Vec<Term>) {
        lk(&CALLS).push(crate::s_proc::op_term(&self.0, args.iter().map(model::from).collect()));
    }
    fn isBabbleable(&self) -> bool {
        false
    }
    fn ret_evi_cnt(&self) -> i64 {
        3
    }
}
fn relation(r: &mut Prng) -> String {
    let a = ["tom", "ann", "cat"];
    let s = if r.below(10) == 0 { format!("({},and,{})", pick(r, &a), pick(r, &a)) } else { pick(r, &a).to_string() };
    let o = match r.below(9) {
        6 => format!("({},and,{},{})", pick(r, &a), pick(r, &a), pick(r, &a)),
        7 => format!("({},and,{},and,{})", pick(r, &a), pick(r, &a), pick(r, &a)),
        8 => format!("({},{},and)", pick(r, &a), pick(r, &a)),
        0 | 1 => format!("({},and,{})", pick(r, &a), pick(r, &a)),
        2 => format!("({},or,{})", pick(r, &a), pick(r, &a)),
        3 => format!("({},and)", pick(r, &a)),
        _ => pick(r, &a).to_string(),
    };
    match r.below(8) {
        0 => format!("<{} --> {}>", s, pick(r, &a)),
        1 => format!("<({}*{}*{}) --> likes>", s, o, pick(r, &a)),
        2 => format!("<{{{}}} <-> {{{}}}>", s, pick(r, &a)),
        _ => format!("<({}*{}) --> {}>", s, o, pick(r, &["likes", "sees"])),
    }
}
fn plain(r: &mut Prng, var: bool) -> String {
    let o = pick(r, &["^x", "^x", "^y", "^z", "^q"]).to_string();
    let a = if var && r.below(2) == 0 { "$v".to_string() } else { pick(r, &["k", "j", "(k*j)", "{k}"]).to_string() };
    match r.below(6) {
        0 => format!("<{{({{SELF}}*{}*k)}} --> {}>", a, o),
        _ => format!("<{{({{SELF}}*{})}} --> {}>", a, o),
    }
}
/// call of an operation of the library (or a plain one)
fn call(r: &mut Prng, depth: u32, var: bool) -> String {
    match r.below(8) {
        0..=3 if depth > 0 => {
            let n = 1 + r.below(4);
            let mut v = vec![];
            for _ in 0..n {
                v.push(match r.below(12) {
                    0 => "u".to_string(),
                    1 | 2 => call(r, depth - 1, var),
                    _ => plain(r, var),
                });
            }
            let seq = if n == 1 && r.below(2) == 0 { v[0].clone() } else { format!("({})", v.join(",")) };
            let e = if var && r.below(3) == 0 { "<$v --> done>".to_string() } else { format!("e{}", r.below(20)) };
            match r.below(16) {
                0 => format!("<{{({{SELF}}*{})}} --> {}>", seq, EXEC),
                1 => format!("<{{({{SELF}}*{}*{}*{})}} --> {}>", seq, e, e, EXEC),
                2 => format!("<{{({{SELF}}*{}*{})}} --> {}>", e, seq, EXEC),
                _ => format!("<{{({{SELF}}*{}*{})}} --> {}>", seq, e, EXEC),
            }
        }
        4..=6 => match r.below(12) {
            0 => format!("<{{({{SELF}}*{}*k)}} --> {}>", relation(r), REL),
            1 if var => format!("<{{({{SELF}}*<($v*tom) --> likes>)}} --> {}>", REL),
            _ => format!("<{{({{SELF}}*{})}} --> {}>", relation(r), REL),
        },
        _ => plain(r, var),
    }
}
fn gen_lib(r: &mut Prng, sp: &mut Spec, rates: &mut Rates, tier: Tier) {
    sp.ops.push("!peb 0".into());
    let mut reg = vec!["!por execinj".to_string(), "!por nlpRel0".into(), "@op ^x".into(), "@op ^y".into(), "@op ^z".into()];
    if r.below(4) == 0 {
        reg.remove(r.below(reg.len() as u64) as usize);
    }
    for i in (1..reg.len()).rev() {
        reg.swap(i, r.below(i as u64 + 1) as usize);
    }
    sp.ops.extend(reg);
    let k = 1 + r.below(4);
    let mut rels = vec![];
    for i in 0..k {
        let var = r.below(4) == 0;
        let c = if var { format!("<$v --> c{}>", i) } else { format!("c{}", i) };
        let o = call(r, 2, var);
        sp.ops.push(format!("<({},{}) =/> g{}>.", c, o, i));
        rels.push((var, i));
    }
    for _ in 0..3 + r.below(if tier == Tier::Quick { 10 } else { 40 }) {
        let (var, i) = *pick(r, &rels);
        if r.below(4) > 0 {
            sp.ops.push(format!("g{}! :|:", i));
        }
        sp.ops.push(if var { format!("<{} --> c{}>. :|:", pick(r, &["w", "w2", "{w3}"]), i) } else { format!("c{}. :|:", i) });
        for _ in 0..1 + r.below(4) {
            sp.ops.push("!sp".into());
        }
        match r.below(8) {
            0 => sp.ops.push("@idle".into()),
            1 => sp.ops.push("!s3".into()),
            2 => sp.ops.push(format!("d{}. :|:", r.below(4))),
            _ => {}
        }
    }
    if r.below(4) == 0 {
        rates.insert("rng_extreme".into(), (20_000, 60));
    }
    if r.below(3) == 0 {
        rates.insert("stall".into(), (500 + r.below(5000), 50));
    }
    if r.below(4) == 0 {
        rates.insert("clock_jump".into(), (500, 20));
    }
    sp.max_steps = 2_000_000;
}
fn decode(t: &T) -> Option<(&str, &[T])> {
    if let S(Cop::Inh, a, b) = t {
        if let (C(K::SetExt, v), N(name)) = (&**a, &**b) {
            if let [C(K::Prod, args)] = &v[..] {
                if !args.is_empty() {
                    return Some((name, args));
                }
            }
        }
    }
    None
}
#[derive(Default, PartialEq, Debug)]
struct Effect {
    calls: Vec<T>,
    events: Vec<T>,
    told: Vec<T>,
}
fn rewrite(t: &T) -> T {
    if let S(Cop::Inh, a, b) = t {
        if let C(K::Prod, v) = &**a {
            if let [x, C(K::Seq, w)] = &v[..] {
                if w.len() == 3 && w[1] == n("and") {
                    return st(Cop::Inh, C(K::Prod, vec![x.clone(), C(K::ExtInt, vec![w[0].clone(), w[2].clone()])]), (**b).clone());
                }
            }
        }
    }
    t.clone()
}
/// what a call of a registered operation does; false: not registered
fn effect(t: &T, reg: &[String], e: &mut Effect) -> bool {
    let (name, args) = match decode(t) {
        Some(x) => x,
        None => return false,
    };
    if !reg.iter().any(|r| r == name) {
        return false;
    }
    if name == EXEC {
        if let [_, C(K::Seq, v), ev] = args {
            for o in v {
                effect(o, reg, e);
            }
            e.events.push(ev.clone());
        }
    } else if name == REL {
        if let [_, rel] = args {
            e.told.push(rewrite(rel));
        }
    } else {
        e.calls.push(t.clone());
    }
    true
}
fn ids(nar: &Nar) -> i64 {
    peek(&peek(&nar.mem).shared).stampIdCounter.load(Ordering::SeqCst)
}
fn run_lib(sp: &Spec) {
    lk(&CALLS).clear();
    let mut nar = new_nar();
    let mut reg: Vec<String> = vec![];
    let mut rels: Vec<(T, T)> = vec![];
    // every event which ever happened
    let mut hist: std::collections::BTreeSet<T> = Default::default();
    for l in &sp.ops {
        if spent() {
            break;
        }
        if l == "@idle" {
            idle();
            continue;
        }
        if let Some(o) = l.strip_prefix("@op ") {
            reg.push(o.into());
            nar.procNar.ops.push(Rc::new(Box::new(HOp(o.into()))));
            continue;
        }
        if l != "!sp" {
            match l.as_str() {
                "!por execinj" => reg.push(EXEC.into()),
                "!por nlpRel0" => reg.push(REL.into()),
                _ => {}
            }
            if let Some(p) = model::parse_line(l) {
                if let S(Cop::Pred, a, _) = &p.t {
                    if let C(K::Seq, v) = &**a {
                        if v.len() == 2 {
                            rels.push((v[0].clone(), v[1].clone()));
                        }
                    }
                }
            }
            enter(&mut nar, l);
            continue;
        }
        let view: Vec<T> = nar.procNar.trace.ret_view().iter().map(|e| model::from(&e.name)).collect();
        hist.extend(view.iter().cloned());
        let (n0, i0) = (lk(&CALLS).len(), ids(&nar));
        enter(&mut nar, "!sp");
        let calls = lk(&CALLS)[n0..].to_vec();
        let i1 = ids(&nar);
        let now: Vec<T> = nar.procNar.trace.ret_view().iter().map(|e| model::from(&e.name)).collect();
        // the operations which a relation can have caused
        let mut cand: Vec<Option<T>> = vec![None];
        for (c, o) in &rels {
            for e in &hist {
                if let Some(s) = model::matches(c, e) {
                    let o = model::subst(o, &s);
                    if !cand.contains(&Some(o.clone())) {
                        cand.push(Some(o));
                    }
                }
            }
        }
        let mut hit = None;
        for c in &cand {
            let mut e = Effect::default();
            let mut want = view.clone();
            if let Some(o) = c {
                if effect(o, &reg, &mut e) {
                    want.extend(e.events.iter().cloned());
                    want.push(o.clone());
                }
            }
            let k = want.len().saturating_sub(20);
            if e.calls == calls && e.told.len() as i64 == i1 - i0 && want[k..] == now[..] {
                hit = Some(e);
                if c.is_some() {
                    break;
                }
            }
        }
        let e = match hit {
            Some(e) => e,
            None => fail(
                "effect",
                &format!(
                    "in the step at time {} the recent events went from {:?} to {:?}, called {:?}, {} judgements told: this is not the effect of any operation a relation called for: {:?}",
                    nar.procNar.t - 1,
                    short(&view),
                    short(&now),
                    short(&calls),
                    i1 - i0,
                    cand.iter().flatten().map(|t| t.to_string()).collect::<Vec<_>>()
                ),
            ),
        };
        for (j, t) in e.told.iter().enumerate() {
            simcore::probe("told");
            let id = i0 + j as i64;
            let sh = Arc::clone(&nar.mem.read().shared);
            let sh = sh.read();
            let mem = sh.mem.read();
            let ok = mem.concepts.get(&model::to(t)).map_or(false, |c| {
                c.payload.beliefsByExp.iter().any(|b| {
                    let b = b.read();
                    model::from(&b.term) == *t && b.stamp.ids.contains(&id)
                })
            });
            if !ok {
                fail("told", &format!("the operation had to tell {} as evidence item {}, but no such belief is held", t, id));
            }
        }
        if !e.calls.is_empty() {
            simcore::probe("called");
        }
        if !e.events.is_empty() {
            simcore::probe("injected");
        }
        simcore::probe("judged");
    }
}
fn short(v: &[T]) -> Vec<String> {
    v.iter().rev().take(6).rev().map(|t| t.to_string()).collect()
}
