//! registry of scenarios
use crate::spec::Spec;
use simcore::Prng;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
}
pub type Rates = BTreeMap<String, (u64, u64)>;
pub struct Scen {
    pub prop: &'static str,
    pub name: &'static str,
    pub weight: u32,
    pub gen: fn(&mut Prng, &mut Spec, &mut Rates, Tier),
    pub run: fn(&Spec),
    /// ends of a run which violate the property
    pub viol: &'static [&'static str],
}
/// a thread of the reasoner died or all of them wait for each other: from then on nothing the property promises is provided
pub const DEAD: &[&str] = &["panic-main", "panic-worker", "deadlock", "crash", "exit"];
pub fn all() -> Vec<&'static Scen> {
    let mut v: Vec<&'static Scen> = vec![];
    v.extend(crate::s_cmd::SCENS.iter());
    v.extend(crate::s_decl::SCENS.iter());
    v.extend(crate::s_bound::SCENS.iter());
    v.extend(crate::s_srv::SCENS.iter());
    v.extend(crate::s_qa::SCENS.iter());
    v.extend(crate::s_proc::SCENS.iter());
    v.extend(crate::s_io::SCENS.iter());
    v.extend(crate::s_env::SCENS.iter());
    v.extend(crate::s_nn::SCENS.iter());
    v.extend(crate::s_derive::SCENS.iter());
    v.extend(crate::s_app::SCENS.iter());
    v.extend(crate::s_lib::SCENS.iter());
    v.extend(crate::s_keep::SCENS.iter());
    v.extend(crate::s_line::SCENS.iter());
    v
}
pub fn of(prop: &str) -> Vec<&'static Scen> {
    let v: Vec<&'static Scen> = all().into_iter().filter(|s| s.prop == prop).collect();
    if v.is_empty() {
        eprintln!("no scenario for property {}", prop);
        std::process::exit(2);
    }
    v
}
pub fn props() -> Vec<&'static str> {
    let mut p: Vec<&'static str> = all().iter().map(|s| s.prop).collect();
    p.sort();
    p.dedup();
    p
}
/// (number of runs, wall clock seconds) - the first limit reached ends the search
pub fn budget(prop: &str, tier: Tier) -> (u64, f64) {
    match tier {
        // long runs
        Tier::Quick if prop == "P11" || prop == "P21" => (60_000, 60.0),
        Tier::Quick if prop == "P20" || prop == "P29" => (60_000, 45.0),
        Tier::Quick => (60_000, 30.0),
        Tier::Thorough => (10_000_000, 600.0),
    }
}
/// what the runs of a property do
pub fn rule(prop: &str) -> String {
    match prop {
        "P01" => "sessions of 4-60 lines: judgements, questions, events, goals, operations, steps, listings, flushes; three mixes",
        "P02" => "sessions of grammar-generated, truncated, spliced, non-ASCII and out-of-range lines and commands, mixed with ordinary ones; operations which are called with odd arguments",
        "P03" => "as P02 plus declarative sessions whose told judgements must be consumed; the reasoner is dropped at the end",
        "P04" => "1-5 clients with random lines in random chunks, resets, garbage, half lines, slow readers; failing accepts",
        "P05" => "clients which prompt for the broadcasts at random moments, some more than fifty messages behind; short and failing writes",
        "P06" => "declarative and temporal sessions with questions (also with variables), global and own listeners registered at random moments, listeners inspected by another thread",
        "P07" => "told and derived beliefs, up to eight questions, then 250 cycles without faults",
        "P08" | "P10" => "declarative sessions: told statements over few atoms so that premises meet, with repetitions, questions, steps, idle moments, flushes",
        "P09" => "truth values at and beyond their limits on statements, events, goals and relations; long revision chains",
        "P11" => "streams of thousands of statements, events, goals and relations",
        "P12" => "told judgements with repeated statements, full and not full belief tables, told while derivation goes on; long runs past the limiting of the working tasks with questions pending",
        "P13" => "event streams with operations over few names, and separated episodes",
        "P14" | "P15" => "told and learned relations, goals, events which meet or miss predictions; restrained operations",
        "P16" => "a plan of one to three relations among distractors, then 150 steps without faults",
        "P17" => "byte streams with empty, long, undecodable and unterminated lines, quit at random places",
        "P18" => "files with empty, long, undecodable and unterminated lines, missing and unreadable files",
        "P19" => "declarative sessions with flushes and listings at random moments of background derivation",
        "P20" => "saves of networks with a crash or disk fault at a random disk operation followed by loads and another save; language commands on missing, damaged and foreign model files",
        "P25" => "two or three judgements which combine, told together after some history or spread over reasoning, or a crowd of up to 23; then up to 100 cycles without faults; premises are also repeated so that evidence is pooled",
        "P26" => "the program from its own main with zero to four files (also missing ones) and an input stream: sessions compared with the same lines entered one by one, questions about what a file told, benchmarks of several files, a tic-tac-toe series",
        "P27" => "relations whose operations are execute-and-inject, the relation operation or instrumented ones with constant, variable and malformed arguments; events and goals in random order that make them be called",
        "P28" => "given goals, told and learned relations of several steps that lead to them, more goals than there is room for, events that meet goals",
        "P29" => "many statements about few things, more tasks, relations and concepts than there is room for, questions, cycles across the points where limits are enforced",
        "P30" => "several relations told or learned that open several ways at once, goals of different desire, events that open two ways, predictions that fail",
        "P21" => "the environments and the benchmark from their own entry points, with random seeds, stalls, clock jumps and extreme draws",
        "P31" => "judgements, questions, goals, events, commands, comments and lines with slips of the pen, also while much is being derived",
        _ => "",
    }
    .into()
}
pub const REAL: &[&str] = &[
    "nar20_1 library crate, unmodified, compiled from /repo (parser, input facade, memory, inference, goal system, procedural reasoner, server, interactive loop, file loader)",
    "the program src/bin/main.rs, compiled from /repo as a library so that a run can start it (P04, P05, P26)",
    "lock_api, nom, nalgebra, futures and every other dependency not listed as stubbed",
];
pub const STUB: &[&str] = &[
    "thread scheduler: OS threads run one at a time, the simulator picks who runs at every synchronisation point",
    "parking_lot locks, std mpsc channels, thread spawn/join/sleep, Instant/SystemTime, stdin, stdout, std::fs files (pass-through with injected errors)",
    "rand::thread_rng and hash map seeds (seeded per run)",
    "async-std executor and TCP sockets (in-memory network)",
];
