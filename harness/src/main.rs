#![allow(non_snake_case)]
mod drive;
mod exec;
mod gen;
mod json;
mod model;
mod scen;
mod spec;
mod rec;
mod s_cmd;
mod s_app;
mod s_bound;
mod s_env;
mod disk;
mod s_derive;
mod s_goal;
mod s_choice;
mod s_keep;
mod s_line;
mod s_lib;
mod s_nn;
mod s_io;
mod s_proc;
mod s_qa;
mod s_srv;
mod s_decl;

use scen::Tier;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("NARSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let opt = |n: &str| -> Option<String> { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => drive::check(drive::CheckArgs {
            prop: a[2].clone(),
            vseed,
            tier: Tier::parse(&opt("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()))),
            verif,
            runs: opt("--runs").and_then(|s| s.parse().ok()),
            wall: opt("--wall").and_then(|s| s.parse().ok()),
            workers: opt("--workers").and_then(|s| s.parse().ok()),
        }),
        Some("worker") => {
            drive::worker(
                &a[2],
                a[3].parse().unwrap(),
                a[4].parse().unwrap(),
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                a[7].parse().unwrap(),
                Tier::parse(&a[8]),
                &a[9],
            );
            0
        }
        Some("replay") => drive::replay(&a[2], &verif, a.iter().any(|x| x == "--quiet")),
        Some("one") => drive::one(&a[2], vseed, a[3].parse().unwrap(), Tier::parse(&opt("--tier").unwrap_or("quick".into())), &verif),
        Some("sane") => drive::sane(&verif),
        Some("selftest") => drive::selftest(vseed, a.get(2).and_then(|s| s.parse().ok()).unwrap_or(40), &verif),
        _ => {
            eprintln!("usage: narsim check <property> [--tier quick|thorough] [--runs n] [--wall s] | replay <file> | one <property> <i> | selftest [n]");
            2
        }
    };
    std::process::exit(code);
}
