//! simcheck: deterministic simulation of rust_graph with fault injection.
#![allow(clippy::missing_safety_doc, clippy::type_complexity)]
// variadic and fixed arguments are passed alike on x86-64 System V
#![cfg_attr(simcov, allow(dead_code))]
#![allow(unexpected_cfgs, unknown_lints, invalid_runtime_symbol_definitions)]

#[macro_use]
mod core;
#[macro_use]
mod cfg;
mod choice;
mod model;
mod props;
mod runner;
mod sys;

/// Threads get the stacks they ask for, not larger ones left by others.
fn exact_stacks() {
    use std::os::unix::process::CommandExt;
    let want = "glibc.pthread.stack_cache_size=0";
    if std::env::var("GLIBC_TUNABLES").ok().as_deref() == Some(want) {
        return;
    }
    if let Ok(exe) = std::env::current_exe() {
        let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("GLIBC_TUNABLES", want).exec();
        eprintln!("exec: {}", e);
    }
}

fn main() {
    exact_stacks();
    core::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier")
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            runner::check(
                find(&a[1]),
                &tier,
                opt("--runs").and_then(|s| s.parse().ok()),
                opt("--secs").and_then(|s| s.parse().ok()),
            )
        }
        Some("worker") => runner::worker(find(&a[1]), &a[2..]),
        Some("replay") => {
            let (st, out) = runner::replay_fresh(&a[1], 120, false);
            print!("{}", out);
            match st {
                10 => println!("the run does not finish"),
                11 => println!("the run kills its process"),
                _ => {}
            }
            if st == 0 || st == 2 {
                st
            } else {
                1
            }
        }
        Some("replay-inner") => runner::replay_inner(&props, &a[1]),
        Some("digest") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            runner::digest(find(&a[1]), n(2), n(3), n(4));
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check ID [--tier quick|thorough] | replay FILE | digest ID SEED FROM TO | list");
            2
        }
    };
    std::process::exit(code);
}
