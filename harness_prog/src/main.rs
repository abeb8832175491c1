#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "../../harness_full/src/out.rs"]
#[allow(dead_code)]
mod out;
#[path = "../../build/fullview/program/main.rs"]
#[allow(warnings)]
mod program;
mod reader;
mod readgrid;
mod remap;
mod sources;
mod util;
mod whole;

// Macros of the library use names of the crate that calls them.
pub use subsweep::units;

use out::*;

/// What every run on several ranks ends with.
pub fn finish<R>(ctx: &Ctx, run: u64, results: Vec<Result<R, String>>) {
    for (rank, r) in results.iter().enumerate() {
        if let Err(e) = r {
            ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": format!("rank {rank}: {e}")}));
        }
    }
    let left = fakempi::LEFTOVER.load(std::sync::atomic::Ordering::SeqCst);
    let open = fakempi::UNFINISHED.load(std::sync::atomic::Ordering::SeqCst);
    ctx.emit(json!({"ev": "done", "run": run, "leftover": left, "unfinished": open}));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: harness_prog WHAT SEED TIER OUT [KEY=VALUE...]");
        std::process::exit(2);
    }
    let seed: u64 = args[2].parse().unwrap();
    let ctx = out::Ctx::new(seed, args[3] == "thorough", &args[4], &args[5..]);
    if std::env::var_os("VERIF_SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "reader" => reader::run(&ctx),
        "readgrid" => readgrid::run(&ctx),
        "remap" => remap::run(&ctx),
        "whole" => whole::run(&ctx),
        "wholeone" => whole::run_one(&ctx),
        "sources" => sources::run(&ctx),
        what => {
            eprintln!("unknown command {what}");
            std::process::exit(2);
        }
    }
    ctx.finish();
}
