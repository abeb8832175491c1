#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
mod chemistry;
mod delaunay;
mod domain;
mod grid;
mod out;
mod output;
mod params;
mod rotation;
mod series;
mod sweep;
mod sweepcomm;
mod tree;

use out::*;

/// What every run on several ranks ends with.
pub fn finish<R>(ctx: &Ctx, run: u64, results: Vec<Result<R, String>>) {
    for (rank, r) in results.iter().enumerate() {
        if let Err(e) = r {
            ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": format!("rank {rank}: {e}")}));
        }
    }
    let left = fakempi::LEFTOVER.load(std::sync::atomic::Ordering::SeqCst);
    let open = fakempi::UNFINISHED.load(std::sync::atomic::Ordering::SeqCst);
    ctx.emit(json!({"ev": "done", "run": run, "leftover": left, "unfinished": open}));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: harness_full WHAT SEED TIER OUT [KEY=VALUE...]");
        std::process::exit(2);
    }
    let seed: u64 = args[2].parse().unwrap();
    let ctx = out::Ctx::new(seed, args[3] == "thorough", &args[4], &args[5..]);
    if std::env::var_os("VERIF_SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "domain" => domain::run(&ctx),
        "delaunay" => delaunay::run(&ctx),
        "grid" => grid::run(&ctx),
        "gridone" => grid::run_one(&ctx),
        "parameters" => params::run(&ctx),
        "output" => output::run(&ctx),
        "tree" => tree::run(&ctx),
        "chemistry" => chemistry::run(&ctx),
        "rotation" => rotation::run(&ctx),
        "series" => series::run(&ctx),
        "sweep" => sweep::run(&ctx),
        "sweepcomm" => sweepcomm::run(&ctx),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
    ctx.finish();
}
