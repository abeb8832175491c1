#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
//! Drives the part of subsweep that builds without its git dependencies and writes what it
//! observes, one JSON record per line, for TLC to check against the specifications.
mod det;
mod filedist;
mod geometry;
mod hilbert;
mod maps;
mod messages;
mod out;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: harness_core WHAT SEED TIER OUT [KEY=VALUE...]");
        std::process::exit(2);
    }
    let seed: u64 = args[2].parse().unwrap();
    let ctx = out::Ctx::new(seed, args[3] == "thorough", &args[4], &args[5..]);
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "filedist" => filedist::run(&ctx),
        "databyrank" => maps::data_by_rank(&ctx),
        "countbydir" => maps::count_by_dir(&ctx),
        "arena" => maps::arena(&ctx),
        "nodeindex" => maps::node_index(&ctx),
        "hilbert" => hilbert::run(&ctx),
        "extent" => geometry::extent(&ctx),
        "directions" => geometry::directions(&ctx),
        "det" => det::signs(&ctx),
        "solve" => det::solve(&ctx),
        "exchange" => messages::exchange(&ctx),
        "p2p" => messages::p2p(&ctx),
        "collectives" => messages::collectives(&ctx),
        "chunks" => messages::chunks(&ctx),
        "datatypes" => messages::datatypes(&ctx),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
    ctx.finish();
}
