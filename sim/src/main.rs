//! lrpsim: deterministic simulation of lrp clients. See /verif/DESIGN.md.
//!
//!   lrpsim run PROPERTY TIER SEED EVIDENCE REPLAYDIR   search; exit 0, or 1 with a VIOLATION line
//!   lrpsim replay FILE                                 reproduce a violation; exit 1 if it shows
//!   lrpsim trace PROPERTY SEED                         print one scenario and its events
//!   lrpsim boot SEED                                   the wops built from wop's own grammar (C25)
//!   lrpsim determinism N                               every property, N seeds, twice; exit 0 if same
mod any;
mod check;
mod coro;
mod demo;
mod e2e;
mod gram;
mod proc;
mod rng;
mod run;
mod scen;
mod show;
mod shrink;
mod sym;
mod val;
mod wopref;
mod world;

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    let code = match &s[1..] {
        ["run", p, tier, seed, evidence, replays] => run::supervise(p, tier, seed.parse().unwrap_or(1), evidence, replays),
        ["worker", p, base, count, me, of, shared, out] => {
            run::worker(p, base.parse().unwrap(), count.parse().unwrap(), me.parse().unwrap(), of.parse().unwrap(), shared, out)
        }
        ["shrink", from, to, secs] => run::shrink_file(from, to, secs.parse().unwrap()),
        ["eval", file] => run::eval_file(file, false),
        ["replay", file] => run::replay(file),
        ["trace", p, seed] => run::trace(p, seed.parse().unwrap()),
        ["boot", seed] => proc::boot(seed.parse().unwrap_or(1)),
        ["determinism", n] => run::determinism(n.parse().unwrap()),
        _ => {
            eprintln!("usage: lrpsim run|replay|trace|determinism ...");
            2
        }
    };
    proc::clean(std::process::id());
    std::process::exit(code);
}
