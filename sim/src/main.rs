#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod case;
mod driver;
mod exec;
mod gen;
mod geom;
mod lazy;
mod ops;
mod runner;
mod scale;
mod simvec;
pub(crate) use simcore::{disk, env, rng, sched, shm};

#[global_allocator]
static ALLOC: env::SimAlloc = env::SimAlloc;

fn main() {
    sched::init();
    env::install_ahash();
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match s(1) {
        "check" if gen::PROPS.contains(&s(2)) => driver::check(s(2)),
        "replay" => driver::replay(s(2)),
        "hashes" => driver::hashes(n(2, 200), driver::env_u64("VERIF_SEED", 1)),
        "inner" => exec::inner(n(2, 0) as i32),
        "one" => driver::one(s(2), driver::env_u64("VERIF_SEED", 1), n(3, 0)),
        _ => {
            eprintln!("usage: lssim check <property> | replay <file> | hashes <n> | one <property> <case>");
            2
        }
    };
    std::process::exit(code);
}
