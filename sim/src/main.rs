//! Deterministic simulation of jsonschema-transpiler: see ../../DESIGN.md.

mod avrodata;
mod batch;
mod campaign;
mod cli_checks;
mod engine;
mod facets;
mod gen;
mod lib_checks;
mod fetch;
mod loadbq;
mod rng;
mod rt;
mod sched;
mod shim;
mod testgen;

use std::path::PathBuf;

#[global_allocator]
static HEAP: rt::Heap = rt::Heap;

/// Whether addresses are fixed; if not, starts the program again with them fixed.
fn fixed_addresses() {
    unsafe {
        if libc::personality(0xffffffff) & 0x0040000 == 0 && std::env::var_os("JST_FIXED").is_none() {
            use std::os::unix::process::CommandExt;
            libc::personality(0x0040000);
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("JST_FIXED", "1").env("JST_VERIF", shim::verif()).exec();
            eprintln!("exec: {e}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(String::as_str).unwrap_or("");
    let num = |k: usize| arg(k).parse::<u64>().expect("a number");
    match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            assert!(campaign::PROPS.contains(&arg(2)), "unknown property");
            std::process::exit(campaign::check(arg(2), arg(3) == "thorough", seed));
        }
        "worker" => {
            engine::init();
            let known = campaign::known_findings(&shim::verif(), arg(2));
            let out = campaign::worker(&campaign::Job {
                prop: arg(2),
                rerun_all: std::env::var_os("JST_RERUN").is_some(),
                base: num(3),
                from: num(4),
                stride: num(5),
                until: num(6),
                secs: arg(7).parse().expect("seconds"),
                stop: PathBuf::from(arg(8)),
                build: if cfg!(feature = "oniguruma") { "oniguruma" } else { "default" },
                known,
            });
            println!("{}", serde_json::to_string(&out).unwrap());
        }
        "replay" => {
            fixed_addresses();
            engine::init();
            std::process::exit(campaign::replay(&PathBuf::from(arg(2))));
        }
        // One generated case, as JSON, and its verdict.
        "case" => {
            fixed_addresses();
            engine::init();
            let mut env = campaign::Env::default();
            let seed = if arg(4).is_empty() { num(3) } else { campaign::case_seed(num(3), arg(2), num(4)) };
            let c = campaign::gen_case(arg(2), seed, &mut env);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            let v = campaign::judge(arg(2), &c, &mut env);
            println!("{v:?} digest {:016x}", env.digest);
            for _ in 0..std::env::var("JST_TIMES").map_or(0, |s| s.parse().unwrap()) {
                env.digest = 0;
                let v = campaign::judge(arg(2), &c, &mut env);
                println!("{v:?} digest {:016x}", env.digest);
            }
        }
        _ => {
            eprintln!("usage: jstsim check <property> [quick|thorough] | replay <file> | case <property> <seed> <index>");
            std::process::exit(2);
        }
    }
}
