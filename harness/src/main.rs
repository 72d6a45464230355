//! jstmon: runtime monitors for the jsonschema-transpiler.
mod c04;
mod cli;
mod common;
mod docs;
mod engine;
mod gen;
mod helper;
mod hist;
mod compare;
mod ingest;
mod keep;
mod model;
mod names;
mod pm;
mod props;
mod pt;
mod rng;
mod scripts;
mod snake;
mod sutil;
mod view;

use common::*;
use serde_json::Value;
use std::time::Instant;

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn file_json(p: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(p).expect("file")).expect("JSON")
}
fn stdin_json() -> Value {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).expect("stdin");
    serde_json::from_str(&s).expect("JSON")
}

fn main() {
    install_hooks();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => {
            let t0 = Instant::now();
            let env = engine::Env::get();
            let id = arg(2);
            let exe = std::env::current_exe().expect("exe");
            match props::find(id) {
                _ if id == "C04" => {
                    let rep = c04::run(&env);
                    engine::finish(&env, id, rep, t0, Some(c04::judge))
                }
                Some(p) if id == "C12" || id == "C39" => {
                    // the same cases in both feature builds
                    let mut rep = engine::drive(&env, p, &exe);
                    let onig = engine::other_build(&env, "JSTMON_ONIG", "target/onig/release/jstmon");
                    rep.absorb("oniguruma", engine::drive(&env, p, &onig));
                    engine::finish(&env, id, rep, t0, Some(p.judge))
                }
                Some(p) if id == "C28" => {
                    let asan = engine::other_build(&env, "JSTMON_ASAN", "target/asan/x86_64-unknown-linux-gnu/release/jstmon");
                    let mut rep = engine::drive(&env, p, &asan);
                    if rep.bad.is_empty() {
                        engine::compare_builds(&env, p, &exe, &asan, if env.thorough { 60_000 } else { p.quick }, &mut rep);
                    }
                    if env.thorough && rep.bad.is_empty() {
                        let tsan = engine::other_build(&env, "JSTMON_TSAN", "target/tsan/x86_64-unknown-linux-gnu/release/jstmon");
                        engine::race_run(&env, p, &tsan, 6_000, &mut rep);
                    }
                    engine::finish(&env, id, rep, t0, Some(p.judge))
                }
                Some(p) => {
                    let mut rep = engine::drive(&env, p, &exe);
                    if id == "C02" && env.thorough && rep.bad.is_empty() {
                        // the histories once more in a ThreadSanitizer build
                        let tsan = engine::other_build(&env, "JSTMON_TSAN", "target/tsan/x86_64-unknown-linux-gnu/release/jstmon");
                        std::env::set_var("JSTMON_HIST_EXE", &tsan);
                        std::env::set_var("TSAN_OPTIONS", "halt_on_error=1:exitcode=66");
                        std::env::set_var("VERIF_SECS", "120");
                        rep.absorb("tsan", engine::drive(&env, p, &exe));
                    }
                    engine::finish(&env, id, rep, t0, Some(p.judge))
                }
                None => {
                    eprintln!("unknown property {}", id);
                    2
                }
            }
        }
        "work" => {
            let p = props::find(arg(2)).expect("property");
            let skip: Vec<u64> = arg(7).split(',').filter_map(|s| s.parse().ok()).collect();
            let n = |i: usize| arg(i).parse::<u64>().expect("number");
            engine::work(p, n(3), n(4), n(5), std::path::Path::new(arg(6)), &skip)
        }
        "dump" => {
            let p = props::find(arg(2)).expect("property");
            engine::dump(p, arg(3).parse().expect("seed"), arg(4).parse().expect("cases"), std::path::Path::new(arg(5)), snake::observe28, snake::comparable)
        }
        "obs28" => {
            print!("{}", on_big_stack(|| snake::observe28(&file_json(arg(2))["case"])));
            0
        }
        "conv1" => hist::conv1(&stdin_json()),
        "keep" => keep::child(&stdin_json()),
        "hist" => hist::child(&stdin_json()),
        "c04child" => {
            let c = file_json(arg(2));
            let r = on_big_stack(|| c04::child(&c));
            std::fs::write(arg(3), r.to_string()).expect("write");
            0
        }
        "c04stack" => c04::stack_child(&file_json(arg(2)), arg(3).parse().expect("KiB")),
        "c04cases" => {
            for c in c04::cases(1, arg(2) != "quick") {
                println!("{}", c);
            }
            0
        }
        "replay" => {
            let v = file_json(arg(2));
            let id = v["property"].as_str().unwrap_or("").to_string();
            if v["case"]["workload"] == "work" {
                // the whole workload again
                let p = props::find(&id).expect("property");
                std::env::set_var("VERIF_SEED", v["case"]["seed"].to_string());
                let mut exe = std::env::current_exe().expect("exe");
                if id == "C28" {
                    exe = engine::other_build(&engine::Env::get(), "JSTMON_ASAN", "target/asan/x86_64-unknown-linux-gnu/release/jstmon");
                }
                let rep = engine::drive(&engine::Env::get(), p, &exe);
                println!("{:?}", rep.bad.iter().map(|b| (&b.0, &b.1)).collect::<Vec<_>>());
                std::process::exit(if rep.bad.is_empty() { 0 } else { 1 });
            }
            let judge = if id == "C04" { c04::judge } else { props::find(&id).expect("property").judge };
            on_big_stack(|| {
                let mut st = Stats::default();
                let r = judge(&v["case"], &mut st);
                println!("{:?}", r);
                match r {
                    Verdict::Bad(..) => 1,
                    _ => 0,
                }
            })
        }
        "show" => {
            // show ID seed idx
            let p = props::find(arg(2)).expect("property");
            let c = engine::case_of(p, arg(3).parse().unwrap(), arg(4).parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        _ => {
            eprintln!("jstmon check|work|replay|show");
            2
        }
    };
    std::process::exit(code);
}
