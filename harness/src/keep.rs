//! C39: what repeated conversions leave behind. C40: what the program touches.
use crate::cli;
use crate::common::*;
use crate::engine::scratch;
use crate::hist;
use crate::rng::Rng;
use crate::snake;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Barrier, OnceLock};

// --- C39 -------------------------------------------------------------------
pub fn c39_gen(r: &mut Rng) -> Value {
    let mut pool: Vec<Value> = hist::gen(r)["pool"].as_array().cloned().unwrap_or_default();
    r.shuffle(&mut pool);
    let mut ops = vec![];
    let mut size = 0;
    for op in pool {
        let n = op.to_string().len();
        if ops.len() < 6 && size + n < 10_000 {
            size += n;
            ops.push(op);
        }
    }
    let mut words: Vec<Value> = snake::c12_gen(r)["strings"].as_array().cloned().unwrap_or_default();
    words.retain(|w| w.as_str().map_or(false, |s| s.len() < 2000));
    words.truncate(4);
    json!({"pool": ops, "words": words, "threads": *r.pick(&[1, 1, 2, 4]), "logged": r.coin()})
}

fn held() -> (u64, u64, u64) {
    let m = unsafe { libc::mallinfo2() };
    let count = |d: &str| std::fs::read_dir(d).map(|l| l.count() as u64).unwrap_or(0);
    ((m.uordblks + m.hblkhd) as u64, count("/proc/self/fd"), count("/proc/self/task"))
}

/// Child: passes over the pool in batches; what is held after each.
pub fn child(c: &Value) -> i32 {
    let pool: Vec<Value> = c["pool"].as_array().cloned().unwrap_or_default();
    let words: Vec<String> = c["words"].as_array().cloned().unwrap_or_default().iter().filter_map(|w| w.as_str().map(String::from)).collect();
    let threads = c["threads"].as_u64().unwrap_or(1).max(1);
    let first = c["passes"].as_u64().unwrap_or(4);
    if c["logged"] == true {
        log::set_max_level(log::LevelFilter::Trace);
    }
    let plan: Vec<u64> = std::iter::once(3).chain((0..5).map(|k| first << k)).collect();
    let mut log = Vec::with_capacity(plan.len());
    // the threads stay: what belongs to a thread counts, too
    let gate = Barrier::new(threads as usize + 1);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                for n in &plan {
                    for _ in 0..*n {
                        for op in &pool {
                            let t = if op["target"] == "bigquery" { Target::Bq } else { Target::Avro };
                            let _ = conv(t, &op["schema"], &Ctx::from_json(&op["ctx"]));
                        }
                        for w in &words {
                            let _ = catch(|| jst::casing::to_snake_case(w));
                        }
                    }
                    gate.wait();
                    gate.wait();
                }
            });
        }
        for _ in &plan {
            gate.wait();
            log.push(held());
            gate.wait();
        }
    });
    println!("{}", json!(log));
    0
}

/// Differences that grow with the number of passes.
fn grows(v: &[u64], least: u64) -> bool {
    let d: Vec<i64> = v.windows(2).map(|w| w[1] as i64 - w[0] as i64).collect();
    d.len() == 5 && d.iter().all(|x| *x > 0) && d[4] as u64 >= least && (3..5).all(|i| d[i] * 10 >= d[i - 1] * 13)
}

pub fn c39_judge(c: &Value, st: &mut Stats) -> Verdict {
    let mut passes = 4;
    let mut first = String::new();
    loop {
        let mut case = c.clone();
        case["passes"] = json!(passes);
        let t0 = std::time::Instant::now();
        let log = match hist::feed(&["keep"], &case.to_string()) {
            Ok(v) => v,
            Err(_) => return Verdict::Skip, // a process that dies is C02's business
        };
        let col = |i: usize| -> Vec<u64> { log.as_array().map(|l| l.iter().map(|x| x[i].as_u64().unwrap_or(0)).collect()).unwrap_or_default() };
        let (mem, fds, tasks) = (col(0), col(1), col(2));
        let all = 3 + passes * 31;
        let threads = c["threads"].as_u64().unwrap_or(1);
        st.add("conversions_repeated", all * threads * c["pool"].as_array().map_or(0, |p| p.len() as u64));
        st.add("measurements", mem.len() as u64 * 3);
        let what = if grows(&mem, 512) {
            "bytes of memory"
        } else if grows(&fds, 8) {
            "open files"
        } else if grows(&tasks, 8) {
            "threads"
        } else {
            if passes == 4 && mem.iter().all(|m| m.abs_diff(mem[0]) < 1024) {
                st.inc("processes_whose_memory_stays_within_1_KiB");
            }
            st.inc("processes");
            return Verdict::Held(c["pool"].as_array().map_or(false, |p| p.len() > 3));
        };
        let says = format!(
            "{} held by the process after 3, {}, {}, … {} passes over the same conversions on {} thread(s): {:?}",
            what,
            3 + passes,
            3 + 3 * passes,
            all,
            threads,
            if what == "bytes of memory" { &mem } else if what == "open files" { &fds } else { &tasks }
        );
        if passes > 4 {
            return Verdict::Bad("held".into(), format!("{}; {}", first, says));
        }
        // again, with more passes: something that fills up to a bound does not grow forever
        first = says;
        st.inc("processes_looked_at_again");
        let took = t0.elapsed().as_millis().max(1) as u64;
        passes = (4 * 4000 / took).clamp(16, 64);
    }
}

// --- C40 -------------------------------------------------------------------
const KEYS: &[&str] = &[
    "HOME", "TMPDIR", "LANG", "LC_ALL", "TZ", "TERM", "COLUMNS", "NO_COLOR", "CLICOLOR_FORCE", "CI", "DEBUG", "USER", "XDG_CONFIG_HOME", "SOURCE_DATE_EPOCH", "http_proxy",
];

pub fn c40_gen(r: &mut Rng) -> Value {
    let mut c = cli::c25_gen(r);
    if r.chance(0.25) {
        // refused, or no schema at all
        c["schema"] = r.pick(&[json!({"type": "array"}), json!({"type": "strin"}), json!({"oneOf": []}), json!([]), json!(17), json!({"properties": 3})]).clone();
    }
    c["chunks"] = json!([]);
    if r.chance(0.3) && c["schema"]["properties"].is_object() {
        // something for every option
        c["schema"]["properties"]["aTuple-x"] = json!({"type": "array", "items": [{"type": "integer"}, {"type": "string"}], "minItems": 2, "maxItems": 2});
        c["schema"]["properties"]["aMap"] = json!({"type": "object", "additionalProperties": {}});
        c["schema"]["required"] = json!(["aTuple-x"]);
    }
    let mut env = serde_json::Map::new();
    for k in KEYS {
        if r.chance(0.5) {
            env.insert(k.to_string(), json!(*r.pick(&["", "1", "0", "C", "de_DE.UTF-8", "tr_TR.UTF-8", "/nonexistent", "always", "Asia/Tokyo", "dumb", "20", "200"])));
        }
    }
    if r.chance(0.3) {
        env.insert("RUST_LOG".into(), json!(*r.pick(&["off", "error", "info", "trace", "nonsense=level"])));
    }
    // names that the code under test may know
    let upper: Vec<&String> = crate::gen::words()
        .iter()
        .filter(|w| w.len() > 2 && w.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !known_variable(w))
        .collect();
    for w in upper {
        for rest in ["RESOLVE", "TYPE", "NORMALIZE_CASE", "FORCE_NULLABLE", "TUPLE_STRUCT", "ALLOW_MAPS_WITHOUT_VALUE", "PATH", ""] {
            if r.chance(0.4) {
                let k = if w.ends_with('_') { format!("{}{}", w, rest) } else { w.to_string() };
                env.insert(k, json!(*r.pick(&["1", "true", "0", "", "drop", "panic", "bigquery", ".*", "/tmp"])));
            }
        }
    }
    c["env"] = Value::Object(env);
    // what the variables that the program looks for are set to
    c["value"] = json!(*r.pick(&["1", "true", "yes", "debug", "bigquery", "avro", "drop", "panic", "/tmp", "10000", "200", "x", ".*", "0", "", "C", "tr_TR.UTF-8"]));
    c["neighbours"] = json!(r.coin());
    // names of files and addresses in the schema, which are not followed
    for _ in 0..r.below(3) {
        let ps = crate::sutil::positions(&c["schema"], true);
        let at = r.pick(&ps).clone();
        if let Some(x) = crate::sutil::get_mut(&mut c["schema"], &at).and_then(|x| x.as_object_mut()) {
            let k = *r.pick(&["$ref", "$ref", "$schema", "$id", "id", "$include", "extends"]);
            let v = *r.pick(&["config.json", "file:config.json", "./config.json#/a", "file:///etc/hostname", "http://127.0.0.1:9/s.json", "schema.avsc"]);
            x.insert(k.into(), json!(v));
        }
    }
    c["second"] = json!(*r.pick(&[1, 86_400, 951_782_399, 1_000_000_000, 1_709_164_800, 1_735_689_599, 2_147_483_647, 2_147_483_648, 4_102_444_800u64]));
    c["refdir"] = json!(r.coin());
    c
}

/// The library that records what the program asks the system for.
fn shim() -> Result<PathBuf, String> {
    static S: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    S.get_or_init(|| {
        let verif = crate::engine::Env::get().verif;
        let _ = std::fs::create_dir_all(verif.join("out"));
        let so = verif.join("out/watch.so");
        let tmp = verif.join(format!("out/watch-{}.so", std::process::id()));
        let src = verif.join("stubs/watch.c");
        let mut err = String::new();
        for cc in ["cc", "gcc", "clang"] {
            match std::process::Command::new(cc).args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&tmp).arg(&src).arg("-ldl").output() {
                Ok(o) if o.status.success() => {
                    // several may build it at once
                    return std::fs::rename(&tmp, &so).map(|_| so).map_err(|e| e.to_string());
                }
                Ok(o) => err = String::from_utf8_lossy(&o.stderr).into(),
                Err(e) => err = e.to_string(),
            }
        }
        Err(err)
    })
    .clone()
}

fn tree(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let f = e.path();
            if f.is_dir() {
                todo.push(f.clone());
                m.insert(f, vec![]);
            } else {
                m.insert(f.clone(), std::fs::read(&f).unwrap_or_default());
            }
        }
    }
    m
}

/// Variables that are documented (the level of the log), or that the Rust
/// runtime looks up by itself.
fn known_variable(k: &str) -> bool {
    k == "RUST_LOG" || k == "RUST_LOG_STYLE" || k == "RUST_MIN_STACK" || k == "RUST_BACKTRACE" || k == "RUST_LIB_BACKTRACE"
}

fn system_path(p: &str) -> bool {
    ["/proc/", "/sys/", "/etc/", "/lib", "/usr/", "/dev/null", "/dev/urandom", "/dev/random", "/dev/tty", "/dev/std"].iter().any(|x| p.starts_with(x))
}

pub fn c40_judge(c: &Value, st: &mut Stats) -> Verdict {
    let so = match shim() {
        Ok(s) => s,
        Err(e) => panic!("the recording library does not compile: {}", e),
    };
    let text = c["schema"].to_string();
    let mut s = match cli::setup(c, text.as_bytes(), "c40") {
        Ok(s) => s,
        Err(_) => return Verdict::Skip,
    };
    let dir = s.dir.clone();
    let done = |v: Verdict| {
        let _ = std::fs::remove_dir_all(&dir);
        v
    };
    if c["neighbours"] == true {
        for f in ["config.json", "schema.avsc", "schema.bq", "package.json", ".env"] {
            let _ = std::fs::write(dir.join(f), "{\"type\": \"string\", \"normalize_case\": true}");
        }
    }
    if s.sp.cwd.is_none() {
        s.sp.cwd = Some(dir.clone());
    }
    let logs = scratch("c40log");
    let done = |v: Verdict| {
        let _ = std::fs::remove_dir_all(&logs);
        done(v)
    };
    // as it is, without any variable but the log level
    let plain = match cli::spawn(&s.sp) {
        Ok(d) => d,
        Err(_) => return done(Verdict::Skip),
    };
    let before = tree(&dir);
    // watched
    let log = logs.join("log");
    let base_env = s.sp.env.clone();
    s.sp.env.push(("LD_PRELOAD".into(), so.display().to_string()));
    s.sp.env.push(("JSTMON_WATCH".into(), log.display().to_string()));
    let seen = match cli::spawn(&s.sp) {
        Ok(d) => d,
        Err(_) => return done(Verdict::Skip),
    };
    if plain.timeout || seen.timeout {
        return done(Verdict::Skip);
    }
    let record = std::fs::read_to_string(&log).unwrap_or_default();
    let events: Vec<(&str, &str)> = record.lines().filter_map(|l| l.split_once(' ')).collect();
    if !events.iter().any(|e| e.0 == "start") {
        panic!("the recording library was not loaded");
    }
    st.add("requests_to_the_system_recorded", events.len() as u64 - 1);
    let mut vars: BTreeSet<String> = BTreeSet::new();
    for (what, arg) in &events {
        match *what {
            "start" => {}
            "getenv" => {
                vars.insert(arg.to_string());
            }
            "look" | "read" => {
                let own = s.file.as_ref().map_or(false, |f| {
                    let p = s.sp.cwd.as_ref().map_or_else(|| PathBuf::from(arg), |d| d.join(arg));
                    p == *f || std::fs::canonicalize(&p).ok().map_or(false, |q| std::fs::canonicalize(f).ok() == Some(q))
                });
                if own {
                    st.inc("reads_of_the_input_file");
                } else if *what == "look" && (arg.is_empty() || *arg == "." || dir.starts_with(arg)) {
                    st.inc("looks_at_directories_above_the_input");
                } else if system_path(arg) {
                    st.inc("reads_of_system_files");
                } else {
                    return done(Verdict::Bad("read".into(), format!("the program {} {:?}, which is not its input", if *what == "look" { "looks for" } else { "opens" }, arg)));
                }
            }
            "write" if *arg == "/dev/null" || *arg == "/dev/tty" || arg.starts_with("/dev/std") || arg.starts_with("/proc/self/fd") => {}
            _ => return done(Verdict::Bad("effect".into(), format!("the program asks the system for: {} {}", what, arg))),
        }
    }
    if tree(&dir) != before {
        return done(Verdict::Bad("files".into(), "the files next to the input are not the same afterwards".into()));
    }
    let same = |a: &cli::Done, b: &cli::Done| a.code == b.code && a.signal == b.signal && a.out == b.out;
    if !same(&plain, &seen) {
        return done(Verdict::Bad("again".into(), "two runs of the program differ".into()));
    }
    // other surroundings
    let mut runs: Vec<(String, Vec<(String, String)>, Option<PathBuf>)> = vec![];
    let env: Vec<(String, String)> = c["env"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
    runs.push((format!("with {:?}", env), env, None));
    let odd: Vec<&String> = vars.iter().filter(|v| !known_variable(v)).collect();
    let v = c["value"].as_str().unwrap_or("");
    if !odd.is_empty() {
        runs.push((format!("with {:?} = {:?}", odd, v), odd.iter().map(|k| (k.to_string(), v.to_string())).collect(), None));
    }
    st.add("variables_looked_up", vars.len() as u64);
    if c["channel"] != "relative" {
        runs.push(("in another directory".into(), vec![], Some(PathBuf::from(if c["refdir"] == true { "/" } else { "/tmp" }))));
    }
    let preload = ("LD_PRELOAD".to_string(), so.display().to_string());
    let second = c["second"].as_u64().unwrap_or(1).to_string();
    for second in [second, "1".into(), "253402300700".into()] {
        runs.push((format!("at second {}", second), vec![preload.clone(), ("JSTMON_TIME".into(), second)], None));
    }
    runs.push(("on a terminal".into(), vec![preload, ("JSTMON_TTY".into(), "1".into())], None));
    for (what, env, cwd) in runs {
        let mut sp = cli::Spawn { args: s.sp.args.clone(), stdin: s.sp.stdin.clone(), env: base_env.clone(), cwd: s.sp.cwd.clone(), ..Default::default() };
        sp.env.extend(env);
        if cwd.is_some() {
            sp.cwd = cwd;
        }
        let o = match cli::spawn(&sp) {
            Ok(o) => o,
            Err(_) => continue,
        };
        st.inc("runs_in_other_surroundings");
        if o.timeout {
            continue;
        }
        if !same(&plain, &o) {
            return done(Verdict::Bad(
                "surroundings".into(),
                format!(
                    "the program gives {:?} {:.200}, and {} it gives {:?} {:.200}",
                    plain.code,
                    String::from_utf8_lossy(&plain.out),
                    what,
                    o.code,
                    String::from_utf8_lossy(&o.out)
                ),
            ));
        }
    }
    let ok = plain.code == Some(0);
    st.inc(if ok { "conversions" } else { "refusals" });
    done(Verdict::Held(ok))
}
