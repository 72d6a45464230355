//! C02: histories of conversions against fresh processes.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Barrier;
use std::time::Instant;

fn small(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.nodes = *r.pick(&[2, 5, 12]);
    p.p_desc = 0.2;
    p.w_tuple = 2;
    p.w_oneof = 5;
    p.w_json = 4;
    let mut s = gen::schema(r, &p);
    if r.chance(0.3) && s.is_object() {
        s["mozPipelineMetadata"] = json!({"json_object_path_regex": *r.pick(&["a", ".*", "foo|b", "", "x"])});
    }
    s
}

/// one atomic type replaced by another one with as many letters
fn swap_type(r: &mut Rng, mut s: Value) -> Value {
    let ps = crate::sutil::positions(&s, true);
    for _ in 0..8 {
        let p = r.pick(&ps);
        if let Some(x) = crate::sutil::get_mut(&mut s, p) {
            let t = match x["type"].as_str() {
                Some("integer") => "boolean",
                Some("boolean") => "integer",
                Some("number") => "string",
                Some("string") => "number",
                _ => continue,
            };
            x["type"] = json!(t);
            break;
        }
    }
    s
}

pub fn gen(r: &mut Rng) -> Value {
    let mut schemas: Vec<Value> = (0..r.range(2, 5)).map(|_| small(r)).collect();
    // near twins: same keys, one detail different
    let twin = {
        let mut t = schemas[0].clone();
        if let Some(m) = t.as_object_mut() {
            match r.below(4) {
                0 => {
                    m.insert("description".into(), json!("twin"));
                }
                1 => {
                    m.insert("title".into(), json!("A"));
                }
                2 => {
                    m.insert("required".into(), json!(["a", "b", "c", "foo", "x"]));
                }
                _ => {
                    m.insert("properties".into(), json!({"twin-Name": {"type": "integer"}}));
                }
            }
        }
        t
    };
    schemas.push(twin);
    // a twin with another type of the same spelling length somewhere
    for _ in 0..r.range(1, 2) {
        let base = r.pick(&schemas).clone();
        let t = swap_type(r, base);
        schemas.push(t);
    }
    // versions of one schema keep what identifies it
    if r.chance(0.5) {
        let k = *r.pick(&["$id", "$id", "id", "title", "description", "$schema", "$comment", "version"]);
        for s in schemas.iter_mut().filter(|s| s.is_object()) {
            s[k] = json!("https://example.com/schema/1");
        }
    }
    // names that normalise differently under the options
    schemas.push(json!({"type": "object", "properties": {"fooBar": {}, "a-b": {"type": "string"}, "été": {"type": "integer"}}, "required": ["fooBar", "a-b"]}));
    // failing conversions
    schemas.push(r.pick(&[json!({"type": "array"}), json!({"type": "strin"}), json!({"oneOf": []}), json!({"type": "array", "items": [{"type": "integer"}]}), json!([]), json!({"mozPipelineMetadata": {"json_object_path_regex": "("}, "properties": {"a": {}}})]).clone());
    let mut pool = vec![];
    for s in &schemas {
        for _ in 0..r.range(1, 3) {
            let mut c = Ctx::random(r);
            if r.chance(0.25) {
                c.re = Some(r.pick(&["a", ".*", "foo", "(", "root"]).to_string());
            }
            let t = if r.coin() { "avro" } else { "bigquery" };
            pool.push(json!({"schema": s, "ctx": c.to_json(), "target": t}));
            if r.coin() {
                // the same again with one option changed
                let mut d = c.clone();
                match r.below(6) {
                    0 => d.nc = !d.nc,
                    1 => d.fnull = !d.fnull,
                    2 => d.ts = !d.ts,
                    3 => d.mw = !d.mw,
                    4 => d.re = Some(".*".into()),
                    _ => d.res = *r.pick(&[Res::Cast, Res::Drop, Res::Panic]),
                }
                pool.push(json!({"schema": s, "ctx": d.to_json(), "target": if r.coin() { "avro" } else { "bigquery" }}));
            }
        }
    }
    let threads = *r.pick(&[1, 2, 4, 8]);
    let mut seqs: Vec<Vec<usize>> = (0..threads).map(|_| (0..if threads == 1 { 60 } else { 30 }).map(|_| r.below(pool.len())).collect()).collect();
    // many times the same: [index, times]
    let mut many = vec![];
    if r.chance(0.3) {
        let n = *r.pick(&[100, 300, 700, 1100, 1500, 3000, 70_000]);
        let n = if n > 3000 && !r.chance(0.3) { 600 } else { n };
        let failing: Vec<usize> = (0..pool.len()).filter(|i| pool[*i]["schema"] == schemas[schemas.len() - 1]).collect();
        let i = if !failing.is_empty() && r.chance(0.7) { *r.pick(&failing) } else { r.below(pool.len()) };
        if pool[i].to_string().len() * n < 20_000_000 {
            for s in seqs.iter_mut() {
                if r.chance(0.7) {
                    many.push(json!([i, n]));
                    // and then all of the others
                    s.extend(0..pool.len());
                } else {
                    many.push(Value::Null);
                }
            }
        }
    }
    json!({"pool": pool, "seqs": seqs, "many": many})
}

fn run_one(op: &Value) -> String {
    let t = if op["target"] == "bigquery" { Target::Bq } else { Target::Avro };
    let schema = op["schema"].clone();
    let r = conv(t, &schema, &Ctx::from_json(&op["ctx"]));
    if schema != op["schema"] {
        return "the caller's schema was changed".into();
    }
    match r {
        Ok(v) => v.to_string(),
        Err(_) => "refused".into(),
    }
}

/// Child: one conversion in a fresh process.
pub fn conv1(op: &Value) -> i32 {
    println!("{}", json!(run_one(op)));
    0
}

/// Child: the whole history; prints every result and the time of call and return.
pub fn child(case: &Value) -> i32 {
    let pool: Vec<Value> = case["pool"].as_array().unwrap().clone();
    let seqs: Vec<Vec<usize>> = case["seqs"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
    let many: Vec<Option<(usize, u64)>> =
        (0..seqs.len()).map(|t| Some((case["many"][t][0].as_u64()? as usize, case["many"][t][1].as_u64()?))).collect();
    let barrier = Barrier::new(seqs.len());
    let t0 = Instant::now();
    let mut all: Vec<Value> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = seqs
            .iter()
            .zip(&many)
            .map(|(s, many)| {
                let (pool, barrier) = (&pool, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    let mut log = vec![];
                    if let Some((i, n)) = many {
                        let a = t0.elapsed().as_nanos() as u64;
                        let first = run_one(&pool[*i]);
                        let mut last = first.clone();
                        let mut k = 1;
                        while k < *n && last == first {
                            last = run_one(&pool[*i]);
                            k += 1;
                        }
                        let b = t0.elapsed().as_nanos() as u64;
                        log.push(json!([i, a, b, first, k - 1]));
                        log.push(json!([i, b, b, last]));
                    }
                    for i in s {
                        let a = t0.elapsed().as_nanos() as u64;
                        let o = run_one(&pool[*i]);
                        let b = t0.elapsed().as_nanos() as u64;
                        log.push(json!([i, a, b, o]));
                    }
                    log
                })
            })
            .collect();
        for h in hs {
            all.push(json!(h.join().unwrap()));
        }
    });
    println!("{}", json!(all));
    0
}

pub fn feed(args: &[&str], input: &str) -> Result<Value, String> {
    let exe = std::env::var_os("JSTMON_HIST_EXE").map(std::path::PathBuf::from).unwrap_or_else(|| std::env::current_exe().expect("exe"));
    let exe = if args[0] == "hist" { exe } else { std::env::current_exe().expect("exe") };
    let mut cmd = Command::new(exe);
    if args[0] == "keep" {
        // what is kept for reuse does not count as held
        cmd.env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0");
    }
    let mut ch = cmd.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut w = ch.stdin.take().unwrap();
    let input = input.to_string();
    let th = std::thread::spawn(move || {
        let _ = w.write_all(input.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = th.join();
    if !o.status.success() {
        let e: String = String::from_utf8_lossy(&o.stderr).chars().take(1500).collect();
        return Err(format!("{:?} {}", o.status, e));
    }
    serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
}

pub fn judge(c: &Value, st: &mut Stats) -> Verdict {
    let pool = c["pool"].as_array().cloned().unwrap_or_default();
    let mut fresh = vec![];
    for op in &pool {
        match feed(&["conv1"], &op.to_string()) {
            Ok(v) => fresh.push(v.as_str().unwrap_or("").to_string()),
            Err(_) => fresh.push("process died".into()),
        }
        st.inc("fresh_processes");
    }
    let h = match feed(&["hist"], &c.to_string()) {
        Ok(v) => v,
        Err(e) => {
            if fresh.iter().any(|f| f == "process died") {
                return Verdict::Skip; // not about history
            }
            return Verdict::Bad("died".into(), format!("the process of the history ended with {}", e));
        }
    };
    let mut iv: Vec<(u64, u64)> = vec![];
    for (t, th) in h.as_array().cloned().unwrap_or_default().iter().enumerate() {
        for (k, e) in th.as_array().cloned().unwrap_or_default().iter().enumerate() {
            let i = e[0].as_u64().unwrap_or(0) as usize;
            let got = e[3].as_str().unwrap_or("");
            st.add("conversions_in_histories", e[4].as_u64().unwrap_or(1));
            if got == "refused" {
                st.inc("refusals_in_histories");
            }
            iv.push((e[1].as_u64().unwrap_or(0), e[2].as_u64().unwrap_or(0)));
            if got != fresh[i] {
                return Verdict::Bad(
                    "history".into(),
                    format!("thread {} operation {}: {} gives {:.300}, in a fresh process {:.300}", t, k, short(&pool[i]), got, fresh[i]),
                );
            }
        }
    }
    iv.sort();
    let mut over = 0u64;
    for i in 0..iv.len() {
        for j in i + 1..iv.len() {
            if iv[j].0 >= iv[i].1 {
                break;
            }
            over += 1;
        }
    }
    st.add("overlapping_pairs_of_conversions", over);
    let kinds: std::collections::BTreeSet<&String> = fresh.iter().collect();
    st.inc("histories");
    Verdict::Held(kinds.len() > 2)
}
