//! C04: work and stack stay bounded.
use crate::common::*;
use crate::engine::{cpu_limit, limited, Env, Report};
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::process::{Command, Stdio};

fn obj(k: &str, v: Value) -> Value {
    let mut m = Map::new();
    m.insert(k.into(), v);
    json!({"type": "object", "properties": m})
}

/// One step of nesting: (name, JSON levels it adds, constructor).
pub type Step = fn(Value, usize) -> Value;
pub const STEPS: &[(&str, usize, Step)] = &[
    ("object", 2, |v, _| obj("a", v)),
    ("object-required", 2, |v, _| json!({"type": "object", "properties": {"a": v, "b": {"type": "integer"}}, "required": ["a", "zz"]})),
    ("array", 1, |v, _| json!({"type": "array", "items": v})),
    ("map", 1, |v, _| json!({"type": "object", "additionalProperties": v})),
    ("pattern", 2, |v, _| json!({"type": "object", "patternProperties": {".*": v}})),
    ("pattern-two", 2, |v, _| json!({"type": "object", "patternProperties": {".*": v}, "additionalProperties": {"type": "object", "properties": {"k": {"type": "null"}}}})),
    ("one-of-one", 2, |v, _| json!({"oneOf": [v]})),
    ("one-of-null", 2, |v, _| json!({"oneOf": [v, {"type": "null"}]})),
    ("one-of-first-null", 2, |v, _| json!({"oneOf": [{"type": "null"}, v, {"type": "null"}]})),
    ("one-of-object", 4, |v, _| json!({"oneOf": [obj("a", v), obj("b", json!({"type": "integer"}))]})),
    ("one-of-object-last", 4, |v, _| json!({"oneOf": [obj("b", json!({"type": "integer"})), obj("c", json!({"type": "boolean"})), obj("a", v)]})),
    ("one-of-object-same", 4, |v, _| json!({"oneOf": [obj("a", v), obj("a", json!({"type": "object", "properties": {"q": {"type": "integer"}}}))]})),
    ("one-of-array", 3, |v, _| json!({"oneOf": [{"type": "array", "items": v}, {"type": "array", "items": {"type": "null"}}]})),
    ("one-of-map", 3, |v, _| json!({"oneOf": [{"type": "object", "additionalProperties": v}, {"type": "object", "additionalProperties": {"type": "null"}}]})),
    ("one-of-mixed", 2, |v, _| json!({"oneOf": [v, {"type": "string"}]})),
    ("types-object", 2, |v, _| json!({"type": ["object", "null"], "properties": {"a": v}})),
    ("types-array", 1, |v, _| json!({"type": ["array", "null"], "items": v})),
    ("types-both", 2, |v, _| json!({"type": ["object", "array"], "items": {"type": "integer"}, "properties": {"a": v}})),
    ("types-one", 2, |v, _| json!({"type": ["object"], "properties": {"a": v}})),
    ("types-array-one", 1, |v, _| json!({"type": ["array"], "items": v})),
    ("types-map", 1, |v, _| json!({"type": ["object", "null"], "additionalProperties": v})),
    ("tuple", 2, |v, _| json!({"type": "array", "items": [v], "minItems": 1, "maxItems": 1})),
    ("tuple-wide", 2, |v, _| json!({"type": "array", "items": [{"type": "integer"}, v], "maxItems": 2})),
    ("tuple-extra", 1, |v, _| json!({"type": "array", "items": [{"type": "integer"}], "additionalItems": v, "maxItems": 2})),
    ("tuple-one-of", 4, |v, _| json!({"type": "array", "items": [{"oneOf": [{"type": "null"}, v]}], "minItems": 0, "maxItems": 1})),
    ("implicit", 2, |v, _| json!({"properties": {"a": v}})),
    ("object-array", 3, |v, _| obj("a", json!({"type": "array", "items": v}))),
    ("map-array", 2, |v, _| json!({"type": "object", "additionalProperties": {"type": "array", "items": v}})),
    ("one-of-in-array", 3, |v, _| json!({"type": "array", "items": {"oneOf": [v, {"type": "null"}]}})),
    ("one-of-in-map", 3, |v, _| json!({"type": "object", "additionalProperties": {"oneOf": [v, {"type": "null"}]}})),
    ("inert", 2, |v, _| json!({"type": "integer", "definitions": {"a": v}})),
    ("inert-extra", 1, |v, _| json!({"type": "integer", "x": v})),
    ("inert-list", 1, |v, _| json!([v])),
];

/// Schemas of growing width; the size is about `n`.
pub const WIDE: &[(&str, fn(usize) -> Value)] = &[
    ("fields", |n| {
        let m: Map<String, Value> = (0..n).map(|i| (format!("f{}", i), json!({"type": "integer"}))).collect();
        json!({"type": "object", "properties": m})
    }),
    ("fields-required", |n| {
        let m: Map<String, Value> = (0..n).map(|i| (format!("f-{}", i), json!({"type": ["integer", "null"]}))).collect();
        let r: Vec<String> = m.keys().cloned().collect();
        json!({"type": "object", "properties": m, "required": r})
    }),
    ("colliding", |n| {
        let m: Map<String, Value> = (0..n)
            .map(|i| {
                let name: String = (0..12).map(|b| if i >> b & 1 == 1 { '-' } else { '_' }).collect();
                (format!("a{}", name), json!({"type": "integer"}))
            })
            .collect();
        json!({"type": "object", "properties": m})
    }),
    ("alternatives", |n| json!({"oneOf": (0..n).map(|i| obj(&format!("f{}", i), json!({"type": "integer"}))).collect::<Vec<_>>()})),
    ("alternatives-same", |n| json!({"oneOf": (0..n).map(|i| json!({"properties": {"a": {"type": "integer"}, "b": {"properties": {format!("x{}", i % 7): {"type": "number"}}}}})).collect::<Vec<_>>()})),
    ("alternatives-array", |n| json!({"oneOf": (0..n).map(|_| json!({"type": "array", "items": {"type": "integer"}})).collect::<Vec<_>>()})),
    ("alternatives-map", |n| json!({"oneOf": (0..n).map(|_| json!({"type": "object", "additionalProperties": {"type": "integer"}})).collect::<Vec<_>>()})),
    ("alternatives-atom", |n| json!({"oneOf": (0..n).map(|_| json!({"type": "string"})).collect::<Vec<_>>()})),
    ("alternatives-nested", |n| json!({"oneOf": (0..n).map(|i| json!({"oneOf": [{"properties": {"a": {"oneOf": [{"type": "integer"}, {"type": "null"}]}}}, obj(&format!("g{}", i % 9), json!({"type": "integer"}))]})).collect::<Vec<_>>()})),
    ("type-list", |n| json!({"type": (0..n).map(|_| "integer").collect::<Vec<_>>()})),
    ("type-list-object", |n| json!({"type": (0..n).map(|_| "object").collect::<Vec<_>>(), "properties": {"a": {"type": "integer"}}})),
    ("patterns", |n| {
        let m: Map<String, Value> = (0..n).map(|i| (format!("p{}", i), obj("a", json!({"type": "integer"})))).collect();
        json!({"type": "object", "patternProperties": m})
    }),
    ("tuple", |n| json!({"type": "array", "items": (0..n).map(|_| json!({"type": "integer"})).collect::<Vec<_>>(), "maxItems": n})),
    ("tuple-extra", |n| json!({"type": "array", "items": [{"type": "string"}], "additionalItems": {"type": "integer"}, "maxItems": n + 1})),
    ("long-name", |n| obj(&"aB7_".repeat(n), json!({"type": "integer"}))),
    ("long-text", |n| json!({"type": "integer", "title": "é ".repeat(n), "description": "x".repeat(n)})),
    ("inert", |n| json!({"type": "integer", "enum": (0..n).collect::<Vec<_>>(), "x": "y".repeat(n)})),
    ("json-paths", |n| {
        let m: Map<String, Value> = (0..n).map(|i| (format!("f{}", i), json!({}))).collect();
        json!({"type": "object", "properties": m, "mozPipelineMetadata": {"json_object_path_regex": "f1|f2.*"}})
    }),
];

/// One very long thing; converted on a 2 MiB thread and by the program.
pub const LONG: &[(&str, fn() -> Value)] = &[
    ("name", || obj(&"a".repeat(300_000), json!({"type": "integer"}))),
    ("name-underscores", || obj(&"_".repeat(300_000), json!({"type": "integer"}))),
    ("name-digits", || obj(&"7".repeat(300_000), json!({"type": "integer"}))),
    ("name-dots", || obj(&".-".repeat(150_000), json!({"type": "integer"}))),
    ("name-cases", || obj(&"aB".repeat(150_000), json!({"type": "integer"}))),
    ("name-capitals", || obj(&"X".repeat(300_000), json!({"type": "integer"}))),
    ("name-foreign", || obj(&"é日".repeat(100_000), json!({"type": "integer"}))),
    ("name-symbols", || obj(&"$ ".repeat(100_000), json!({"type": "integer"}))),
    ("name-required", || json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["a", "b".repeat(300_000), "_".repeat(300_000), "$".repeat(300_000)]})),
    ("text", || json!({"type": "object", "properties": {"a": {"type": "integer", "title": "é ".repeat(200_000), "description": "x\n".repeat(200_000)}}})),
    ("spaces", || json!({"type": "integer", "title": " ".repeat(300_000), "description": " ".repeat(300_000)})),
    ("type-list", || json!({"type": vec!["integer"; 50_000]})),
    ("type-list-null", || json!({"type": vec!["null"; 50_000]})),
    ("atoms", || json!({"oneOf": vec![json!({"type": "string"}); 20_000]})),
    ("mixed", || json!({"oneOf": (0..10_000).map(|i| leaf(i)).collect::<Vec<_>>()})),
    ("arrays", || json!({"oneOf": vec![json!({"type": "array", "items": {"type": "string"}}); 5_000]})),
    ("maps", || json!({"oneOf": vec![json!({"type": "object", "additionalProperties": {"type": "string"}}); 5_000]})),
    ("records", || json!({"oneOf": vec![obj("a", json!({"type": "integer"})); 3_000]})),
    ("required", || json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": (0..20_000).map(|i| format!("r{}", i)).collect::<Vec<_>>()})),
    ("fields", || json!({"type": "object", "properties": (0..2_000).map(|i| (format!("f{}", i), json!({"type": "integer"}))).collect::<Map<String, Value>>()})),
    ("patterns", || json!({"type": "object", "patternProperties": (0..5_000).map(|i| (format!("^{}", i), json!({"type": "integer"}))).collect::<Map<String, Value>>()})),
    ("pattern-name", || json!({"type": "object", "patternProperties": {"(".repeat(300_000): {"type": "integer"}}})),
    ("tuple", || json!({"type": "array", "items": vec![json!({"type": "integer"}); 5_000], "additionalItems": false})),
    ("tuple-extra", || json!({"type": "array", "items": [{"type": "integer"}], "additionalItems": {"type": "string"}, "maxItems": 5_000})),
    ("tuple-most", || json!({"type": "array", "items": [{"type": "integer"}], "additionalItems": false, "maxItems": u64::MAX, "minItems": u64::MAX})),
    ("array-most", || json!({"type": "array", "items": {"type": "integer"}, "maxItems": u64::MAX, "minItems": u64::MAX})),
    ("inert", || json!({"type": "integer", "enum": (0..50_000).collect::<Vec<_>>(), "x": "y".repeat(300_000)})),
    ("json-path", || json!({"type": "object", "properties": {"a".repeat(100_000): {}}, "mozPipelineMetadata": {"json_object_path_regex": "a+b|a*"}})),
];

fn leaf(i: usize) -> Value {
    match i % 5 {
        0 => json!({"type": "integer"}),
        1 => json!({}),
        2 => json!({"type": "null"}),
        3 => json!({"type": "object", "properties": {"z": {"type": "boolean"}}, "required": ["z"]}),
        _ => json!({"type": "array", "items": {"type": "string"}}),
    }
}

/// The nesting schema a case denotes, with `n` steps; steps cycle.
pub fn deep(steps: &[usize], n: usize, lf: usize) -> Value {
    let mut v = leaf(lf);
    for i in 0..n {
        v = STEPS[steps[i % steps.len()]].2(v, i);
    }
    v
}
/// What stands above the nesting: nothing, or a union of such schemas, which
/// then has them merged level by level.
pub const TOPS: &[&str] = &["", "twin", "twin-leaf", "twin-null", "triple", "patterns", "map-twin", "array-twin", "tuple-twin", "grouped"];
fn top(name: &str, a: Value, b: Value) -> Value {
    match name {
        "twin" => json!({"oneOf": [a.clone(), a]}),
        "twin-leaf" => json!({"oneOf": [a, b]}),
        "twin-null" => json!({"oneOf": [a, {"type": "null"}, b]}),
        "triple" => json!({"oneOf": [a.clone(), b, a]}),
        "patterns" => json!({"type": "object", "patternProperties": {"^a": a.clone(), "^b": b}, "additionalProperties": a}),
        "map-twin" => json!({"oneOf": [{"type": "object", "additionalProperties": a}, {"type": "object", "additionalProperties": b}]}),
        "array-twin" => json!({"oneOf": [{"type": "array", "items": a}, {"type": "array", "items": b}]}),
        "tuple-twin" => json!({"oneOf": [{"type": "array", "items": [a], "maxItems": 1}, {"type": "array", "items": [b], "maxItems": 1}]}),
        "grouped" => json!({"oneOf": [{"oneOf": [a.clone(), {"type": "null"}]}, {"oneOf": [b, a]}]}),
        _ => a,
    }
}
fn deep_case(case: &Value, n: usize) -> Value {
    let steps: Vec<usize> = case["steps"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let lf = case["leaf"].as_u64().unwrap_or(0) as usize;
    let name = case["top"].as_str().unwrap_or("");
    let a = deep(&steps, n, lf);
    if name.is_empty() {
        return a;
    }
    let lb = case["other"].as_u64().unwrap_or(0) as usize;
    top(name, a, deep(&steps, n, lb))
}
pub fn json_depth(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(json_depth).max().unwrap_or(0),
        Value::Array(l) => 1 + l.iter().map(json_depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn options(r: &mut Rng) -> Ctx {
    let mut c = Ctx::random(r);
    c.ts = r.chance(0.8);
    c
}

/// All cases of the check: every single step and width with several options,
/// and random mixtures of steps.
pub fn cases(seed: u64, thorough: bool) -> Vec<Value> {
    let mut out = vec![];
    let mut r = Rng::of(seed, "C04", 0);
    for i in 0..STEPS.len() {
        for lf in 0..if thorough { 5 } else { 2 } {
            // the second leaf is the one that nothing represents
            let lf = if thorough || lf == 1 { lf } else { *r.pick(&[0, 2, 3, 4]) };
            for res in [Res::Cast, Res::Drop, Res::Panic] {
                let mut c = options(&mut r);
                c.ts = true;
                c.res = res;
                if r.chance(0.3) {
                    c.re = Some(r.pick(&[".*", "a", "root", ".*list"]).to_string());
                }
                out.push(json!({"kind": "deep", "steps": [i], "leaf": lf, "ctx": c.to_json()}));
                if thorough || lf == 1 && res != Res::Panic {
                    out.push(json!({"kind": "stack", "steps": [i], "leaf": lf, "ctx": c.to_json()}));
                }
            }
        }
    }
    for i in 0..WIDE.len() {
        for _ in 0..if thorough { 4 } else { 1 } {
            let mut c = options(&mut r);
            c.ts = true;
            out.push(json!({"kind": "wide", "family": WIDE[i].0, "ctx": c.to_json()}));
        }
    }
    // the same below a union: every step, one kind of union each
    for i in 0..STEPS.len() {
        let mut tops: Vec<usize> = (1..TOPS.len()).collect();
        r.shuffle(&mut tops);
        let k = if thorough { tops.len() } else { 3 };
        // the plain pair always
        for t in std::iter::once(1).chain(tops.into_iter().filter(|t| *t != 1).take(k - 1)) {
            let mut c = options(&mut r);
            c.ts = true;
            let kind = if r.chance(0.2) { "stack" } else { "deep" };
            // leaves that merge, mostly
            let (lf, other) = *r.pick(&[(0, 0), (3, 3), (4, 4), (0, 2), (0, 1), (3, 4)]);
            out.push(json!({"kind": kind, "steps": [i], "leaf": lf, "other": other, "top": TOPS[t], "ctx": c.to_json()}));
        }
    }
    for l in LONG {
        for _ in 0..if thorough { 6 } else { 2 } {
            let mut c = options(&mut r);
            c.ts = true;
            out.push(json!({"kind": "stack", "family": l.0, "ctx": c.to_json()}));
        }
    }
    let mixes = if thorough { 1500 } else { 100 };
    for k in 0..mixes {
        let m = r.range(2, 4);
        let steps: Vec<usize> = (0..m).map(|_| r.below(STEPS.len())).collect();
        let c = options(&mut r);
        let kind = if k % 3 == 0 { "stack" } else { "deep" };
        let t = if r.chance(0.4) { r.below(TOPS.len()) } else { 0 };
        let lf = r.below(5);
        let other = if r.coin() { lf } else { r.below(5) };
        out.push(json!({"kind": kind, "steps": steps, "leaf": lf, "other": other, "top": TOPS[t], "ctx": c.to_json()}));
    }
    out
}

fn cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn measure(s: &Value, ctx: &Ctx, t: Target) -> (u64, u64, u64) {
    alloc_reset();
    let c0 = cpu_ns();
    let out = conv(t, s, ctx);
    let (n, b) = alloc_stats();
    drop(out);
    (n, b, cpu_ns() - c0)
}

/// Growth of the work between sizes: at most this exponent per doubling.
pub const MAX_EXP: f64 = 4.5;

/// Child process: measure a family; prints one JSON line.
pub fn child(case: &Value) -> Value {
    let ctx = Ctx::from_json(&case["ctx"]);
    let sizes: &[usize] = match case["kind"].as_str() {
        Some("wide") => &[8, 16, 32, 64, 128, 256],
        _ => &[4, 8, 12, 16, 24, 32, 48, 64, 96],
    };
    let mut rows = vec![];
    for t in TARGETS {
        let mut pts: Vec<(f64, f64)> = vec![];
        for n in sizes {
            let s = match case["kind"].as_str() {
                Some("wide") => {
                    let f = WIDE.iter().find(|w| Some(w.0) == case["family"].as_str()).expect("family");
                    f.1(*n)
                }
                _ => {
                    deep_case(case, *n)
                }
            };
            let size = s.to_string().len();
            let (c, b, ns) = measure(&s, &ctx, t);
            pts.push((size as f64, c as f64));
            rows.push(json!({"target": format!("{:?}", t), "n": n, "size": size, "allocations": c, "bytes": b, "cpu_us": ns / 1000}));
            // compare with the size nearest to half of this one
            if let Some((s0, c0)) = pts.iter().rev().skip(1).find(|p| p.0 * 1.8 <= size as f64) {
                let e = (c as f64 / c0).ln() / (size as f64 / s0).ln();
                if e > MAX_EXP && c > 20_000 {
                    return json!({"bad": format!("{:?}: {} allocations for {} bytes of schema, {} for {}: growth exponent {:.1}", t, c0, s0, c, size, e), "rows": rows});
                }
            }
        }
    }
    json!({"rows": rows})
}

/// Child process: deepest acceptable schema on a 2 MiB thread.
pub fn stack_schema(case: &Value) -> Value {
    if let Some(l) = case["family"].as_str() {
        return LONG.iter().find(|x| x.0 == l).expect("family").1();
    }
    let mut best = deep_case(case, 1);
    for n in 2..200 {
        let v = deep_case(case, n);
        if json_depth(&v) >= 128 {
            break;
        }
        best = v;
    }
    best
}
pub fn stack_child(case: &Value, kib: usize) -> i32 {
    let ctx = Ctx::from_json(&case["ctx"]);
    let s = stack_schema(case);
    std::thread::Builder::new()
        .stack_size(kib << 10)
        .spawn(move || {
            for t in TARGETS {
                let _ = conv(t, &s, &ctx);
            }
            // dropping is the harness's own business
            std::mem::forget(s);
        })
        .unwrap()
        .join()
        .unwrap();
    0
}

pub fn judge(case: &Value, st: &mut Stats) -> Verdict {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let dir = crate::engine::scratch("c04");
    let f = dir.join("case.json");
    let o = dir.join("out.json");
    let _ = std::fs::write(&f, case.to_string());
    let v = (|| {
        if case["kind"] == "stack" {
            let mut cmd = Command::new(&exe);
            cmd.arg("c04stack").arg(&f).arg("2048").stdout(Stdio::null()).stderr(Stdio::null());
            cpu_limit(&mut cmd, 60);
            match limited(cmd, 400) {
                Ok((Some(s), _)) if s.success() => st.inc("deep_schemas_on_2MiB_thread"),
                Ok((Some(s), _)) if s.signal().is_some() => {
                    return Verdict::Bad("stack".into(), format!("conversion of a schema of JSON depth {}{} on a 2 MiB thread: signal {}", json_depth(&stack_schema(case)), case["family"].as_str().map(|f| format!(" (very long: {})", f)).unwrap_or_default(), s.signal().unwrap()))
                }
                x => return Verdict::Bad("harness".into(), format!("{:?}", x)),
            }
            // the real program on its main thread
            let s = stack_schema(case);
            let input = dir.join("schema.json");
            let _ = std::fs::write(&input, s.to_string());
            std::mem::forget(s);
            for t in ["avro", "bigquery"] {
                let mut cmd = Command::new(exe.parent().unwrap().join("jst-cli"));
                cmd.arg("-t").arg(t).args(crate::cli::flags(&Ctx::from_json(&case["ctx"]))).arg(&input).stdout(Stdio::null()).stderr(Stdio::null());
                cpu_limit(&mut cmd, 60);
                match limited(cmd, 400) {
                    Ok((Some(s), _)) if s.signal().is_none() => st.inc("deep_schemas_through_the_program"),
                    Ok((Some(s), _)) => return Verdict::Bad("cli-stack".into(), format!("the program dies with signal {}", s.signal().unwrap())),
                    x => return Verdict::Bad("harness".into(), format!("{:?}", x)),
                }
            }
            return Verdict::Held(true);
        }
        let mut cmd = Command::new(&exe);
        cmd.arg("c04child").arg(&f).arg(&o).stdout(Stdio::null()).stderr(Stdio::null());
        cpu_limit(&mut cmd, 60);
        match limited(cmd, 600) {
            Ok((Some(s), _)) if s.success() => {}
            Ok((Some(s), _)) if s.signal() == Some(libc::SIGXCPU) || s.signal() == Some(libc::SIGKILL) => {
                return Verdict::Bad("work".into(), "conversion used more than 60 s of processor time on schemas of a few kilobytes".into())
            }
            Ok((Some(s), _)) if s.signal().is_some() => return Verdict::Bad("crash".into(), format!("signal {} while converting schemas of a few kilobytes", s.signal().unwrap())),
            x => return Verdict::Bad("harness".into(), format!("{:?}", x)),
        }
        let r: Value = std::fs::read_to_string(&o).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
        if let Some(b) = r["bad"].as_str() {
            return Verdict::Bad("growth".into(), b.to_string());
        }
        for row in r["rows"].as_array().cloned().unwrap_or_default() {
            st.inc("sizes_measured");
            st.add("allocations_counted", row["allocations"].as_u64().unwrap_or(0));
        }
        Verdict::Held(r["rows"].as_array().map(|l| !l.is_empty()).unwrap_or(false))
    })();
    let _ = std::fs::remove_dir_all(&dir);
    v
}

pub fn run(env: &Env) -> Report {
    let mut rep = Report {
        rule: "families of schemas that grow in depth (33 single nesting steps and random mixtures), width, alternatives, names and texts; allocations counted per size inside a child with a processor-time limit, exponent per doubling of the size bounded; and the deepest schemas below the reader's limit on a 2 MiB thread and through the real program; every case is non-trivial once its measurements exist".into(),
        ..Report::default()
    };
    let cs = cases(env.seed, env.thorough);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let acc = std::sync::Mutex::new(&mut rep);
    std::thread::scope(|sc| {
        for _ in 0..crate::engine::THREADS {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= cs.len() {
                    break;
                }
                let mut st = Stats::default();
                let v = judge(&cs[i], &mut st);
                let mut rep = acc.lock().unwrap();
                rep.evaluations += 1;
                for (k, n) in st.counts {
                    *rep.counters.entry(k).or_insert(0) += n;
                }
                match v {
                    Verdict::Held(true) => {
                        rep.distinct += 1;
                        if rep.samples.len() < 3 {
                            rep.samples.push(cs[i].clone());
                        }
                    }
                    Verdict::Bad(s, t) if s == "harness" => rep.errors.push(t),
                    Verdict::Bad(s, t) => rep.bad.push((s, t, cs[i].clone())),
                    _ => {}
                }
            });
        }
    });
    rep
}
