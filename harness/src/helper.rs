//! C32: the repository's sample-data helper as a process, on real Avro output.
//! Its two libraries are replaced by stand-ins that record what it appends.
use crate::common::*;
use crate::docs::{c18_gen, document};
use crate::engine::{limited, scratch, Env};
use crate::names;
use crate::pm::sc;
use crate::rng::Rng;
use crate::view::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};

const SCRIPT: &str = "/repo/scripts/mps-generate-avro-data-helper.py";
const DOCS: usize = 12;

pub fn c32_gen(r: &mut Rng) -> Value {
    let mut c = c18_gen(r);
    c["ctx"]["normalize_case"] = json!(false);
    c
}

/// The datum (in the stand-in's notation) against the document and its type.
pub fn same(v: &Value, a: &AV, d: &Value, path: &str, n: &mut u64) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}: {} for the document value {} of type {:?}: {}", path, short(d), short(v), short_type(a), what));
    if v.is_null() && (a.nullable || a.t == AT::Null) {
        return if d.is_null() { Ok(()) } else { bad("expected null") };
    }
    match &a.t {
        AT::Null => bad("a value for null"),
        AT::Prim(p) => {
            *n += 1;
            match p.as_str() {
                "string" => match (v, d) {
                    (Value::String(x), Value::String(y)) if x == y => Ok(()),
                    (Value::String(_), _) => bad("text changed"),
                    (_, Value::String(y)) => match serde_json::from_str::<Value>(y) {
                        Ok(back) if &back == v => Ok(()),
                        _ => bad("not the JSON text of the value"),
                    },
                    _ => bad("not text"),
                },
                "bytes" => {
                    let want: Vec<u8> = v.as_str().unwrap_or("").bytes().collect();
                    if v.is_string() && d["$bytes"] == json!(want) {
                        Ok(())
                    } else {
                        bad("not the bytes of the text")
                    }
                }
                _ if v == d => Ok(()),
                _ => bad("value changed"),
            }
        }
        AT::Map(x) => match (v, pairs(d)) {
            (Value::Object(m), Some(l)) => {
                if m.len() != l.len() {
                    return bad("number of keys changed");
                }
                for (k, sub) in m {
                    match l.iter().find(|(y, _)| y == k) {
                        Some((_, y)) => same(sub, x, y, &format!("{}{{{}}}", path, k), n)?,
                        None => return bad("a key is lost"),
                    }
                }
                Ok(())
            }
            _ => bad("not a map"),
        },
        AT::Array(x) => match (v, d) {
            (Value::Array(l), Value::Array(y)) => {
                if l.len() != y.len() {
                    return bad("number of items changed");
                }
                for (i, (sub, z)) in l.iter().zip(y).enumerate() {
                    same(sub, x, z, &format!("{}[{}]", path, i), n)?
                }
                Ok(())
            }
            _ => bad("not an array"),
        },
        AT::Record(_, f) => {
            let got = match pairs(d) {
                Some(g) => g,
                None => return bad("not a record"),
            };
            let want: Vec<(String, &Value)> = match v {
                Value::Object(m) => m.iter().filter_map(|(k, x)| names::map_name(k, false).map(|c| (c, x))).collect(),
                Value::Array(_) | Value::Null if f.len() == 1 && f[0].name == "list" => vec![("list".to_string(), v)],
                Value::Array(l) => l.iter().enumerate().map(|(i, x)| (format!("f{}_", i), x)).collect(),
                _ => return bad("document outside the domain"),
            };
            for (k, _) in &got {
                if !f.iter().any(|x| &x.name == k) {
                    return bad(&format!("{:?} is no field", k));
                }
            }
            for x in f {
                let p = format!("{}.{}", path, x.name);
                let g = got.iter().find(|(k, _)| k == &x.name).map(|(_, y)| y);
                match (want.iter().find(|(k, _)| k == &x.name), g) {
                    (Some((_, sub)), Some(y)) => same(sub, &x.v, y, &p, n)?,
                    // an absent key of a nullable field reads as null
                    (Some((_, sub)), None) if sub.is_null() && (x.v.nullable || x.v.t == AT::Null) => {}
                    (Some(_), None) => return Err(format!("{}: the declared field is lost", p)),
                    (None, Some(y)) if !y.is_null() => return Err(format!("{}: a value out of nowhere", p)),
                    (None, _) if x.v.nullable || x.v.t == AT::Null => {}
                    (None, _) => return Err(format!("{}: no value for a field that cannot be null", p)),
                }
            }
            Ok(())
        }
    }
}

fn short_type(a: &AV) -> String {
    let t = format!("{:?}", a.t);
    t.chars().take(60).collect()
}

fn pairs(d: &Value) -> Option<Vec<(String, Value)>> {
    let l = d.get("$dict")?.as_array()?;
    l.iter().map(|p| Some((p[0].as_str()?.to_string(), p[1].clone()))).collect()
}

pub fn c32_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if n.is_err() || facts.collision || ctx.nc || has_empty_key(s) {
        return Verdict::Skip;
    }
    let text = match conv(Target::Avro, s, &ctx) {
        Ok(v) => v,
        Err(_) => return Verdict::Skip,
    };
    let a = match read_avro(&text).0 {
        Some(a) => a,
        None => return Verdict::Skip,
    };
    let mut r = Rng::new(c["dseed"].as_u64().unwrap_or(1));
    let mut docs = vec![];
    for i in 0..DOCS {
        docs.extend(document(s, &mut r, if i == 0 { 0 } else { 6 }));
    }
    if docs.is_empty() {
        return Verdict::Skip;
    }
    let dir = scratch("C32");
    let run = || -> std::io::Result<(bool, String, String)> {
        std::fs::create_dir(dir.join("avro"))?;
        std::fs::create_dir(dir.join("data"))?;
        std::fs::write(dir.join("avro/ns.doc.1.schema.json"), text.to_string())?;
        let lines: String = docs.iter().map(|d| format!("{}\n", d)).collect();
        std::fs::write(dir.join("data/ns.doc.1.ndjson"), lines)?;
        let log = dir.join("datums");
        let err = std::fs::File::create(dir.join("err"))?;
        let mut cmd = Command::new("python3");
        cmd.args(["-B", "-S", SCRIPT, "ns.doc.1"])
            .current_dir(&dir)
            .env("PYTHONPATH", Env::get().verif.join("stubs"))
            .env("PYTHONUTF8", "1")
            .env("DATUM_LOG", &log)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err);
        let (status, _) = limited(cmd, 60)?;
        let out = std::fs::read_to_string(&log).unwrap_or_default();
        let e = std::fs::read_to_string(dir.join("err"))?;
        Ok((status.map(|x| x.success()).unwrap_or(false), out, e))
    };
    let res = run();
    let _ = std::fs::remove_dir_all(&dir);
    let (ok, out, err) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("helper-run".into(), format!("the helper could not be run: {}", e)),
    };
    let datums: Vec<Value> = out.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    if !ok || datums.len() != docs.len() + 1 || datums.last() != Some(&json!("closed")) {
        let at = datums.len().min(docs.len() - 1);
        let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
        return Verdict::Bad("helper-fails".into(), format!("{} of {} documents converted, next {}: {}", datums.len().min(docs.len()), docs.len(), short(&docs[at]), tail));
    }
    let mut placed = 0;
    for (v, d) in docs.iter().zip(&datums) {
        if let Err(m) = same(v, &a, d, "$", &mut placed) {
            return Verdict::Bad("helper-datum".into(), format!("document {} became {}: {}", short(v), short(d), m));
        }
    }
    st.add("documents_converted_by_the_helper", docs.len() as u64);
    st.add("scalars_placed", placed);
    Verdict::Held(placed > 0)
}

pub fn has_empty_key(s: &Value) -> bool {
    match s {
        Value::Object(m) => {
            m.get("properties").and_then(|p| p.as_object()).map(|p| p.keys().any(|k| k.is_empty())).unwrap_or(false) || m.values().any(has_empty_key)
        }
        Value::Array(l) => l.iter().any(has_empty_key),
        _ => false,
    }
}
