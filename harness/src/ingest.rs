//! C36 and C37: the scripts that fetch sampled documents and load the encoded
//! ones, as processes; the cloud is made of stand-ins (stubs).
use crate::common::*;
use crate::engine::scratch;
use crate::gen;
use crate::rng::Rng;
use crate::scripts::{prepare, script, Ran};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

const NS: &[&str] = &["telemetry", "a-b", "ab", "org-mozilla-fenix", "x1", "fenix", "avro-sink", "logs", "b"];
const DOC: &[&str] = &["main", "event", "main-event", "v1", "a", "deletion-request", "avro", "core", "avrolog"];

fn name(r: &mut Rng) -> String {
    format!("{}.{}.{}", r.pick(NS), r.pick(DOC), *r.pick(&[1, 1, 2, 3, 4, 10, 11, 12, 40, 100]))
}
fn table(document: &str) -> String {
    let p: Vec<String> = document.split('.').map(|x| x.replace('-', "_")).collect();
    format!("{}__{}_v{}", p[0], p[1], p[2])
}
fn lines(calls: &str) -> Vec<Value> {
    calls.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}
fn tail(s: &str) -> String {
    s.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect()
}

// --- C36 -------------------------------------------------------------------
pub fn c36_gen(r: &mut Rng) -> Value {
    let mut docs: BTreeMap<String, String> = BTreeMap::new();
    let base = name(r);
    let count = if r.chance(0.03) { 0 } else { r.range(1, 7) };
    for _ in 0..count {
        let n = if r.chance(0.4) {
            // a name that contains the other one's, or is contained in it
            let p: Vec<&str> = base.split('.').collect();
            match r.below(5) {
                0 => format!("{}.{}.{}{}", p[0], p[1], p[2], r.below(10)),
                1 => format!("a-{}.{}.{}", p[0], p[1], p[2]),
                2 => format!("{}.x-{}.{}", p[0], p[1], p[2]),
                3 => format!("{}.{}-x.{}", p[0], p[1], p[2]),
                _ => base.clone(),
            }
        } else {
            name(r)
        };
        docs.entry(table(&n)).or_insert(n);
    }
    let names: Vec<String> = docs.keys().cloned().collect();
    let mut existing: Vec<String> = (0..if names.is_empty() { 0 } else { r.below(4) })
        .map(|_| match r.below(4) {
            0 | 1 => r.pick(&names).clone(),
            2 => format!("{}{}", r.pick(&names), r.below(10)),
            _ => format!("x_{}", r.pick(&names)),
        })
        .collect();
    if !names.is_empty() && r.chance(0.1) {
        // a data set with many tables, of which a listing shows the first ones unless asked for more
        let n = *r.pick(&[49, 50, 51, 60, 130, 1001]);
        existing.extend((0..n).map(|i| format!("a{:04}__doc_v1", i)));
    }
    let fail: Vec<String> = names.iter().filter(|_| r.chance(0.2)).cloned().collect();
    json!({"docs": docs.values().collect::<Vec<_>>(), "existing": existing, "fail": fail, "keep": r.coin(), "fresh": r.coin(),
        "skip": *r.pick(&["", "set", "set", "empty"]), "project": *r.pick(&["my-project", "p1"]), "away": r.coin()})
}

pub fn c36_judge(c: &Value, st: &mut Stats) -> Verdict {
    let strings = |k: &str| -> Vec<String> { c[k].as_array().map(|l| l.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() };
    let docs: BTreeSet<String> = strings("docs").into_iter().collect();
    let project = c["project"].as_str().unwrap_or("p").to_string();
    let skip = c["skip"] != "";
    let dir = scratch("C36");
    let run = || -> std::io::Result<(Ran, String)> {
        let root = dir.join("tree");
        fs::create_dir(&root)?;
        prepare(&root)?;
        fs::create_dir(root.join("avro-data"))?;
        for d in &docs {
            fs::write(root.join(format!("avro-data/{}.avro", d)), "x")?;
        }
        let t = dir.join("tables");
        fs::write(&t, strings("existing").join("\n"))?;
        let plan = json!({"keep": c["keep"], "fail": strings("fail").iter().map(|t| format!("test_avro.{}", t)).collect::<Vec<_>>()});
        let away = dir.join("away");
        fs::create_dir(&away)?;
        let cwd = if c["away"] == json!(true) { &away } else { &root };
        let mut env = vec![("JSTMON_TABLES", t.display().to_string()), ("JSTMON_BQ", plan.to_string()), ("JSTMON_PROJECT", project.clone())];
        if skip {
            env.push(("SKIP_EXISTING", if c["skip"] == "empty" { String::new() } else { "1".into() }));
        }
        let a = script(&dir, &[root.join("scripts/mps-load-avro-bq.sh").display().to_string()], cwd, &env)?;
        Ok((a, root.canonicalize()?.display().to_string()))
    };
    let res = run();
    let _ = fs::remove_dir_all(&dir);
    let (a, root) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("harness".into(), format!("the script could not be run: {}", e)),
    };
    if a.calls.contains("escape") {
        return Verdict::Bad("escape".into(), format!("the script removes files outside its directory: {}", a.calls));
    }
    let events = lines(&a.calls);
    // what was uploaded before a load
    let mut uploaded: BTreeSet<String> = BTreeSet::new();
    let mut loaded: BTreeMap<String, u32> = BTreeMap::new();
    let (mut ok, mut existed) = (0u64, 0u64);
    let mut tables: BTreeSet<String> = if c["keep"] == json!(true) { strings("existing").into_iter().collect() } else { BTreeSet::new() };
    let by_table: BTreeMap<String, &String> = docs.iter().map(|d| (table(d), d)).collect();
    let initial = tables.clone();
    for e in &events {
        if let Some(rows) = e["gsutil"].as_array() {
            for row in rows {
                let to = e["to"].as_str().unwrap_or("");
                let base = format!("gs://{}/data", project);
                let file = row[0].as_str().unwrap_or("");
                let short = file.rsplit('/').next().unwrap_or("").to_string();
                if docs.is_empty() && row[1] == json!(false) {
                    continue; // the pattern for no file at all
                }
                if row[1] != json!(true) || !file.starts_with(&root) {
                    return Verdict::Bad("upload".into(), format!("uploads {}", row));
                }
                // a single file copied to a name that is no folder yet becomes an object of that name
                let folder = to == format!("{}/", base) || to == base && (rows.len() > 1 || !uploaded.is_empty() || c["fresh"] == json!(false));
                if folder || to == format!("{}/{}", base, short) {
                    uploaded.insert(short);
                } else {
                    return Verdict::Bad("upload-place".into(), format!("uploads {} to {}", short, to));
                }
            }
        } else if e["bq"] == "load" {
            let full = e["table"].as_str().unwrap_or("");
            let t = full.strip_prefix("test_avro.").unwrap_or("");
            let d = match by_table.get(t) {
                Some(d) => *d,
                None => return Verdict::Bad("table".into(), format!("loads into {:?}, which is the table of no file", full)),
            };
            let uri = format!("gs://{}/data/{}.avro", project, d);
            if e["uri"] != json!(uri) || e["rest"] != json!([]) {
                return Verdict::Bad("source".into(), format!("loads {} into {}", e["uri"], full));
            }
            if !uploaded.contains(&format!("{}.avro", d)) {
                return Verdict::Bad("not-uploaded".into(), format!("loads {} before it is uploaded", uri));
            }
            if e["flags"]["source_format"] != "AVRO" || e["flags"].get("replace").is_none() || e["flags"]["replace"] == "false" {
                return Verdict::Bad("flags".into(), format!("loads {} with {}", uri, e["flags"]));
            }
            *loaded.entry(t.to_string()).or_insert(0) += 1;
            if e["ok"] == json!(true) {
                ok += 1;
                tables.insert(t.to_string());
            }
            if e["existed"] == json!(true) {
                existed += 1;
            }
        }
    }
    let mut skipped = 0;
    for (t, d) in &by_table {
        let n = loaded.get(t).cloned().unwrap_or(0);
        let want = if skip && initial.contains(t) { 0 } else { 1 };
        if want == 0 {
            skipped += 1;
        }
        if n != want {
            return Verdict::Bad("times".into(), format!("{} is loaded {} times instead of {}: {}", d, n, want, tail(&a.out)));
        }
    }
    let attempted = docs.len() as u64 - skipped;
    let line = format!("{}/{} loaded successfully, {} skipped", ok, attempted, skipped);
    if a.out.lines().last() != Some(line.as_str()) {
        return Verdict::Bad("count".into(), format!("reports {:?} for {:?}", a.out.lines().last(), line));
    }
    st.add("files_loaded", ok);
    st.add("loads_refused", attempted - ok);
    st.add("files_skipped", skipped);
    st.add("tables_replaced", existed);
    Verdict::Held(true)
}

// --- C37 -------------------------------------------------------------------
fn schema(r: &mut Rng) -> Value {
    let mut p = serde_json::Map::new();
    for k in ["a", "b", "c"] {
        if r.coin() {
            p.insert(k.into(), json!({"type": *r.pick(&["integer", "string", "boolean", "object", "array"])}));
        }
    }
    let req: Vec<&str> = ["a", "b"].into_iter().filter(|_| r.chance(0.3)).collect();
    json!({"type": "object", "properties": p, "required": req})
}
fn fits(s: &Value, d: &Value) -> bool {
    let is = |v: &Value, t: &str| match t {
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "boolean" => v.is_boolean(),
        _ => v.is_i64() || v.is_u64(),
    };
    let m = match d.as_object() {
        Some(m) => m,
        None => return false,
    };
    s["required"].as_array().unwrap().iter().all(|k| m.contains_key(k.as_str().unwrap()))
        && s["properties"].as_object().unwrap().iter().all(|(k, p)| m.get(k).map(|v| is(v, p["type"].as_str().unwrap())).unwrap_or(true))
}

pub fn c37_gen(r: &mut Rng) -> Value {
    let mut schemas = serde_json::Map::new();
    for _ in 0..r.range(1, 5) {
        schemas.insert(name(r), schema(r));
    }
    let mut objects = vec![];
    let mut keys = BTreeSet::new();
    let known: Vec<String> = schemas.keys().cloned().collect();
    for i in 0..if r.chance(0.04) { 0 } else { r.range(1, 6) } {
        let n = if r.chance(0.85) { r.pick(&known).clone() } else { name(r) };
        let p: Vec<&str> = n.split('.').collect();
        let key = format!(
            "sanitized-landfill-sample/v3/submission_date_s3=20190310/namespace={}/doc_type={}/doc_version={}/part-{:05}-tid-295.c000.{}",
            p[0], p[1], p[2], i, if r.chance(0.1) { *r.pick(&["crc", "json.crc", "json.gz", "JSON", "xjson", "json/_temporary"]) } else { "json" }
        );
        if !keys.insert(key.clone()) {
            continue;
        }
        let mut rows = vec![];
        // a part of the sample may be empty
        for _ in 0..if r.chance(0.08) { 0 } else { r.range(1, 6) } {
            let mut d = serde_json::Map::new();
            for k in ["a", "b", "c", "d", "é x"] {
                if r.chance(0.6) {
                    let s = schemas.get(&n).map(|s| s["properties"][k]["type"].clone()).unwrap_or(Value::Null);
                    let v = match s.as_str() {
                        Some("integer") if r.chance(0.9) => json!(r.below(100)),
                        Some("string") if r.chance(0.9) => json!(*r.pick(&["", "x", "é日本 \u{2028} \u{85} \r", "a\nb", "\"", "\\n", "\u{1f600}"])),
                        Some("boolean") if r.chance(0.9) => json!(r.coin()),
                        Some("object") if r.chance(0.9) => json!({"k": gen::random_json(r, 2)}),
                        Some("array") if r.chance(0.9) => json!([gen::random_json(r, 2)]),
                        _ => gen::random_json(r, 2),
                    };
                    d.insert(k.into(), v);
                }
            }
            let d = Value::Object(d);
            let content = match r.below(12) {
                0 => r.pick(&["", "{", "nonsense", "[1,", "{\"a\": 1}}"]).to_string(),
                1 => r.pick(&["[]", "5", "null", "\"x\""]).to_string(),
                2 | 3 => serde_json::to_string_pretty(&d).unwrap(),
                _ => d.to_string(),
            };
            rows.push(content);
        }
        objects.push(json!([key, n, rows]));
    }
    if r.chance(0.3) {
        // samples of other days, and other things in the bucket
        let n = if r.chance(0.8) { r.pick(&known).clone() } else { name(r) };
        let p: Vec<&str> = n.split('.').collect();
        let at = *r.pick(&[
            "sanitized-landfill-sample/v3/submission_date_s3=20190309", "sanitized-landfill-sample/v3/submission_date_s3=20190311", "sanitized-landfill-sample/v3/submission_date_s3=20190301",
            "sanitized-landfill-sample/v2/submission_date_s3=20190310", "sanitized-landfill-sample/v4/submission_date_s3=20190310", "landfill-sample/v3/submission_date_s3=20190310",
        ]);
        let key = format!("{}/namespace={}/doc_type={}/doc_version={}/part-00000-tid-295.c000.json", at, p[0], p[1], p[2]);
        let d = json!({"a": 1, "b": "x"}).to_string();
        objects.push(json!([key, n, [d, "{}"]]));
    }
    // how many objects the storage lists at a time
    json!({"schemas": schemas, "objects": objects, "stale": r.coin(), "away": r.coin(), "mark": r.chance(0.7), "page": *r.pick(&[1, 2, 3, 1000, 1000])})
}

pub fn c37_judge(c: &Value, st: &mut Stats) -> Verdict {
    let schemas = match c["schemas"].as_object() {
        Some(m) if !m.is_empty() => m.clone(),
        _ => return Verdict::Skip,
    };
    let objects = c["objects"].as_array().cloned().unwrap_or_default();
    let usable = |o: &Value| o[0].as_str().map(|k| k.ends_with(".json") && k.starts_with("sanitized-landfill-sample/v3/submission_date_s3=20190310/")).unwrap_or(false);
    let mut want: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut reports: Vec<String> = vec![];
    for o in objects.iter().filter(|o| usable(o)) {
        let n = o[1].as_str().unwrap_or("").to_string();
        let s = match schemas.get(&n) {
            Some(s) => s,
            None => {
                reports.push(format!("schema does not exist: {}", n));
                st.inc("objects_without_schema");
                continue;
            }
        };
        let rows = o[2].as_array().cloned().unwrap_or_default();
        let good: Vec<Value> = rows.iter().filter_map(|t| serde_json::from_str::<Value>(t.as_str().unwrap_or("")).ok()).filter(|d| fits(s, d)).collect();
        reports.push(format!("wrote {}, skipped {} documents: {}", good.len(), rows.len() - good.len(), n));
        if rows.is_empty() {
            st.inc("empty_objects");
        }
        st.add("documents_written", good.len() as u64);
        st.add("documents_skipped", (rows.len() - good.len()) as u64);
        want.entry(n).or_default().extend(good);
    }
    let dir = scratch("C37");
    let run = || -> std::io::Result<(Ran, BTreeMap<String, String>)> {
        let root = dir.join("tree");
        fs::create_dir(&root)?;
        prepare(&root)?;
        for (n, s) in &schemas {
            let p: Vec<&str> = n.split('.').collect();
            let d = root.join(format!("schemas/{}/{}", p[0], p[1]));
            fs::create_dir_all(&d)?;
            fs::write(d.join(format!("{}.{}.schema.json", p[1], p[2])), s.to_string())?;
        }
        fs::write(root.join("schemas/README.md"), "x")?;
        if c["stale"] == json!(true) {
            // an earlier run
            fs::create_dir(root.join("data"))?;
            for n in want.keys() {
                fs::write(root.join(format!("data/{}.ndjson", n)), "{\"stale\": 1}\n")?;
            }
        }
        let away = dir.join("away");
        fs::create_dir(&away)?;
        let s3 = dir.join("s3.json");
        let mut rows: Vec<Value> = vec![];
        if c["mark"] != json!(false) {
            rows.push(json!(["sanitized-landfill-sample/v3/submission_date_s3=20190310/_SUCCESS", ""]));
        }
        rows.extend(objects.iter().map(|o| {
            let text: Vec<String> = o[2].as_array().cloned().unwrap_or_default().iter().enumerate().map(|(i, t)| json!({"submission": i, "content": t}).to_string()).collect();
            json!([o[0], text.join("\n") + if text.is_empty() { "" } else { "\n" }])
        }));
        fs::write(&s3, json!(rows).to_string())?;
        let cwd = if c["away"] == json!(true) { &away } else { &root };
        let line = vec!["python3".to_string(), root.join("scripts/mps-download-sampled-data.py").display().to_string()];
        let a = script(&dir, &line, cwd, &[("JSTMON_S3", s3.display().to_string()), ("JSTMON_PAGE", c["page"].as_u64().unwrap_or(1000).to_string())])?;
        let mut got = BTreeMap::new();
        if let Ok(l) = fs::read_dir(root.join("data")) {
            for e in l {
                let e = e?;
                got.insert(e.file_name().to_string_lossy().into_owned(), fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
        Ok((a, got))
    };
    let res = run();
    let _ = fs::remove_dir_all(&dir);
    let (a, got) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("harness".into(), format!("the script could not be run: {}", e)),
    };
    if !a.ok {
        return Verdict::Bad("status".into(), format!("the script fails: {}", tail(&a.err)));
    }
    let files: Vec<String> = want.keys().map(|n| format!("{}.ndjson", n)).collect();
    if got.keys().ne(files.iter()) {
        return Verdict::Bad("files".into(), format!("files {:?} instead of {:?}", got.keys().collect::<Vec<_>>(), files));
    }
    for (n, docs) in &want {
        let text = &got[&format!("{}.ndjson", n)];
        let rows: Vec<Option<Value>> = text.split('\n').filter(|l| !l.is_empty()).map(|l| serde_json::from_str(l).ok()).collect();
        if rows.iter().any(|x| x.is_none()) {
            return Verdict::Bad("line".into(), format!("{} has a line that is no document: {}", n, tail(text)));
        }
        let rows: Vec<Value> = rows.into_iter().flatten().collect();
        if &rows != docs {
            return Verdict::Bad("documents".into(), format!("{} holds {} instead of {}", n, short(&json!(rows)), short(&json!(docs))));
        }
    }
    let mut left: Vec<&str> = a.err.lines().chain(a.out.lines()).collect();
    for rep in &reports {
        match left.iter().position(|l| l.ends_with(rep.as_str())) {
            Some(i) => {
                left.remove(i);
            }
            None => return Verdict::Bad("report".into(), format!("does not report {:?}: {}", rep, tail(&a.err))),
        }
    }
    st.add("objects_read", objects.len() as u64);
    Verdict::Held(want.values().any(|l| !l.is_empty()))
}
