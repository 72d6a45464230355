//! C34 and C35: the repository's batch scripts as processes, in a scratch copy
//! of the layout they expect. `cargo` and `rm` are stand-ins (stubs/bin).
use crate::common::*;
use crate::docs::{c18_gen, document};
use crate::engine::{limited, scratch, Env};
use crate::gen::{self, Profile};
use crate::helper::same;
use crate::rng::Rng;
use crate::view::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::Path;
use std::process::Command;

pub fn prepare(dir: &Path) -> std::io::Result<()> {
    fs::create_dir(dir.join("scripts"))?;
    for e in fs::read_dir("/repo/scripts")? {
        let e = e?;
        fs::copy(e.path(), dir.join("scripts").join(e.file_name()))?;
    }
    fs::create_dir_all(dir.join("target/debug"))?;
    symlink(crate::cli::exe(), dir.join("target/debug/jsonschema-transpiler"))
}

pub struct Ran {
    pub ok: bool,
    pub out: String,
    pub err: String,
    pub calls: String,
}

pub fn script(dir: &Path, line: &[String], cwd: &Path, env: &[(&str, String)]) -> std::io::Result<Ran> {
    let stubs = Env::get().verif.join("stubs");
    let out = fs::File::create(dir.join("stdout"))?;
    let err = fs::File::create(dir.join("stderr"))?;
    let calls = dir.join("calls");
    let mut cmd = Command::new(&line[0]);
    cmd.args(&line[1..])
        .current_dir(cwd)
        .env("PATH", format!("{}:{}", stubs.join("bin").display(), std::env::var("PATH").unwrap_or_default()))
        .env("PYTHONPATH", &stubs)
        .env("PYTHONUTF8", "1")
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("LC_ALL", "C.UTF-8")
        .env("JSTMON_SCRATCH", dir.canonicalize()?)
        .env("JSTMON_CALLS", &calls)
        .env_remove("RUST_LOG")
        .env_remove("DATUM_LOG")
        .stdout(out)
        .stderr(err);
    for (k, v) in env {
        cmd.env(k, v);
    }
    let (st, _) = limited(cmd, 200)?;
    let text = |n: &str| fs::read(dir.join(n)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    Ok(Ran { ok: st.map(|s| s.success()).unwrap_or(false), out: text("stdout"), err: text("stderr"), calls: text("calls") })
}

const WORDS: &[&str] = &["main", "event", "telemetry", "org-mozilla-fenix", "core", "crash", "modules", "health", "baseline", "deletion-request", "a", "x1", "logs-ndjson", "avro"];

fn small(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.nodes = *r.pick(&[1, 4, 12]);
    p.w_json = *r.pick(&[0, 2]);
    p.w_tuple = 2;
    p.w_oneof = 3;
    gen::schema(r, &p)
}

// --- C34 -------------------------------------------------------------------
pub fn c34_gen(r: &mut Rng) -> Value {
    let n = if r.chance(0.04) { 0 } else { r.range(1, 8) };
    let mut files = serde_json::Map::new();
    for _ in 0..n {
        let ns = *r.pick(WORDS);
        let doc = *r.pick(WORDS);
        let ver = r.range(1, 12);
        let path = format!("{}/{}/{}.{}.schema.json", ns, doc, doc, ver);
        let text = match r.below(10) {
            0 => json!({"type": "array"}).to_string(),
            1 => json!({"type": "object", "properties": {"a": {"type": "strin"}}}).to_string(),
            2 => ["", "{", "{\"type\": \"integer\"} {}", "[1]", "\"x\""][r.below(5)].to_string(),
            _ => {
                let s = small(r);
                if r.coin() { s.to_string() } else { serde_json::to_string_pretty(&s).unwrap() }
            }
        };
        files.insert(path, json!(text));
    }
    if n == 0 || r.coin() {
        for p in ["telemetry/main/main.4.sample.json", "telemetry/README.md", "core/schema.json", "metadata/x/x.schema.json.bak"] {
            files.insert(p.into(), json!("{\"type\": \"integer\"}"));
        }
    }
    let mut ctx = Ctx::random(r);
    ctx.re = None;
    json!({"files": files, "ctx": ctx.to_json(), "target": if r.coin() {"avro"} else {"bigquery"},
        "out": *r.pick(&["", "default", "default", "abs", "bq-out"]), "stale": r.coin(), "away": r.coin(),
        "no_build": r.chance(0.08), "absent": r.chance(0.06), "refuse": if r.chance(0.3) { "record" } else { "" }})
}

pub fn c34_judge(c: &Value, st: &mut Stats) -> Verdict {
    let ctx = Ctx::from_json(&c["ctx"]);
    let t = if c["target"] == "bigquery" { Target::Bq } else { Target::Avro };
    let files: BTreeMap<String, String> = match c["files"].as_object() {
        Some(m) => m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect(),
        None => return Verdict::Skip,
    };
    // no arguments: the defaults of the program
    let plain = c["out"] == "default";
    let convert = |text: &str, t: Target, ctx: &Ctx| -> Option<Value> { serde_json::from_str::<Value>(text).ok().and_then(|v| conv(t, &v, ctx).ok()) };
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut refused = vec![];
    let mut parsed: Vec<Value> = vec![];
    let mut total = 0;
    for (p, text) in &files {
        let part: Vec<&str> = p.split('/').collect();
        if !p.ends_with(".schema.json") || part.len() != 3 {
            continue;
        }
        total += 1;
        let v = if plain { convert(text, Target::Avro, &Ctx::cast()) } else { convert(text, t, &ctx) };
        match v {
            Some(v) => {
                want.insert(format!("{}.{}", part[0], part[2]), format!("{}\n", serde_json::to_string_pretty(&v).unwrap()).into_bytes());
            }
            None => refused.push(p.clone()),
        }
        if let Some(v) = convert(text, Target::Avro, &Ctx::cast()) {
            parsed.push(v);
        }
    }
    let dir = scratch("C34");
    let refuse = c["refuse"].as_str().unwrap_or("");
    // the program cannot be built: that of an earlier build must not take its place
    let no_build = c["no_build"] == json!(true);
    // the schemas have not been downloaded yet
    let absent = c["absent"] == json!(true) && !no_build;
    let fails: Vec<(&str, String)> = if no_build { vec![("JSTMON_BUILD_FAILS", "1".into())] } else { vec![] };
    let run = || -> std::io::Result<(Ran, BTreeMap<String, Vec<u8>>, Ran, Vec<String>)> {
        let root = dir.join("tree");
        fs::create_dir(&root)?;
        prepare(&root)?;
        for (p, text) in &files {
            let f = root.join(if absent { "elsewhere" } else { "schemas" }).join(p);
            fs::create_dir_all(f.parent().unwrap())?;
            fs::write(f, text)?;
        }
        let away = dir.join("away");
        fs::create_dir(&away)?;
        let (out, name) = match c["out"].as_str() {
            Some("default") => (root.join("avro"), None),
            Some("abs") => (dir.join("result"), Some(dir.join("result").display().to_string())),
            Some("") | None => (root.join("o"), Some("o".to_string())),
            Some(x) => (root.join(x), Some(x.to_string())),
        };
        if c["stale"] == json!(true) {
            fs::create_dir_all(out.join("sub"))?;
            fs::write(out.join("gone.doc.1.schema.json"), "stale")?;
            fs::write(out.join(".hidden"), "stale")?;
        }
        let mut line = vec![root.join("scripts/mps-generate-schemas.sh").display().to_string()];
        if let Some(n) = name {
            line.push(n);
            line.push("--type".into());
            line.push(if t == Target::Bq { "bigquery" } else { "avro" }.into());
            line.extend(crate::cli::flags(&ctx));
        }
        let cwd = if c["away"] == json!(true) { &away } else { &root };
        let a = script(&dir, &line, cwd, &fails)?;
        let mut got = BTreeMap::new();
        if out.is_dir() {
            for e in fs::read_dir(&out)? {
                let e = e?;
                got.insert(e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default());
            }
        }
        let plog = dir.join("parsed");
        let line = vec!["python3".to_string(), "scripts/mps-validate-avro-schemas.py".into()];
        let mut env = vec![("AVRO_PARSE_LOG", plog.display().to_string()), ("AVRO_REFUSE", refuse.to_string())];
        env.extend(fails.clone());
        let b = script(&dir, &line, &root, &env)?;
        let seen = fs::read_to_string(&plog).unwrap_or_default().lines().map(|l| l.to_string()).collect();
        Ok((a, got, b, seen))
    };
    let res = run();
    let _ = fs::remove_dir_all(&dir);
    let (a, got, b, seen) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("harness".into(), format!("the scripts could not be run: {}", e)),
    };
    let tail = |s: &str| s.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    if a.calls.contains("escape") || b.calls.contains("escape") {
        return Verdict::Bad("escape".into(), format!("a script removes files outside its directory: {} {}", a.calls, b.calls));
    }
    if no_build {
        if a.ok || b.ok {
            return Verdict::Bad("no-build".into(), format!("the program cannot be built, and {} reports success", if a.ok { "the generation script" } else { "the validation script" }));
        }
        let stale = ["gone.doc.1.schema.json", ".hidden", "sub"];
        if got.keys().any(|k| !stale.contains(&k.as_str())) || !seen.is_empty() {
            return Verdict::Bad("no-build-output".into(), format!("the program cannot be built, and there is output {:?}", got.keys().collect::<Vec<_>>()));
        }
        st.inc("failed_builds");
        return Verdict::Held(true);
    }
    if absent {
        if a.ok {
            return Verdict::Bad("no-schemas".into(), "there is no schemas folder, and the generation script reports success".into());
        }
        let stale: &[&str] = if c["stale"] == json!(true) { &[".hidden", "gone.doc.1.schema.json", "sub"] } else { &[] };
        if got.keys().map(|k| k.as_str()).ne(stale.iter().copied()) {
            return Verdict::Bad("no-schemas-output".into(), format!("there is no schemas folder, and the output folder that held {:?} now holds {:?}", stale, got.keys().collect::<Vec<_>>()));
        }
        st.inc("absent_schema_folders");
        return Verdict::Held(true);
    }
    if !a.ok {
        return Verdict::Bad("generate-status".into(), format!("the generation script fails: {} {}", tail(&a.out), tail(&a.err)));
    }
    if got.keys().ne(want.keys()) {
        let g: Vec<_> = got.keys().collect();
        let w: Vec<_> = want.keys().collect();
        return Verdict::Bad("generate-files".into(), format!("files written {:?}, schemas that convert {:?}: {}", g, w, tail(&a.err)));
    }
    for (k, v) in &want {
        if &got[k] != v {
            return Verdict::Bad("generate-content".into(), format!("{} holds {:?}, the library gives {:?}", k, String::from_utf8_lossy(&got[k]).chars().take(200).collect::<String>(), String::from_utf8_lossy(v).chars().take(200).collect::<String>()));
        }
    }
    for p in &refused {
        if !a.out.lines().any(|l| l.ends_with(p.as_str())) {
            return Verdict::Bad("generate-silent".into(), format!("{} is refused and not reported: {}", p, tail(&a.out)));
        }
    }
    let count = format!("{}/{} succeeded", want.len(), total);
    if a.out.lines().last() != Some(count.as_str()) {
        return Verdict::Bad("generate-count".into(), format!("reports {:?} for {}", a.out.lines().last(), count));
    }
    // the validation script
    let errors = if refuse.is_empty() { 0 } else { parsed.iter().filter(|v| v.to_string().contains(refuse)).count() };
    let line = format!("{}/{} parsing errors, {} skipped", errors, parsed.len(), total - parsed.len());
    if !b.ok || !b.err.lines().any(|l| l.ends_with(&line)) {
        return Verdict::Bad("validate-count".into(), format!("the validation script does not report {:?}: {}", line, tail(&b.err)));
    }
    let mut seen: Vec<String> = seen;
    let mut parsed: Vec<String> = parsed.iter().map(|v| v.to_string()).collect();
    seen.sort();
    parsed.sort();
    if seen != parsed {
        return Verdict::Bad("validate-parsed".into(), format!("{} Avro schemas reached the Avro library, {} schemas convert, or they differ", seen.len(), parsed.len()));
    }
    st.add("schema_files_generated", want.len() as u64);
    st.add("schema_files_refused", refused.len() as u64);
    st.add("schemas_validated", seen.len() as u64);
    st.add("files_in_trees", files.len() as u64);
    Verdict::Held(!want.is_empty())
}

// --- C35 -------------------------------------------------------------------
pub fn c35_gen(r: &mut Rng) -> Value {
    let mut sets = serde_json::Map::new();
    for _ in 0..r.range(1, 4) {
        let name = format!("{}.{}.{}", r.pick(WORDS), r.pick(WORDS), r.range(1, 9));
        let mut c = c18_gen(r);
        c["ctx"]["normalize_case"] = json!(false);
        let fate = *r.pick(&["good", "good", "good", "syntax", "cut", "mismatch", "no-schema", "empty-key", "none"]);
        c["fate"] = json!(fate);
        c["at"] = json!(r.next() >> 12);
        sets.insert(name, c);
    }
    json!({ "sets": sets, "away": r.coin(), "stale": r.chance(0.3), "open_end": r.chance(0.3) })
}

struct Set {
    avro: Value,
    lines: Vec<String>,
    docs: Vec<Value>,
    good: bool,
    schema: bool,
}

fn set_of(c: &Value) -> Option<Set> {
    let (s, mut ctx) = (&c["schema"], Ctx::from_json(&c["ctx"]));
    let fate = c["fate"].as_str().unwrap_or("good");
    let at = c["at"].as_u64().unwrap_or(0) as usize;
    let mut docs = vec![];
    let mut schema = s.clone();
    if fate == "mismatch" || fate == "empty-key" {
        ctx = Ctx::cast();
        schema = json!({"type": "object", "properties": {"n": {"type": "integer"}, "t": {"type": "string"}}, "required": ["n"]});
        docs = (0..1 + at % 5).map(|i| json!({"n": i, "t": "x"})).collect();
    } else {
        let (n, facts) = crate::model::elaborate(s, &ctx);
        if n.is_err() || facts.collision || ctx.nc || crate::helper::has_empty_key(s) {
            return None;
        }
        let mut r = Rng::new(c["dseed"].as_u64().unwrap_or(1));
        for i in 0..5 {
            docs.extend(document(s, &mut r, if i == 0 { 0 } else { 4 }));
        }
    }
    let avro = conv(Target::Avro, &schema, &ctx).ok()?;
    read_avro(&avro).0?;
    if docs.is_empty() && fate != "none" {
        return None;
    }
    let mut lines: Vec<String> = docs.iter().map(|d| d.to_string()).collect();
    match fate {
        "syntax" => lines.insert(at % (lines.len() + 1), ["{", "nonsense", "{\"a\":1}}", "", "[1,"][at % 5].to_string()),
        "cut" => {
            // the last line ends in the middle
            lines.push("{\"a\": {\"b\": [1, 2".to_string());
        }
        "mismatch" => lines.insert(at % (lines.len() + 1), ["{\"n\": \"one\"}", "{\"n\": null}", "{}", "{\"n\": [1]}"][at % 4].to_string()),
        "empty-key" => lines.insert(at % (lines.len() + 1), "{\"n\": 1, \"\": 2}".to_string()),
        "none" => {
            lines.clear();
            docs.clear();
        }
        _ => {}
    }
    Some(Set { avro, lines, docs, good: fate == "good" || fate == "none", schema: fate != "no-schema" })
}

pub fn c35_judge(c: &Value, st: &mut Stats) -> Verdict {
    let sets: BTreeMap<String, Set> = match c["sets"].as_object() {
        Some(m) => m.iter().filter_map(|(k, v)| set_of(v).map(|s| (k.clone(), s))).collect(),
        None => return Verdict::Skip,
    };
    if sets.is_empty() {
        return Verdict::Skip;
    }
    let dir = scratch("C35");
    let run = || -> std::io::Result<(Ran, BTreeMap<String, String>)> {
        let root = dir.join("tree");
        fs::create_dir(&root)?;
        prepare(&root)?;
        for d in ["data", "avro"] {
            fs::create_dir(root.join(d))?;
        }
        for (k, s) in &sets {
            let mut text = s.lines.iter().map(|l| format!("{}\n", l)).collect::<String>();
            // without a newline after the last line
            if c["open_end"] == json!(true) && s.lines.last().is_some_and(|l| !l.is_empty()) {
                text.pop();
            }
            fs::write(root.join(format!("data/{}.ndjson", k)), text)?;
            if c["stale"] == json!(true) {
                fs::create_dir_all(root.join("avro-data"))?;
                fs::write(root.join(format!("avro-data/{}.avro", k)), "{\"stale\": 1}\n\"closed\"\n")?;
            }
            if s.schema {
                fs::write(root.join(format!("avro/{}.schema.json", k)), s.avro.to_string())?;
            }
        }
        let away = dir.join("away");
        fs::create_dir(&away)?;
        let cwd = if c["away"] == json!(true) { &away } else { &root };
        let a = script(&dir, &[root.join("scripts/mps-generate-avro-data.sh").display().to_string()], cwd, &[])?;
        let mut got = BTreeMap::new();
        let out = root.join("avro-data");
        if out.is_dir() {
            for e in fs::read_dir(&out)? {
                let e = e?;
                got.insert(e.file_name().to_string_lossy().into_owned(), fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
        Ok((a, got))
    };
    let res = run();
    let _ = fs::remove_dir_all(&dir);
    let (a, got) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("harness".into(), format!("the scripts could not be run: {}", e)),
    };
    if a.calls.contains("escape") {
        return Verdict::Bad("escape".into(), format!("the script removes files outside its directory: {}", a.calls));
    }
    let tail: String = a.err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
    let good = sets.values().filter(|s| s.good).count();
    for (k, s) in &sets {
        let file = got.get(&format!("{}.avro", k));
        if !s.good {
            if file.is_some() {
                return Verdict::Bad("kept".into(), format!("{} holds a document that cannot be encoded, and its file is kept as if complete; output {:?}", k, a.out));
            }
            if !a.out.lines().any(|l| l.contains(k.as_str())) {
                return Verdict::Bad("silent".into(), format!("{} cannot be encoded and is not reported: {:?}", k, a.out));
            }
            st.inc("sets_reported_failed");
            continue;
        }
        let text = match file {
            Some(t) => t,
            None => return Verdict::Bad("lost".into(), format!("{} has no file although every document is valid: {} {}", k, a.out, tail)),
        };
        let datums: Vec<Value> = text.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        if datums.len() != s.docs.len() + 1 || datums.last() != Some(&json!("closed")) {
            return Verdict::Bad("count".into(), format!("{}: {} documents, {} written", k, s.docs.len(), datums.len()));
        }
        let av = read_avro(&s.avro).0.unwrap();
        let mut n = 0;
        for (v, d) in s.docs.iter().zip(&datums) {
            if let Err(m) = same(v, &av, d, "$", &mut n) {
                return Verdict::Bad("datum".into(), format!("{}: document {} became {}: {}", k, short(v), short(d), m));
            }
        }
        st.add("documents_encoded", s.docs.len() as u64);
        st.inc("sets_encoded");
    }
    if got.len() != good {
        return Verdict::Bad("files".into(), format!("files {:?} for {} good sets", got.keys().collect::<Vec<_>>(), good));
    }
    let count = format!("{}/{} succeeded", good, sets.len());
    if a.out.lines().last() != Some(count.as_str()) {
        return Verdict::Bad("count-line".into(), format!("reports {:?} for {}", a.out.lines().last(), count));
    }
    Verdict::Held(good > 0 || sets.len() > 1)
}

// --- C33 -------------------------------------------------------------------
pub fn c33_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.nodes = *r.pick(&[4, 10, 25]);
    p.w_json = 4;
    p.w_map = 4;
    p.w_tuple = 4;
    p.w_oneof = 3;
    let mut ctx = Ctx::random(r);
    if r.chance(0.4) {
        ctx.re = Some(r.pick(&["", ".*", "a", "a|b", "x1", ".*value"]).to_string());
    }
    let keys = ["resolve_method", "normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value", "json_object_path_regex"];
    let mut give: Vec<&str> = keys.iter().filter(|_| r.chance(0.6)).cloned().collect();
    r.shuffle(&mut give);
    let spoil = if r.chance(0.25) && !give.is_empty() {
        let k = *r.pick(&give);
        let bad = match k {
            "resolve_method" => r.pick(&[json!("Keep"), json!(1), json!(true), json!(""), json!("cast"), json!("drop"), json!("panic"), json!("DROP"), json!("Drop "), json!("Error"), json!(null), json!(["Drop"]), json!(0)]).clone(),
            "json_object_path_regex" => r.pick(&[json!(1), json!(true), json!(["a"]), json!({"regex": "a"}), json!(0.5), json!(false)]).clone(),
            _ => r.pick(&[json!(1), json!(0), json!("true"), json!(""), json!([true]), json!(null), json!("false"), json!("yes"), json!(1.0), json!({})]).clone(),
        };
        json!([k, bad])
    } else {
        json!(null)
    };
    // entries that are no options, however much they look like one
    let mut extra = serde_json::Map::new();
    if r.chance(0.4) {
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&keys);
            let name = match r.below(8) {
                0 => k.to_uppercase(),
                1 => k.replace('_', "-"),
                2 => k.replace('_', ""),
                3 => {
                    let mut words = k.split('_');
                    let first = words.next().unwrap_or("").to_string();
                    words.fold(first, |a, w| a + &w[..1].to_uppercase() + &w[1..])
                }
                4 => k.rsplit('_').next().unwrap_or("").to_string(),
                5 => k.split('_').next().unwrap_or("").to_string(),
                6 => format!("{} ", k),
                _ => r
                    .pick(&["comment", "snake_case", "case", "nullable", "tuples", "tuple", "regex", "json_path", "resolve", "method", "drop", "cast", "maps_without_value", "type", "strict", "flatten", "tag", ""])
                    .to_string(),
            };
            let v = match k {
                "resolve_method" => json!("Drop"),
                "json_object_path_regex" => json!(".*"),
                _ => json!(true),
            };
            if !keys.contains(&name.as_str()) {
                extra.insert(name, if r.chance(0.8) { v } else { json!([1]) });
            }
        }
    }
    json!({"schema": gen::schema(r, &p), "ctx": ctx.to_json(), "give": give, "spoil": spoil, "extra": extra, "first": r.coin(), "ways": r.below(3)})
}

pub fn c33_judge(c: &Value, st: &mut Stats) -> Verdict {
    let full = Ctx::from_json(&c["ctx"]);
    let mut ctx = Ctx::cast();
    let mut parts: Vec<String> = vec![];
    for k in c["give"].as_array().into_iter().flatten().filter_map(|k| k.as_str()) {
        let mut v = match k {
            "resolve_method" => {
                ctx.res = full.res;
                json!(match full.res { Res::Cast => "Cast", Res::Drop => "Drop", Res::Panic => "Panic" })
            }
            "normalize_case" => {
                ctx.nc = full.nc;
                json!(full.nc)
            }
            "force_nullable" => {
                ctx.fnull = full.fnull;
                json!(full.fnull)
            }
            "tuple_struct" => {
                ctx.ts = full.ts;
                json!(full.ts)
            }
            "allow_maps_without_value" => {
                ctx.mw = full.mw;
                json!(full.mw)
            }
            _ => {
                ctx.re = full.re.clone();
                json!(full.re)
            }
        };
        if c["spoil"][0] == json!(k) {
            v = c["spoil"][1].clone();
        }
        parts.push(format!("{}:{}", json!(k), v));
    }
    let given = parts.clone();
    for (k, v) in c["extra"].as_object().into_iter().flatten() {
        let at = if c["first"] == json!(true) { 0 } else { parts.len() };
        parts.insert(at, format!("{}:{}", json!(k), v));
    }
    let text = format!("{{{}}}", parts.join(","));
    let read: Result<jst::Context, String> = match c["ways"].as_u64() {
        Some(0) => serde_json::from_str(&text).map_err(|e| e.to_string()),
        Some(1) => serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string()),
        _ => serde_json::from_str::<Value>(&text).and_then(serde_json::from_value).map_err(|e| e.to_string()),
    };
    let spoiled = given.iter().any(|p| c["spoil"].is_array() && *p == format!("{}:{}", c["spoil"][0], c["spoil"][1]));
    let opts = match read {
        Ok(_) if spoiled => return Verdict::Bad("options-guessed".into(), format!("{} is read as options although {} has no meaning", text, c["spoil"])),
        Err(_) if spoiled => {
            st.inc("malformed_options_refused");
            return Verdict::Held(true);
        }
        Err(e) => return Verdict::Bad("options-refused".into(), format!("{}: {}", text, e)),
        Ok(o) => o,
    };
    for t in TARGETS {
        let want = conv(t, &c["schema"], &ctx);
        let o = opts.clone();
        let s = &c["schema"];
        let got = catch(|| match t {
            Target::Avro => jst::convert_avro(s, o),
            Target::Bq => jst::convert_bigquery(s, o),
        });
        if want.as_ref().ok() != got.as_ref().ok() {
            return Verdict::Bad(format!("{:?}-options", t), format!("options {}: {:?} instead of {:?}", text, got.as_ref().map(short), want.as_ref().map(short)));
        }
        st.inc("conversions_compared");
    }
    if parts.is_empty() {
        for t in TARGETS {
            let s = &c["schema"];
            let got = catch(|| match t {
                Target::Avro => jst::convert_avro(s, jst::Context::default()),
                Target::Bq => jst::convert_bigquery(s, jst::Context::default()),
            });
            if got.ok() != conv(t, s, &Ctx::cast()).ok() {
                return Verdict::Bad(format!("{:?}-default", t), "the default options are not cast with everything else off".into());
            }
        }
    }
    // does the choice matter for this schema?
    let d = TARGETS.iter().any(|t| conv(*t, &c["schema"], &ctx).ok() != conv(*t, &c["schema"], &Ctx::cast()).ok());
    Verdict::Held(d)
}
