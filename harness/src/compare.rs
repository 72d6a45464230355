//! C38: the two scripts that compare a control version with the working one.
//! They run in a scratch git repository (real git) with two versions of a
//! program that is a stand-in; the download and the build are stand-ins, too.
use crate::common::*;
use crate::engine::{limited, scratch};
use crate::rng::Rng;
use crate::scripts::{prepare, script, Ran};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use std::process::Command;

const KIND: &[&str] = &[
    "same", "same", "changed", "changed-avro", "changed-bigquery", "tuple", "tuple-avro", "tuple-bigquery", "changed-plain", "changed-tuple", "gone", "new", "refused",
    "strategy", "strategy",
];

pub fn c38_gen(r: &mut Rng) -> Value {
    let mut files = serde_json::Map::new();
    for i in 0..r.range(1, 7) {
        let ns = *r.pick(&["telemetry", "core", "a-b", "x1"]);
        let doc = *r.pick(&["main", "event", "crash-report"]);
        files.insert(format!("{}/{}/{}.{}.schema.json", ns, doc, doc, i + 1), json!(*r.pick(KIND)));
    }
    json!({"script": if r.coin() { "nested-list" } else { "tuple-struct" }, "files": files, "stale": r.coin(), "away": r.coin(),
        "no_tag": r.chance(0.15), "detached": r.chance(0.2)})
}

/// What the stand-in program of a version prints for a schema of a kind, or None when refused.
fn says(kind: &str, control: bool, target: &str, tuple: bool) -> Option<String> {
    let ver = if control { "old" } else { "new" };
    let both = |by_version: bool, by_tuple: bool| format!("{}{}{}", target, if by_version { ver } else { "" }, if by_tuple && tuple { "tuple" } else { "" });
    Some(match kind {
        "changed" => both(true, false),
        "changed-avro" => both(target == "avro", false),
        "changed-bigquery" => both(target == "bigquery", false),
        "changed-plain" => both(!tuple, true),
        "changed-tuple" => both(tuple, true),
        "tuple" => both(false, true),
        "tuple-avro" => both(false, target == "avro"),
        "tuple-bigquery" => both(false, target == "bigquery"),
        "gone" if !control => return None,
        "new" if control => return None,
        "refused" => return None,
        // the answer depends on --resolve, which is the same in everything compared
        "strategy" => return Some(target.to_string()),
        _ => both(false, false),
    })
}

fn program(control: bool) -> String {
    // looks its answer up, so that this table is the only model
    let mut t = String::from(
        r#"#!/bin/bash
target=avro; tuple=no; strategy=cast; file=-
while [ $# -gt 0 ]; do
    case $1 in
    --type | -t) target=$2; shift ;;
    --type=*) target=${1#*=} ;;
    -t*) target=${1#-t} ;;
    --resolve | -r) strategy=$2; shift ;;
    --resolve=*) strategy=${1#*=} ;;
    -r*) strategy=${1#-r} ;;
    --tuple-struct) tuple=yes ;;
    -) file=- ;;
    -*) exit 3 ;;
    *) file=$1 ;;
    esac
    shift
done
kind=$(cat -- "$file") || exit 5
if [ "$kind" = strategy ]; then # something under-specified, equal in both versions
    echo "$target $strategy"
    exit 0
fi
case "$kind $target $tuple" in
"#,
    );
    let kinds: BTreeSet<&str> = KIND.iter().cloned().collect();
    for k in kinds {
        for target in ["avro", "bigquery"] {
            for tuple in [false, true] {
                let word = if tuple { "yes" } else { "no" };
                match says(k, control, target, tuple) {
                    Some(s) => t.push_str(&format!("'{} {} {}') echo '{}';;\n", k, target, word, s)),
                    None => t.push_str(&format!("'{} {} {}') echo refused >&2; exit 101;;\n", k, target, word)),
                }
            }
        }
    }
    t.push_str("*) exit 4;;\nesac\n");
    t
}

fn git(root: &Path, home: &Path, args: &[&str]) -> std::io::Result<String> {
    let out = Command::new("git")
        .args(args)
        .current_dir(root)
        .envs(git_env(home))
        .output()?;
    if !out.status.success() {
        return Err(std::io::Error::other(format!("git {:?}: {}", args, String::from_utf8_lossy(&out.stderr))));
    }
    Ok(String::from_utf8_lossy(&out.stdout).trim().to_string())
}
fn git_env(home: &Path) -> Vec<(&'static str, String)> {
    let ceiling = home.canonicalize().map(|p| p.display().to_string()).unwrap_or_default();
    vec![
        ("GIT_CEILING_DIRECTORIES", ceiling.clone()),
        ("HOME", ceiling),
        ("GIT_CONFIG_GLOBAL", "/dev/null".into()),
        ("GIT_CONFIG_SYSTEM", "/dev/null".into()),
        ("GIT_AUTHOR_NAME", "x".into()),
        ("GIT_AUTHOR_EMAIL", "x@example.org".into()),
        ("GIT_COMMITTER_NAME", "x".into()),
        ("GIT_COMMITTER_EMAIL", "x@example.org".into()),
    ]
}

pub fn c38_judge(c: &Value, st: &mut Stats) -> Verdict {
    let nested = c["script"] == "nested-list";
    let files: BTreeMap<String, String> = match c["files"].as_object() {
        Some(m) if !m.is_empty() => m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect(),
        _ => return Verdict::Skip,
    };
    let name = |p: &str| -> String {
        let part: Vec<&str> = p.split('/').collect();
        format!("{}.{}", part[0], part[2])
    };
    // report -> names of the schemas in it, and the two outputs where there are two
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut shown: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    type Answers<'a> = &'a dyn Fn(&str) -> (Option<String>, Option<String>);
    let mut report = |file: &str, f: Answers| {
        want.insert(file.to_string(), files.iter().filter(|(_, k)| { let (a, b) = f(k); a != b }).map(|(p, _)| name(p)).collect());
        let words = shown.entry(file.to_string()).or_default();
        for k in files.values() {
            if let (Some(a), Some(b)) = f(k) {
                if a != b {
                    words.extend([a, b]);
                }
            }
        }
    };
    for (short, target) in [("avro", "avro"), ("bq", "bigquery")] {
        report(&format!("{}-no-tuple.diff", short), &|k| (says(k, true, target, false), says(k, false, target, false)));
        if nested {
            report(&format!("{}-tuple.diff", short), &|k| (says(k, true, target, true), says(k, false, target, true)));
        } else {
            report(&format!("{}-tuple.diff", short), &|k| (says(k, false, target, false), says(k, false, target, true)));
        }
    }
    let results = if nested { "test_nested_list_results" } else { "test_tuple_results" };
    let tag = if nested { "v1.5.0" } else { "v1.4.1" };
    let no_tag = c["no_tag"] == json!(true);
    let dir = scratch("C38");
    type Left = (Ran, BTreeMap<String, String>, (String, String), (String, String), Vec<String>);
    let run = || -> std::io::Result<Left> {
        let root = dir.join("tree");
        fs::create_dir(&root)?;
        prepare(&root)?;
        fs::remove_file(root.join("target/debug/jsonschema-transpiler"))?;
        fs::write(root.join(".gitignore"), "/target\n/schemas\n/test_*_results\n/schemas.tar.gz\n")?;
        git(&root, &dir, &["init", "-q", "-b", "main"])?;
        let commit = |control: bool| -> std::io::Result<()> {
            fs::write(root.join("stub-program"), program(control))?;
            git(&root, &dir, &["add", "-A"])?;
            git(&root, &dir, &["commit", "-q", "-m", "x"])?;
            Ok(())
        };
        commit(true)?;
        git(&root, &dir, &["branch", "other"])?;
        if !no_tag {
            git(&root, &dir, &["tag", tag])?;
        }
        git(&root, &dir, &["tag", if nested { "v1.4.1" } else { "v1.5.0" }])?;
        commit(false)?;
        // there is an earlier position to go back to
        git(&root, &dir, &["checkout", "-q", "other"])?;
        if c["detached"] == json!(true) {
            git(&root, &dir, &["checkout", "-q", "--detach", "main"])?;
        } else {
            git(&root, &dir, &["checkout", "-q", "-b", "work", "main"])?;
        }
        let at = || -> std::io::Result<(String, String)> { Ok((git(&root, &dir, &["rev-parse", "--abbrev-ref", "HEAD"])?, git(&root, &dir, &["rev-parse", "HEAD"])? + &git(&root, &dir, &["status", "--porcelain"])?)) };
        // what the download gives
        let mps = dir.join("mps/mozilla-pipeline-schemas-master");
        for (p, kind) in &files {
            let f = mps.join("schemas").join(p);
            fs::create_dir_all(f.parent().unwrap())?;
            fs::write(f, kind)?;
        }
        fs::create_dir_all(mps.join("templates/telemetry/main"))?;
        fs::write(mps.join("templates/telemetry/main/main.99.schema.json"), "changed")?;
        let archive = dir.join("archive.tar.gz");
        let ok = Command::new("tar").args(["-C", &dir.join("mps").display().to_string(), "-czf", &archive.display().to_string(), "mozilla-pipeline-schemas-master"]).status()?;
        if !ok.success() {
            return Err(std::io::Error::other("tar"));
        }
        if c["stale"] == json!(true) {
            fs::create_dir(root.join(results))?;
            for f in want.keys() {
                fs::write(root.join(results).join(f), "stale\n")?;
            }
        }
        let tmp = dir.join("tmp");
        fs::create_dir(&tmp)?;
        let away = dir.join("away");
        fs::create_dir(&away)?;
        let before = at()?;
        let (cwd, path) = match c["away"] == json!(true) {
            true => (&away, root.join(format!("scripts/mps-verify-{}.sh", c["script"].as_str().unwrap_or(""))).display().to_string()),
            false => (&root, format!("scripts/mps-verify-{}.sh", c["script"].as_str().unwrap_or(""))),
        };
        let mut env = git_env(&dir);
        env.push(("TMPDIR", tmp.display().to_string()));
        env.push(("JSTMON_ARCHIVE", archive.display().to_string()));
        let a = script(&dir, &[path], cwd, &env)?;
        let after = at()?;
        let mut got = BTreeMap::new();
        if let Ok(l) = fs::read_dir(root.join(results)) {
            for e in l {
                let e = e?;
                got.insert(e.file_name().to_string_lossy().into_owned(), fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
        let mut left = vec![];
        for d in [&tmp, &away] {
            for e in fs::read_dir(d)? {
                left.push(e?.path().display().to_string());
            }
        }
        Ok((a, got, before, after, left))
    };
    let res = run();
    let _ = fs::remove_dir_all(&dir);
    let (a, got, before, after, left) = match res {
        Ok(x) => x,
        Err(e) => return Verdict::Bad("harness".into(), format!("the script could not be run: {}", e)),
    };
    let tail = |s: &str| s.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    if a.calls.contains("escape") {
        return Verdict::Bad("escape".into(), format!("the script removes files outside its directory: {}", a.calls));
    }
    if before != after {
        return Verdict::Bad("checkout".into(), format!("the checkout was {:?} and is {:?}: {}", before, after, tail(&a.err)));
    }
    if !left.is_empty() {
        return Verdict::Bad("left".into(), format!("files are left behind: {:?}", left));
    }
    if no_tag {
        // nothing to compare with
        if a.ok {
            return Verdict::Bad("no-control".into(), "the control version does not exist and the script reports success".into());
        }
        let stale = c["stale"] == json!(true);
        if got.values().any(|t| !stale || t != "stale\n") {
            return Verdict::Bad("no-control-report".into(), format!("the control version does not exist and the script leaves reports {:?}", got.keys().collect::<Vec<_>>()));
        }
        st.inc("missing_control_versions");
        return Verdict::Held(true);
    }
    if got.keys().ne(want.keys()) {
        return Verdict::Bad("reports".into(), format!("reports {:?} instead of {:?}: {}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), tail(&a.err)));
    }
    for (f, names) in &want {
        let text = &got[f];
        if text.contains("stale") {
            return Verdict::Bad("stale".into(), format!("{} is that of an earlier run", f));
        }
        for p in files.keys().map(|p| name(p)).chain(["telemetry.main.99.schema.json".to_string()]) {
            let listed = text.split(|c: char| c == '/' || c.is_whitespace()).any(|w| w.trim_matches(|c| c == '\'' || c == '"') == p);
            if listed != names.contains(&p) {
                return Verdict::Bad("report".into(), format!("{} {} {}: {}", f, if listed { "names" } else { "does not name" }, p, tail(text)));
            }
        }
        for w in &shown[f] {
            if !text.split(|c: char| !c.is_ascii_alphanumeric()).any(|x| x == w) {
                return Verdict::Bad("report-text".into(), format!("{} does not show the output {:?} of a schema that differs: {}", f, w, tail(text)));
            }
        }
        st.add("differences_reported", names.len() as u64);
        st.add("equal_outputs", (files.len() - names.len()) as u64);
    }
    st.inc("comparisons");
    Verdict::Held(want.values().any(|n| !n.is_empty()))
}
