//! C25 and C26: the real command line program as a process.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn exe() -> PathBuf {
    std::env::current_exe().expect("exe").parent().unwrap().join("jst-cli")
}

pub fn flags(c: &Ctx) -> Vec<String> {
    let mut f = vec!["--resolve".to_string(), match c.res { Res::Cast => "cast", Res::Drop => "drop", Res::Panic => "panic" }.to_string()];
    if c.nc {
        f.push("--normalize-case".into())
    }
    if c.fnull {
        f.push("--force-nullable".into())
    }
    if c.ts {
        f.push("--tuple-struct".into())
    }
    if c.mw {
        f.push("--allow-maps-without-value".into())
    }
    f
}

#[derive(Default)]
pub struct Spawn {
    pub args: Vec<String>,
    pub stdin: Option<Vec<u8>>,
    pub chunks: Vec<usize>,
    pub env: Vec<(String, String)>,
    pub cwd: Option<PathBuf>,
    pub stdout_full: bool,
    /// read this many bytes of the output, then close the pipe
    pub read_limit: Option<usize>,
}
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub timeout: bool,
}

pub fn spawn(s: &Spawn) -> std::io::Result<Done> {
    let mut cmd = Command::new(exe());
    cmd.args(&s.args).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").stderr(Stdio::piped());
    for (k, v) in &s.env {
        cmd.env(k, v);
    }
    if let Some(d) = &s.cwd {
        cmd.current_dir(d);
    }
    cmd.stdin(if s.stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    if s.stdout_full {
        cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full")?);
    } else {
        cmd.stdout(Stdio::piped());
    }
    crate::engine::cpu_limit(&mut cmd, 100);
    let mut ch = cmd.spawn()?;
    let mut d = Done { code: None, signal: None, out: vec![], err: vec![], timeout: false };
    let stdin = ch.stdin.take();
    let stdout = ch.stdout.take();
    let mut stderr = ch.stderr.take();
    std::thread::scope(|sc| {
        if let (Some(mut w), Some(data)) = (stdin, &s.stdin) {
            let chunks = &s.chunks;
            sc.spawn(move || {
                let mut at = 0;
                let mut k = 0;
                while at < data.len() {
                    let n = if chunks.is_empty() { data.len() } else { chunks[k % chunks.len()].max(1) };
                    let e = (at + n).min(data.len());
                    if w.write_all(&data[at..e]).and_then(|_| w.flush()).is_err() {
                        break; // the program has gone
                    }
                    at = e;
                    k += 1;
                    if !chunks.is_empty() && k < 12 {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            });
        }
        let errs = sc.spawn(move || {
            let mut v = vec![];
            if let Some(e) = stderr.as_mut() {
                let _ = e.read_to_end(&mut v);
            }
            v
        });
        let lim = s.read_limit;
        let outs = sc.spawn(move || {
            let mut v = vec![];
            if let Some(mut o) = stdout {
                match lim {
                    None => {
                        let _ = o.read_to_end(&mut v);
                    }
                    Some(n) => {
                        let _ = o.by_ref().take(n as u64).read_to_end(&mut v);
                    }
                }
            }
            v
        });
        let t0 = Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    d.code = st.code();
                    d.signal = st.signal();
                    break;
                }
                _ => {
                    if t0.elapsed() > Duration::from_secs(300) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        d.timeout = true;
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(if t0.elapsed() < Duration::from_millis(50) { 200 } else { 5000 }));
                }
            }
        }
        d.out = outs.join().unwrap_or_default();
        d.err = errs.join().unwrap_or_default();
    });
    Ok(d)
}

/// JSON text of a value, spelled in one of several equivalent ways.
fn spell(v: &Value, how: u64) -> String {
    match how % 4 {
        0 => v.to_string(),
        1 => serde_json::to_string_pretty(v).unwrap(),
        2 => {
            // non-ASCII characters as escapes
            let mut o = String::new();
            for c in v.to_string().chars() {
                if c.is_ascii() {
                    o.push(c)
                } else {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                }
            }
            o
        }
        _ => format!(" \n\t{}\r\n \n", serde_json::to_string_pretty(v).unwrap().replace('\n', "\r\n")),
    }
}

fn cli_args(r: &mut Rng, ctx: &Ctx, t: Target, file: Option<&str>) -> Vec<String> {
    // groups keep a flag and its value together; groups are shuffled
    let mut g: Vec<Vec<String>> = vec![];
    let s = |x: &str| x.to_string();
    let opt = |r: &mut Rng, short: &str, long: &str, val: &str| -> Vec<String> {
        match r.below(5) {
            0 => vec![s(short), s(val)],
            1 => vec![format!("{}{}", short, val)],
            2 => vec![format!("{}={}", short, val)],
            3 => vec![s(long), s(val)],
            _ => vec![format!("{}={}", long, val)],
        }
    };
    let tv = match t {
        Target::Avro => "avro",
        Target::Bq => "bigquery",
    };
    if t == Target::Bq || r.coin() {
        let a = opt(r, "-t", "--type", tv);
        g.push(a);
    }
    let rv = match ctx.res {
        Res::Cast => "cast",
        Res::Drop => "drop",
        Res::Panic => "panic",
    };
    if ctx.res != Res::Cast || r.coin() {
        let a = opt(r, "-r", "--resolve", rv);
        g.push(a);
    }
    let mut bundle = String::new();
    for (on, short, long) in [(ctx.nc, "c", "--normalize-case"), (ctx.fnull, "n", "--force-nullable"), (ctx.mw, "w", "--allow-maps-without-value")] {
        if on {
            match r.below(3) {
                0 => g.push(vec![format!("-{}", short)]),
                1 => g.push(vec![s(long)]),
                _ => bundle.push_str(short),
            }
        }
    }
    if !bundle.is_empty() {
        g.push(vec![format!("-{}", bundle)]);
    }
    if ctx.ts {
        g.push(vec![s("--tuple-struct")]);
    }
    r.shuffle(&mut g);
    if let Some(f) = file {
        if r.chance(0.2) {
            let mut a: Vec<String> = g.concat();
            a.push(s("--"));
            a.push(s(f));
            return a;
        }
        let at = r.below(g.len() + 1);
        g.insert(at, vec![s(f)]);
    }
    g.concat()
}

fn profile(r: &mut Rng) -> Profile {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.p_desc = 0.2;
    p.p_extra = 0.1;
    p.nodes = *r.pick(&[2, 8, 25, 60]);
    p.w_oneof = 5;
    p.w_tuple = 2;
    p.w_json = 2;
    p
}

const LOGS: &[&str] = &["", "off", "error", "warn", "info", "debug", "trace", "jst=trace", "jst::avro=warn,jst::bigquery=trace", "TRACE", "nonsense=level", "jst-cli=trace", "trace/a"];

// --- C25 -------------------------------------------------------------------
pub fn c25_gen(r: &mut Rng) -> Value {
    let p = profile(r);
    let mut s = gen::schema(r, &p);
    if r.chance(0.03) {
        // larger than a pipe buffer
        let m: serde_json::Map<String, Value> = (0..1500).map(|i| (format!("column{}", i), json!({"type": "integer", "description": "text ".repeat(10)}))).collect();
        s = json!({"type": "object", "properties": m, "required": ["column7"]});
    }
    if r.chance(0.2) && s.is_object() {
        s["mozPipelineMetadata"] = json!({"json_object_path_regex": *r.pick(&["a", ".*", "x|y|foo"])});
    }
    let mut ctx = Ctx::random(r);
    ctx.re = None;
    json!({"schema": s, "ctx": ctx.to_json(), "target": if r.coin() {"avro"} else {"bigquery"}, "spelling": r.below(4),
        "channel": *r.pick(&["file", "file", "dash", "none", "relative", "odd-name"]),
        "chunks": match r.below(4) {0 => json!([]), 1 => json!([1, 2, 3]), 2 => json!([r.range(1, 40)]), _ => json!([r.range(1, 9), 4096, 1])},
        "log": *r.pick(LOGS), "aseed": r.next() >> 12})
}

fn target(c: &Value) -> Target {
    if c["target"] == "bigquery" {
        Target::Bq
    } else {
        Target::Avro
    }
}

pub struct Setup {
    pub dir: PathBuf,
    pub sp: Spawn,
    pub file: Option<PathBuf>,
}

pub fn setup(c: &Value, bytes: &[u8], tag: &str) -> std::io::Result<Setup> {
    let ctx = Ctx::from_json(&c["ctx"]);
    let mut r = Rng::new(c["aseed"].as_u64().unwrap_or(1));
    let dir = {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("jstmon-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d)?;
        d
    };
    let mut sp = Spawn::default();
    let mut file = None;
    let arg: Option<String> = match c["channel"].as_str() {
        Some("dash") => {
            sp.stdin = Some(bytes.to_vec());
            Some("-".into())
        }
        Some("none") => {
            sp.stdin = Some(bytes.to_vec());
            None
        }
        ch => {
            let name = if ch == Some("odd-name") { "a b=c é.schema" } else { "schema.json" };
            let f = dir.join(name);
            std::fs::write(&f, bytes)?;
            file = Some(f.clone());
            if ch == Some("relative") {
                sp.cwd = Some(dir.clone());
                Some(name.into())
            } else {
                Some(f.display().to_string())
            }
        }
    };
    if let Some(l) = c["log"].as_str() {
        if !l.is_empty() {
            sp.env.push(("RUST_LOG".into(), l.into()));
        }
    }
    sp.chunks = c["chunks"].as_array().map(|l| l.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default();
    sp.args = cli_args(&mut r, &ctx, target(c), arg.as_deref());
    Ok(Setup { dir, sp, file })
}

fn cleanup(d: &PathBuf) {
    let _ = std::fs::remove_dir_all(d);
}

pub fn c25_judge(c: &Value, st: &mut Stats) -> Verdict {
    let ctx = Ctx::from_json(&c["ctx"]);
    let text = spell(&c["schema"], c["spelling"].as_u64().unwrap_or(0));
    let parsed: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(_) => return Verdict::Skip,
    };
    let want = match conv(target(c), &parsed, &ctx) {
        Ok(v) => v,
        Err(_) => return Verdict::Skip, // refusals are C26's business
    };
    let want = format!("{}\n", serde_json::to_string_pretty(&want).unwrap()).into_bytes();
    let su = match setup(c, text.as_bytes(), "c25") {
        Ok(s) => s,
        Err(e) => return Verdict::Bad("harness".into(), e.to_string()),
    };
    let d = spawn(&su.sp);
    cleanup(&su.dir);
    let d = match d {
        Ok(d) => d,
        Err(_) => return Verdict::Skip,
    };
    st.inc("processes_run");
    st.inc(&format!("channel_{}", c["channel"].as_str().unwrap_or("?")));
    st.add("bytes_of_output_compared", d.out.len() as u64);
    if !d.err.is_empty() {
        st.inc("runs_with_log_output");
    }
    let line = format!("{:?}", su.sp.args);
    if d.timeout {
        return Verdict::Skip;
    }
    if d.code != Some(0) {
        return Verdict::Bad("status".into(), format!("{}: exit status {:?}, signal {:?} for an input that the library accepts: {}", line, d.code, d.signal, String::from_utf8_lossy(&d.err).chars().take(300).collect::<String>()));
    }
    if d.out != want {
        return Verdict::Bad("output".into(), format!("{}: standard output {:?}, the library gives {:?}", line, cut(&d.out), cut(&want)));
    }
    Verdict::Held(true)
}
fn cut(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(400).collect()
}

// --- C26 -------------------------------------------------------------------
pub fn c26_gen(r: &mut Rng) -> Value {
    let mut p = profile(r);
    p.nodes = *r.pick(&[2, 6, 12]);
    let kind = *r.pick(&["truncate", "truncate", "trailing", "utf8", "deep", "missing", "directory", "refused", "refused", "malformed", "full", "broken-pipe", "syntax", "empty", "usage"]);
    let mut s = gen::schema(r, &p);
    let mut ctx = Ctx::random(r);
    ctx.re = None;
    let big = kind == "broken-pipe" || (kind == "full" && r.coin());
    if big {
        // an output larger than the pipe buffer
        let m: serde_json::Map<String, Value> = (0..1500).map(|i| (format!("column{}", i), json!({"type": "integer"}))).collect();
        s = json!({"type": "object", "properties": m});
    }
    if kind == "refused" {
        ctx.res = Res::Panic;
        s = json!({"type": "object", "properties": {"x": {}, "y": s}});
    }
    if kind == "malformed" {
        let bad = r.pick(&[json!({"type": "strin"}), json!({"type": "array"}), json!({"oneOf": []}), json!({"type": []}), json!({"type": "object", "properties": []}), json!([]), json!("string"), json!(7), json!(true)]).clone();
        s = if r.coin() { bad } else { json!({"type": "object", "properties": {"y": s, "x": bad}}) };
    }
    json!({"schema": s, "ctx": ctx.to_json(), "target": if r.coin() {"avro"} else {"bigquery"}, "spelling": r.below(4), "kind": kind,
        "channel": *r.pick(&["file", "dash", "none", "relative"]),
        "chunks": match r.below(3) {0 => json!([]), 1 => json!([1, 2, 3]), _ => json!([r.range(1, 40)])},
        "log": *r.pick(LOGS), "aseed": r.next() >> 12, "at": r.next() >> 12})
}

/// arguments that the program does not document
fn misuse(args: &mut Vec<String>, at: usize) {
    let bad: &[&[&str]] = &[
        &["--frobnicate"], &["-z"], &["--type", "parquet"], &["-tAVRO"], &["--type=big-query"], &["-t", ""], &["--type=json"], &["-r", "maybe"],
        &["--resolve=Drop"], &["--resolve", "cast,drop"], &["--normalize-case=true"], &["--tuple-struct=1"], &["--normalise-case"], &["--force_nullable"],
        &["-T", "avro"], &["-f", "schema.json"], &["--from-file=schema.json"], &["second", "third"], &["-cx"], &["---"],
    ];
    // a type or strategy of its own would make it a repetition as well
    let bad = bad[at % bad.len()];
    if (at / 97) % 2 == 0 {
        let l: Vec<String> = bad.iter().map(|x| x.to_string()).collect();
        args.splice(0..0, l);
    } else {
        let end = args.iter().position(|a| a == "--").unwrap_or(args.len());
        args.splice(end..end, bad.iter().map(|x| x.to_string()));
    }
}

pub fn c26_judge(c: &Value, st: &mut Stats) -> Verdict {
    let ctx = Ctx::from_json(&c["ctx"]);
    let kind = c["kind"].as_str().unwrap_or("");
    let at = c["at"].as_u64().unwrap_or(0) as usize;
    let good = spell(&c["schema"], c["spelling"].as_u64().unwrap_or(0)).into_bytes();
    let mut bytes = good.clone();
    let accepts = |b: &[u8]| serde_json::from_slice::<Value>(b).is_ok();
    match kind {
        "truncate" => bytes.truncate(at % bytes.len().max(1)),
        "empty" => bytes = [&b""[..], b" \n", b"\0", b"\xef\xbb\xbf"][at % 4].to_vec(),
        "trailing" => bytes.extend_from_slice(["x", "{}", "]", "}", ",", " null", "\n[", "\0", "# c", "/* */"][at % 10].as_bytes()),
        "syntax" => {
            if !bytes.is_empty() {
                let i = at % bytes.len();
                bytes[i] = b"\"\\{}[]:,x\n"[(at / 7) % 10];
            }
        }
        "utf8" => {
            let bad: &[u8] = [&b"\xff"[..], b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82"][at % 5];
            let i = good.iter().position(|b| *b == b'"').map(|i| i + 1).unwrap_or(0);
            bytes = [&good[..i], bad, &good[i..]].concat();
        }
        "deep" => {
            let n = 128 + at % 4000;
            let (o, e, m) = [("[", "]", "1"), ("{\"type\":\"array\",\"items\":", "}", "{\"type\":\"integer\"}"), ("{\"properties\":{\"a\":", "}}", "{}"), ("{\"oneOf\":[", "]}", "{}")][at % 4];
            bytes = format!("{}{}{}", o.repeat(n), m, e.repeat(n)).into_bytes();
        }
        _ => {}
    }
    let writing = kind == "full" || kind == "broken-pipe";
    // the oracle: is this input one the program should accept?
    let io_fault = kind == "missing" || kind == "directory";
    let ok_input = !io_fault && kind != "usage" && accepts(&bytes) && {
        let v: Value = serde_json::from_slice(&bytes).unwrap();
        conv(target(c), &v, &ctx).is_ok()
    };
    if ok_input != writing {
        return Verdict::Skip;
    }
    let mut c2 = c.clone();
    if io_fault {
        c2["channel"] = json!("file");
    }
    let mut su = match setup(&c2, &bytes, "c26") {
        Ok(s) => s,
        Err(e) => return Verdict::Bad("harness".into(), e.to_string()),
    };
    let f = su.file.clone();
    if io_fault {
        let f = f.clone().unwrap();
        let _ = std::fs::remove_file(&f);
        if kind == "directory" {
            let _ = std::fs::create_dir(&f);
        }
    }
    let meta = |p: &PathBuf| std::fs::metadata(p).ok().map(|m| (m.len(), m.modified().ok(), std::os::unix::fs::MetadataExt::ino(&m)));
    let before = f.as_ref().map(meta);
    if kind == "usage" {
        misuse(&mut su.sp.args, at);
    }
    if kind == "full" {
        su.sp.stdout_full = true;
    }
    if kind == "broken-pipe" {
        su.sp.read_limit = Some(at % 3000);
    }
    let d = spawn(&su.sp);
    let after = f.as_ref().map(meta);
    let content = f.as_ref().and_then(|f| std::fs::read(f).ok());
    let listing: Vec<_> = std::fs::read_dir(&su.dir).map(|l| l.filter_map(|e| e.ok()).map(|e| e.file_name()).collect()).unwrap_or_default();
    cleanup(&su.dir);
    let d = match d {
        Ok(d) => d,
        Err(_) => return Verdict::Skip,
    };
    if d.timeout {
        return Verdict::Skip;
    }
    st.inc("processes_run");
    st.inc(&format!("fault_{}", kind));
    let line = format!("{:?} ({}, input {:?})", su.sp.args, kind, cut(&bytes).chars().take(120).collect::<String>());
    if d.signal == Some(libc::SIGXCPU) || d.signal == Some(libc::SIGKILL) {
        return Verdict::Bad("hang".into(), format!("{}: still running after 100 s of processor time", line));
    }
    if d.code == Some(0) {
        return Verdict::Bad("status".into(), format!("{}: exit status 0, output {:?}", line, cut(&d.out)));
    }
    if !writing && !d.out.is_empty() {
        return Verdict::Bad("output".into(), format!("{}: fails after writing {:?}", line, cut(&d.out)));
    }
    if before != after || (!io_fault && f.is_some() && content.as_deref() != Some(&bytes[..])) {
        return Verdict::Bad("input-modified".into(), format!("{}: the input file has changed", line));
    }
    let expect_files = if f.is_some() && kind != "missing" { 1 } else { 0 };
    if listing.len() != expect_files {
        return Verdict::Bad("files".into(), format!("{}: files left behind: {:?}", line, listing));
    }
    if writing {
        let v: Value = serde_json::from_slice(&bytes).unwrap();
        let want = format!("{}\n", serde_json::to_string_pretty(&conv(target(c), &v, &ctx).unwrap()).unwrap()).into_bytes();
        if !want.starts_with(&d.out) {
            return Verdict::Bad("partial".into(), format!("{}: wrote {:?}", line, cut(&d.out)));
        }
        // a small output fits the pipe before it breaks
    }
    Verdict::Held(true)
}
