//! Runs a property's workload on all cores in a child process, attributes
//! crashes and hangs to a case, shrinks what it finds, writes the evidence.
use crate::common::*;
use crate::rng::{hash_bytes, Rng};
use crate::sutil;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Value,
    pub judge: fn(&Value, &mut Stats) -> Verdict,
    /// how cases are made and which are non-trivial
    pub rule: &'static str,
    /// cases in the quick tier
    pub quick: u64,
}

pub const THREADS: usize = 8;

pub struct Env {
    pub verif: PathBuf,
    pub seed: u64,
    pub thorough: bool,
}
impl Env {
    pub fn get() -> Env {
        let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
        Env {
            verif,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        }
    }
    pub fn out(&self) -> PathBuf {
        let d = self.verif.join("out");
        let _ = std::fs::create_dir_all(&d);
        d
    }
    /// a smaller workload, for experiments with many changed copies
    pub fn scaled(&self, n: u64) -> u64 {
        let p: u64 = std::env::var("VERIF_PERCENT").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
        (n * p / 100).max(20)
    }
    pub fn thorough_secs(&self) -> u64 {
        std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(300)
    }
}

/// What a check observed; turned into the evidence file and the exit status.
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub rule: String,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub bad: Vec<(String, String, Value)>,
    pub errors: Vec<String>,
    pub extra: Vec<(String, Value)>,
}

pub fn known(env: &Env) -> Vec<Value> {
    let p = env.verif.join("known-findings.json");
    let v: Value = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
    v["findings"].as_array().cloned().unwrap_or_default()
}

/// Evidence, verdict line, exit status.
pub fn finish(env: &Env, id: &str, rep: Report, t0: Instant, judge: Option<fn(&Value, &mut Stats) -> Verdict>) -> i32 {
    let mut code = 0;
    let mut violations = 0;
    let kf = known(env);
    for k in kf.iter().filter(|k| k["property"] == id && k["status"] == "known") {
        // each listed finding is observed again on its own input
        let still = match judge {
            Some(j) => {
                let mut c = k["case"].clone();
                c["probe"] = json!(true);
                let mut st = Stats::default();
                matches!(j(&c, &mut st), Verdict::Bad(..))
            }
            None => true,
        };
        if still {
            println!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap_or(""));
        } else {
            println!("note: known finding no longer observed: property={} {}", id, k["what"].as_str().unwrap_or(""));
        }
    }
    for (sig, text, case) in &rep.bad {
        let listed = kf.iter().any(|k| k["property"] == id && k["status"] == "known" && k["case"]["schema"] == case["schema"] && k["case"]["ctx"] == case["ctx"] && case["schema"] != Value::Null);
        if listed {
            continue;
        }
        violations += 1;
        if code == 0 || violations <= 3 {
            let name = format!("{}-{:016x}.json", id, hash_bytes(format!("{}{}", sig, case).as_bytes()));
            let path = env.out().join(name);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "signature": sig, "what": text, "case": case})).unwrap());
            println!("{}: {}", sig, text);
            println!("case: {}", short(case));
            println!("VIOLATION property={} replay={}", id, path.display());
        }
        code = 1;
    }
    if code == 0 {
        for e in &rep.errors {
            println!("INCONCLUSIVE: {}", e);
            code = 2;
        }
        if rep.distinct < 1 {
            println!("INCONCLUSIVE: nothing was observed");
            code = 2;
        }
    } else {
        for e in &rep.errors {
            println!("note: {}", e);
        }
    }
    let mut cov = json!({
        "evaluations": rep.evaluations,
        "distinct_nontrivial": rep.distinct,
        "rule": rep.rule,
        "samples": rep.samples,
        "observed": rep.counters,
    });
    for (k, v) in rep.extra {
        cov[k] = v;
    }
    let ev = json!({
        "property": id,
        "tier": if env.thorough {"thorough"} else {"quick"},
        "seed": env.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "held on the executions observed in this run, nothing more",
            "the oracle in /verif/harness states the documented rules correctly",
        ],
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations,
    });
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("INCONCLUSIVE: cannot write evidence: {}", e);
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1}s",
        id,
        ["held on everything explored", "VIOLATED", "inconclusive"][code as usize],
        ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"],
        t0.elapsed().as_secs_f64()
    );
    code
}

// --- shared memory journal: one slot per thread: case number + 1, start ms --
struct Slots {
    p: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn open(path: &Path) -> std::io::Result<Slots> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len((THREADS * 16) as u64)?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), THREADS * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { p: p as *mut u64 })
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { AtomicU64::from_ptr(self.p.add(i)) }
    }
    fn begin(&self, t: usize, idx: u64, ms: u64) {
        self.at(2 * t + 1).store(ms, Ordering::SeqCst);
        self.at(2 * t).store(idx + 1, Ordering::SeqCst);
    }
    fn end(&self, t: usize) {
        self.at(2 * t).store(0, Ordering::SeqCst);
    }
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}

pub fn case_of(p: &Prop, seed: u64, idx: u64) -> Value {
    let mut r = Rng::of(seed, p.id, idx);
    (p.gen)(&mut r)
}

/// Child: evaluate cases until the count or the time is used up.
pub fn work(p: &Prop, seed: u64, cases: u64, secs: u64, dir: &Path, skip: &[u64]) -> i32 {
    let slots = Slots::open(&dir.join("slots")).expect("slots");
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    struct Acc {
        evals: u64,
        skipped: u64,
        hashes: HashSet<u64>,
        stats: Stats,
        samples: Vec<(u64, Value)>,
        conv: u64,
        refused: u64,
        bad: Vec<(u64, String, String)>,
        errors: Vec<String>,
    }
    let all = Mutex::new(Vec::<Acc>::new());
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (slots, next, stop, all) = (&slots, &next, &stop, &all);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut a = Acc {
                        evals: 0,
                        skipped: 0,
                        hashes: HashSet::new(),
                        stats: Stats::default(),
                        samples: vec![],
                        conv: 0,
                        refused: 0,
                        bad: vec![],
                        errors: vec![],
                    };
                    while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs() < secs {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= cases {
                            break;
                        }
                        if skip.contains(&idx) {
                            continue;
                        }
                        slots.begin(t, idx, now_ms());
                        let r = catch(|| {
                            let c = case_of(p, seed, idx);
                            let v = (p.judge)(&c, &mut a.stats);
                            (c, v)
                        });
                        slots.end(t);
                        a.evals += 1;
                        match r {
                            Err(m) => {
                                if a.errors.len() < 3 {
                                    a.errors.push(format!("the monitor itself failed on case {}: {}", idx, m));
                                }
                            }
                            Ok((_, Verdict::Skip)) => a.skipped += 1,
                            Ok((c, Verdict::Held(nt))) => {
                                if nt {
                                    let h = hash_bytes(c.to_string().as_bytes());
                                    if a.hashes.insert(h) && a.samples.len() < 2 && idx >= 16 && c.to_string().len() < 1500 {
                                        a.samples.push((idx, c));
                                    }
                                }
                            }
                            Ok((_, Verdict::Bad(sig, text))) => {
                                a.bad.push((idx, sig, text));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    a.conv = CONV_EVENTS.with(|c| c.get());
                    a.refused = REFUSED.with(|c| c.get());
                    all.lock().unwrap().push(a);
                })
                .expect("thread");
        }
    });
    let mut evals = 0;
    let mut skipped = 0;
    let mut hashes = HashSet::new();
    let mut stats = Stats::default();
    let mut samples = vec![];
    let mut bads = vec![];
    let mut errors = vec![];
    for a in all.into_inner().unwrap() {
        evals += a.evals;
        skipped += a.skipped;
        hashes.extend(a.hashes);
        stats.merge(&a.stats);
        samples.extend(a.samples);
        stats.add("conversions_observed", a.conv);
        stats.add("conversions_refused", a.refused);
        bads.extend(a.bad);
        errors.extend(a.errors);
    }
    stats.add("cases_outside_domain", skipped);
    bads.sort();
    samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = samples.into_iter().take(3).map(|s| s.1).collect();
    let mut result = json!({
        "evals": evals, "distinct": hashes.len(), "samples": samples, "counters": stats.counts,
        "bad": bads.iter().map(|(i, s, t)| json!({"idx": i, "sig": s, "text": t, "case": case_of(p, seed, *i)})).collect::<Vec<_>>(),
        "errors": errors,
    });
    let path = dir.join("result.json");
    std::fs::write(&path, result.to_string()).expect("result");
    // shrink the first one, from a thread with enough stack
    if let Some((i, sig, text)) = bads.first() {
        let c = case_of(p, seed, *i);
        let (c2, t2) = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || shrink(p, c, sig, text)).unwrap().join().unwrap()
        });
        result["bad"] = json!([{"idx": i, "sig": sig, "text": t2, "case": c2}]);
        std::fs::write(&path, result.to_string()).expect("result");
    }
    0
}

fn shrink(p: &Prop, mut c: Value, sig: &str, text: &str) -> (Value, String) {
    let t0 = Instant::now();
    let mut text = text.to_string();
    let mut st = Stats::default();
    'outer: loop {
        let mut cands: Vec<Value> = vec![];
        if c["schema"].is_object() {
            let base = sutil::size(&c["schema"]);
            for s in sutil::reductions(&c["schema"]) {
                if sutil::size(&s) <= base {
                    let mut n = c.clone();
                    n["schema"] = s;
                    cands.push(n);
                }
            }
        }
        if c["ctx"].is_object() {
            for k in ["normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value"] {
                if c["ctx"][k] == json!(true) {
                    let mut n = c.clone();
                    n["ctx"][k] = json!(false);
                    cands.push(n);
                }
            }
        }
        cands.sort_by_key(|v| v.to_string().len());
        for n in cands {
            if t0.elapsed() > Duration::from_secs(8) {
                break 'outer;
            }
            if n == c {
                continue;
            }
            if let Ok(Verdict::Bad(s, t)) = catch(|| (p.judge)(&n, &mut st)) {
                if s == sig {
                    c = n;
                    text = t;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (c, text)
}

/// Processor-time and memory limits for a child: exceeding them is a signal,
/// independent of how loaded the machine is.
pub fn cpu_limit(cmd: &mut Command, secs: u64) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            let c = libc::rlimit { rlim_cur: secs, rlim_max: secs + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &c);
            let k = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &k);
            Ok(())
        });
    }
}

pub fn limited(mut cmd: Command, secs: u64) -> std::io::Result<(Option<std::process::ExitStatus>, f64)> {
    let t0 = Instant::now();
    let mut ch = cmd.stdin(Stdio::null()).spawn()?;
    loop {
        if let Some(st) = ch.try_wait()? {
            return Ok((Some(st), t0.elapsed().as_secs_f64()));
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok((None, t0.elapsed().as_secs_f64()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

impl Report {
    pub fn absorb(&mut self, tag: &str, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct += o.distinct;
        if self.samples.is_empty() {
            self.samples = o.samples;
        }
        for (k, v) in o.counters {
            *self.counters.entry(if tag.is_empty() { k } else { format!("{}.{}", tag, k) }).or_insert(0) += v;
        }
        self.bad.extend(o.bad.into_iter().map(|(s, t, c)| (if tag.is_empty() { s } else { format!("{}-{}", tag, s) }, t, c)));
        self.errors.extend(o.errors);
    }
}

/// Child: one observation hash per case, 0 where builds may differ.
pub fn dump(p: &Prop, seed: u64, cases: u64, out: &Path, observe: fn(&Value) -> String, comparable: fn(&Value) -> bool) -> i32 {
    let next = AtomicU64::new(0);
    let v: Vec<AtomicU64> = (0..cases).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|sc| {
        for _ in 0..THREADS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases {
                        break;
                    }
                    let c = case_of(p, seed, i);
                    if comparable(&c) {
                        v[i as usize].store(hash_bytes(observe(&c).as_bytes()) | 1, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let b: Vec<u8> = v.iter().flat_map(|x| x.load(Ordering::Relaxed).to_le_bytes()).collect();
    std::fs::write(out, b).expect("write");
    0
}

pub fn other_build(env: &Env, var: &str, rel: &str) -> PathBuf {
    std::env::var_os(var).map(PathBuf::from).unwrap_or_else(|| env.verif.join(rel))
}

/// Compare the observations of two builds over the same cases.
pub fn compare_builds(env: &Env, p: &Prop, a: &Path, b: &Path, cases: u64, rep: &mut Report) {
    let dir = scratch("dump");
    let mut data = vec![];
    for (i, exe) in [a, b].iter().enumerate() {
        let out = dir.join(format!("d{}", i));
        let mut cmd = Command::new(exe);
        cmd.args(["dump", p.id, &env.seed.to_string(), &cases.to_string()]).arg(&out).stdout(Stdio::null()).stderr(Stdio::null());
        match limited(cmd, 600) {
            Ok((Some(s), _)) if s.success() => {}
            x => {
                if rep.bad.is_empty() {
                    rep.errors.push(format!("comparison run of {}: {:?}", exe.display(), x));
                }
            }
        }
        data.push(std::fs::read(&out).unwrap_or_default());
    }
    let _ = std::fs::remove_dir_all(&dir);
    if data[0].len() != data[1].len() || data[0].is_empty() {
        return;
    }
    let mut n = 0;
    for i in 0..data[0].len() / 8 {
        let (x, y) = (&data[0][8 * i..8 * i + 8], &data[1][8 * i..8 * i + 8]);
        if x != [0u8; 8] {
            n += 1;
        }
        if x != y {
            let c = case_of(p, env.seed, i as u64);
            rep.bad.push(("builds-differ".into(), format!("case {}: the builds give different results", i), c));
            break;
        }
    }
    *rep.counters.entry("cases_compared_between_builds".into()).or_insert(0) += n;
}

/// Thorough: the workload in a ThreadSanitizer build; a report ends it.
pub fn race_run(env: &Env, p: &Prop, exe: &Path, cases: u64, rep: &mut Report) {
    let dir = scratch("tsan");
    let log = dir.join("report");
    let mut cmd = Command::new(exe);
    cmd.args(["work", p.id, &env.seed.to_string(), &cases.to_string(), "600"])
        .arg(&dir)
        .arg("")
        .env("TSAN_OPTIONS", format!("halt_on_error=1:exitcode=66:log_path={}", log.display()))
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    let r = limited(cmd, 900);
    let mut text = String::new();
    if let Ok(l) = std::fs::read_dir(&dir) {
        for e in l.flatten() {
            if e.file_name().to_string_lossy().starts_with("report") {
                text.push_str(&String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let result: Option<Value> = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok());
    let _ = std::fs::remove_dir_all(&dir);
    if text.contains("WARNING: ThreadSanitizer") {
        rep.bad.push(("race".into(), text.chars().take(3000).collect(), json!({"workload": "work under ThreadSanitizer", "seed": env.seed, "cases": cases})));
    } else {
        match (r, result) {
            (Ok((Some(s), _)), Some(v)) if s.success() => {
                *rep.counters.entry("cases_under_thread_sanitizer".into()).or_insert(0) += v["evals"].as_u64().unwrap_or(0);
            }
            (r, _) => rep.errors.push(format!("ThreadSanitizer run: {:?}", r)),
        }
    }
}

pub fn scratch(tag: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("jstmon-{}-{}-{:x}-{}", tag, std::process::id(), now_ms(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Parent: run the worker, watch it, attribute crashes and hangs.
pub fn drive(env: &Env, p: &Prop, exe: &Path) -> Report {
    let mut rep = Report { rule: p.rule.to_string(), ..Report::default() };
    let dir = scratch(p.id);
    let (cases, secs) = if env.thorough { (u64::MAX, env.thorough_secs()) } else { (env.scaled(p.quick), 90) };
    let mut skip: Vec<u64> = vec![];
    let mut fatal = 0;
    for _round in 0..3 {
        let _ = std::fs::remove_file(dir.join("slots"));
        let _ = std::fs::remove_file(dir.join("result.json"));
        let slots = Slots::open(&dir.join("slots")).expect("slots");
        let mut ch = Command::new(exe)
            .args(["work", p.id, &env.seed.to_string(), &cases.to_string(), &secs.to_string()])
            .arg(&dir)
            .arg(skip.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let t0 = Instant::now();
        let mut hung: Option<u64> = None;
        let status = loop {
            if let Ok(Some(st)) = ch.try_wait() {
                break st;
            }
            std::thread::sleep(Duration::from_millis(30));
            let now = now_ms();
            for t in 0..THREADS {
                let i = slots.at(2 * t).load(Ordering::SeqCst);
                let ms = slots.at(2 * t + 1).load(Ordering::SeqCst);
                if i > 0 && now > ms + 30_000 {
                    hung = Some(i - 1);
                }
            }
            if hung.is_some() || t0.elapsed().as_secs() > secs + 120 {
                let _ = ch.kill();
                break ch.wait().expect("wait");
            }
        };
        let suspects: Vec<u64> = (0..THREADS).map(|t| slots.at(2 * t).load(Ordering::SeqCst)).filter(|i| *i > 0).map(|i| i - 1).collect();
        let result: Option<Value> = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok());
        if let Some(v) = result {
            rep.evaluations += v["evals"].as_u64().unwrap_or(0);
            rep.distinct += v["distinct"].as_u64().unwrap_or(0);
            rep.samples = v["samples"].as_array().cloned().unwrap_or_default();
            for (k, n) in v["counters"].as_object().cloned().unwrap_or_default() {
                *rep.counters.entry(k).or_insert(0) += n.as_u64().unwrap_or(0);
            }
            for b in v["bad"].as_array().cloned().unwrap_or_default() {
                rep.bad.push((b["sig"].as_str().unwrap_or("").into(), b["text"].as_str().unwrap_or("").into(), b["case"].clone()));
            }
            for e in v["errors"].as_array().cloned().unwrap_or_default() {
                rep.errors.push(e.as_str().unwrap_or("").into());
            }
            break;
        }
        // the worker died or was stopped: which case was it?
        let suspects = match hung {
            Some(i) => vec![i],
            None => suspects,
        };
        let mut explained = false;
        for i in suspects {
            let f = dir.join("case.json");
            let c = match catch(|| case_of(p, env.seed, i)) {
                Ok(c) => c,
                Err(m) => {
                    rep.errors.push(m);
                    continue;
                }
            };
            let _ = std::fs::write(&f, json!({"property": p.id, "case": c}).to_string());
            let mut cmd = Command::new(exe);
            let errf = dir.join("stderr");
            cmd.arg("replay").arg(&f).stdout(Stdio::null()).stderr(match std::fs::File::create(&errf) {
                Ok(f) => Stdio::from(f),
                Err(_) => Stdio::null(),
            });
            match limited(cmd, 60) {
                Ok((Some(st), _)) if st.signal().is_some() => {
                    explained = true;
                    rep.bad.push((
                        "crash".into(),
                        format!("a conversion killed the process with signal {}: {}", st.signal().unwrap(), std::fs::read(&errf).map(|b| String::from_utf8_lossy(&b).chars().take(1500).collect::<String>()).unwrap_or_default()),
                        c,
                    ));
                }
                Ok((Some(_), _)) => {}
                Ok((None, s)) => {
                    explained = true;
                    if ["C03", "C04"].contains(&p.id) {
                        rep.bad.push(("hang".into(), format!("a conversion did not finish within {:.0} s", s), c));
                    } else {
                        rep.errors.push(format!("case {} did not finish within {:.0} s", i, s));
                    }
                }
                Err(e) => rep.errors.push(e.to_string()),
            }
            skip.push(i);
        }
        if !rep.bad.is_empty() || !rep.errors.is_empty() {
            break;
        }
        // memory errors and races between the threads need not come back in
        // the same case: dying of one three times out of three is the answer
        const FATAL: [i32; 5] = [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP];
        if !explained && status.signal().map(|x| FATAL.contains(&x)).unwrap_or(false) {
            fatal += 1;
        }
        if !explained && _round == 2 {
            if fatal == 3 && ["C02", "C03", "C28"].contains(&p.id) {
                rep.bad.push((
                    "crash-concurrent".into(),
                    format!("conversions on {} threads of one process killed it three times with {:?}; no single case does", THREADS, status),
                    json!({"workload": "work", "seed": env.seed, "cases": cases}),
                ));
                break;
            }
            rep.errors.push(format!("the worker ended with {:?} for no case that could be found", status));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep
}
