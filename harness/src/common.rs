//! Options, conversions under observation (panics caught, log captured,
//! allocations counted).
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Cast,
    Drop,
    Panic,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target {
    Avro,
    Bq,
}
pub const TARGETS: [Target; 2] = [Target::Avro, Target::Bq];

#[derive(Clone, Debug, PartialEq)]
pub struct Ctx {
    pub res: Res,
    pub nc: bool,
    pub fnull: bool,
    pub ts: bool,
    pub mw: bool,
    pub re: Option<String>,
}

pub const PATTERNS: &[&str] = &[".*", ".*", "a", "b|foo", "root", ".*list", ".*value", "(a|c)\\.", "a|e$", "x1|_u"];

impl Ctx {
    pub fn cast() -> Ctx {
        Ctx { res: Res::Cast, nc: false, fnull: false, ts: false, mw: false, re: None }
    }
    pub fn to_json(&self) -> Value {
        json!({"resolve": match self.res {Res::Cast=>"cast",Res::Drop=>"drop",Res::Panic=>"panic"},
               "normalize_case": self.nc, "force_nullable": self.fnull, "tuple_struct": self.ts,
               "allow_maps_without_value": self.mw, "json_object_path_regex": self.re})
    }
    pub fn from_json(v: &Value) -> Ctx {
        let b = |k: &str| v[k].as_bool().unwrap_or(false);
        Ctx {
            res: match v["resolve"].as_str() {
                Some("drop") => Res::Drop,
                Some("panic") => Res::Panic,
                _ => Res::Cast,
            },
            nc: b("normalize_case"),
            fnull: b("force_nullable"),
            ts: b("tuple_struct"),
            mw: b("allow_maps_without_value"),
            re: v["json_object_path_regex"].as_str().map(|s| s.to_string()),
        }
    }
    pub fn real(&self) -> jst::Context {
        jst::Context {
            resolve_method: match self.res {
                Res::Cast => jst::ResolveMethod::Cast,
                Res::Drop => jst::ResolveMethod::Drop,
                Res::Panic => jst::ResolveMethod::Panic,
            },
            normalize_case: self.nc,
            force_nullable: self.fnull,
            tuple_struct: self.ts,
            allow_maps_without_value: self.mw,
            json_object_path_regex: self.re.clone(),
        }
    }
    pub fn with_res(&self, r: Res) -> Ctx {
        let mut c = self.clone();
        c.res = r;
        c
    }
    pub fn random(r: &mut Rng) -> Ctx {
        Ctx {
            res: *r.pick(&[Res::Cast, Res::Cast, Res::Drop, Res::Drop, Res::Panic]),
            nc: r.chance(0.3),
            fnull: r.chance(0.25),
            ts: r.chance(0.5),
            mw: r.chance(0.4),
            re: if r.chance(0.12) { Some(r.pick(PATTERNS).to_string()) } else { None },
        }
    }
    pub fn random_cast(r: &mut Rng) -> Ctx {
        Ctx::random(r).with_res(Res::Cast)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static LOG_BUF: RefCell<Vec<(log::Level, String)>> = const { RefCell::new(Vec::new()) };
    static LOG_ON: Cell<bool> = const { Cell::new(false) };
    pub static ALLOC_BYTES: Cell<u64> = const { Cell::new(0) };
    pub static ALLOC_COUNT: Cell<u64> = const { Cell::new(0) };
    pub static ALLOC_LIVE: Cell<i64> = const { Cell::new(0) };
    pub static ALLOC_PEAK: Cell<i64> = const { Cell::new(0) };
    pub static CONV_EVENTS: Cell<u64> = const { Cell::new(0) };
    pub static REFUSED: Cell<u64> = const { Cell::new(0) };
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} [{}]", msg, loc));
    }));
    let _ = log::set_logger(&LOGGER);
}

struct Sink;
static LOGGER: Sink = Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, rec: &log::Record) {
        let _ = LOG_ON.try_with(|on| {
            if on.get() {
                LOG_BUF.with(|b| b.borrow_mut().push((rec.level(), format!("{}", rec.args()))));
            }
        });
    }
    fn flush(&self) {}
}

/// Run `f` and return the log records it emitted on this thread.
pub fn with_log<T>(f: impl FnOnce() -> T) -> (T, Vec<(log::Level, String)>) {
    LOG_BUF.with(|b| b.borrow_mut().clear());
    LOG_ON.with(|o| o.set(true));
    let r = f();
    LOG_ON.with(|o| o.set(false));
    (r, LOG_BUF.with(|b| std::mem::take(&mut *b.borrow_mut())))
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// One observed conversion: the real library, `Err` is a refusal (panic).
pub fn conv(t: Target, schema: &Value, ctx: &Ctx) -> Result<Value, String> {
    CONV_EVENTS.with(|c| c.set(c.get() + 1));
    let r = catch(|| match t {
        Target::Avro => jst::convert_avro(schema, ctx.real()),
        Target::Bq => jst::convert_bigquery(schema, ctx.real()),
    });
    if r.is_err() {
        REFUSED.with(|c| c.set(c.get() + 1));
    }
    r
}

pub struct CountingAlloc;
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = ALLOC_LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n);
        let _ = ALLOC_LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        std::alloc::System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let _ = ALLOC_BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = ALLOC_COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = ALLOC_LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = ALLOC_PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
pub fn alloc_reset() {
    ALLOC_BYTES.with(|c| c.set(0));
    ALLOC_COUNT.with(|c| c.set(0));
    ALLOC_PEAK.with(|p| p.set(ALLOC_LIVE.with(|l| l.get())));
}
pub fn alloc_stats() -> (u64, u64) {
    (ALLOC_COUNT.with(|c| c.get()), ALLOC_BYTES.with(|c| c.get()))
}

/// Judgement of one case.
#[derive(Debug, Clone)]
pub enum Verdict {
    /// property held; `true` when the case exercised what the property is about
    Held(bool),
    /// the case does not belong to the property's domain
    Skip,
    /// (signature, explanation)
    Bad(String, String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: std::collections::BTreeMap<String, u64>,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(v) = self.counts.get_mut(k) {
                *v += n
            } else {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.counts {
            self.add(k, *v)
        }
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 {
        let cut: String = s.chars().take(600).collect();
        format!("{}...", cut)
    } else {
        s
    }
}
