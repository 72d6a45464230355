//! C12 and C28: the snake_case function and the native-regex build.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::names;
use crate::pm::{case_raw, sc};
use crate::rng::Rng;
use jst::casing::to_snake_case;
use serde_json::{json, Value};

const ENUM: &[u8] = b"aBc7D_9";
/// strings over a small alphabet, numbered by length first
fn nth(mut i: u64, alphabet: &[u8]) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    loop {
        let n = k.pow(len);
        if i < n {
            break;
        }
        i -= n;
        len += 1;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    String::from_utf8(s).unwrap()
}

pub fn c12_gen(r: &mut Rng) -> Value {
    let kind = *r.pick(&["short", "ident", "ident", "ascii", "unicode", "unicode", "long", "real"]);
    let strings: Vec<String> = match kind {
        "short" => {
            let start = r.below(960_800) as u64; // all strings over ENUM up to length 7
            (0..24).map(|i| nth(start + i, ENUM)).collect()
        }
        "ident" => (0..24)
            .map(|_| {
                let n = r.range(1, 24);
                let style = r.below(3);
                (0..n)
                    .map(|_| match style {
                        0 => *r.pick(&['a', 'b', 'A', 'B', '1', '_']),
                        1 => *r.pick(&['x', 'X', 'Y', '0', '9', 'z', 'Q', 'q', '_', '5']),
                        _ => *r.pick(&['a', 'A', '7']),
                    })
                    .collect()
            })
            .collect(),
        "ascii" => (0..24)
            .map(|_| {
                let n = r.below(20);
                (0..n).map(|_| if r.coin() { *r.pick(&['a', 'Z', '0', ' ', '-', '.', '_']) } else { r.below(128) as u8 as char }).collect()
            })
            .collect(),
        "unicode" => (0..24)
            .map(|_| {
                let n = r.below(12);
                (0..n).map(|_| if r.coin() { *r.pick(&['a', 'Z', '0', '_', 'é', 'É', 'ß', 'Δ']) } else { gen::random_char(r) }).collect()
            })
            .collect(),
        "long" => vec![{
            let n = r.range(500, 30_000);
            (0..n).map(|_| *r.pick(&['a', 'B', '7', '_', '-', 'c'])).collect()
        }],
        _ => (0..24)
            .map(|_| {
                let w = ["XMLHttpRequest", "activeTicks", "sslTlsVersion", "A11Y", "GPUActive", "camelCase", "_64bit", "D2DEnabled", "user.prefs-v2", "HTTP2Server", "IPv6", "x86_64"];
                format!("{}{}", r.pick(&w), r.pick(&w))
            })
            .collect(),
    };
    json!({"strings": strings, "kind": kind})
}

pub fn c12_judge(c: &Value, st: &mut Stats) -> Verdict {
    let mut nt = false;
    for s in c["strings"].as_array().cloned().unwrap_or_default() {
        let s = s.as_str().unwrap_or("").to_string();
        let t = match catch(|| to_snake_case(&s)) {
            Ok(t) => t,
            Err(e) => return Verdict::Bad("panic".into(), format!("{:?} panics: {}", s, e)),
        };
        st.inc("strings_converted");
        nt |= t != s && !t.is_empty();
        if t.starts_with('_') || t.ends_with('_') || t.contains("__") {
            return Verdict::Bad("underscores".into(), format!("{:?} gives {:?}", s, t));
        }
        if s.is_ascii() {
            let keep = |x: &str| -> String { x.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect() };
            if keep(&s) != t.replace('_', "") {
                return Verdict::Bad("characters".into(), format!("{:?} gives {:?}", s, t));
            }
            st.inc("ascii_strings");
            let w = names::snake(&s);
            if t != w {
                return Verdict::Bad("boundaries".into(), format!("{:?} gives {:?}, the boundary rules give {:?}", s, t, w));
            }
        } else {
            st.inc("non_ascii_strings");
            if t.to_lowercase() != t {
                return Verdict::Bad("lower-case".into(), format!("{:?} gives {:?}", s, t));
            }
        }
        match catch(|| to_snake_case(&t)) {
            Ok(u) if u == t => {}
            Ok(u) => return Verdict::Bad("idempotence".into(), format!("{:?} gives {:?}, which gives {:?}", s, t, u)),
            Err(e) => return Verdict::Bad("panic".into(), format!("{:?} panics: {}", t, e)),
        }
    }
    Verdict::Held(nt)
}

// --- C28 -------------------------------------------------------------------
pub fn c28_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[1, 2, 2]);
    p.nodes = *r.pick(&[3, 10, 30]);
    p.w_object = 12;
    p.w_oneof = 4;
    p.w_tuple = 1;
    p.p_desc = 0.1;
    p.p_required = 0.6;
    p.collisions = r.coin();
    let mut ctx = Ctx::random(r);
    ctx.nc = r.chance(0.85);
    let s = if r.chance(0.7) { gen::object_root(r, &p) } else { gen::schema(r, &p) };
    let mut c = case_raw(s, &ctx);
    let strings: Vec<String> = (0..r.range(2, 12))
        .map(|_| match r.below(4) {
            0 => {
                let n = r.below(40);
                (0..n).map(|_| gen::random_char(r)).collect()
            }
            1 => gen::random_name(r, 2),
            2 => {
                let n = *r.pick(&[200usize, 1000, 6000]);
                let n = r.range(n / 2, n);
                let mix = r.below(2);
                (0..n).map(|_| if mix == 0 { *r.pick(&['a', 'B', '7', '_']) } else { gen::random_char(r) }).collect()
            }
            _ => gen::random_ident(r),
        })
        .collect();
    c["strings"] = json!(strings);
    c
}

/// What a build makes of a case; compared between builds where names are ASCII.
pub fn observe28(c: &Value) -> String {
    let (s, ctx) = sc(c);
    let mut o = String::new();
    for t in TARGETS {
        match conv(t, s, &ctx) {
            Ok(v) => o.push_str(&v.to_string()),
            Err(_) => o.push_str("refused"),
        }
        o.push('\n');
    }
    for s in c["strings"].as_array().cloned().unwrap_or_default() {
        let s = s.as_str().unwrap_or("");
        let t = catch(|| to_snake_case(s)).unwrap_or_else(|_| "panic".into());
        if s.is_ascii() {
            o.push_str(&t);
        }
        o.push('\n');
    }
    o
}
fn ascii_names(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.iter().all(|(k, c)| k.is_ascii() && ascii_names(c)),
        Value::Array(l) => l.iter().all(|c| c.as_str().map(|s| s.is_ascii()).unwrap_or(true) && ascii_names(c)),
        _ => true,
    }
}
pub fn comparable(c: &Value) -> bool {
    ascii_names(&c["schema"])
}

/// In the sanitized build: only run; the sanitizer is the oracle.
pub fn c28_judge(c: &Value, st: &mut Stats) -> Verdict {
    // a string that is not UTF-8 is undefined behaviour which no sanitizer sees
    for s in c["strings"].as_array().cloned().unwrap_or_default() {
        let s = s.as_str().unwrap_or("");
        let t = catch(|| to_snake_case(s)).unwrap_or_default();
        if let Err(e) = std::str::from_utf8(std::hint::black_box(t.as_bytes())) {
            return Verdict::Bad("utf8".into(), format!("the name made of {:?} is not UTF-8: {}", s, e));
        }
        st.inc("strings_validated");
    }
    let (s, ctx) = sc(c);
    for t in TARGETS {
        if let Ok(v) = conv(t, s, &ctx) {
            let text = v.to_string();
            if let Err(e) = std::str::from_utf8(std::hint::black_box(text.as_bytes())) {
                return Verdict::Bad("utf8".into(), format!("the output is not UTF-8: {}", e));
            }
        }
    }
    let o = observe28(c);
    st.add("bytes_produced", o.len() as u64);
    st.add("strings_converted", c["strings"].as_array().map(|l| l.len()).unwrap_or(0) as u64);
    Verdict::Held(true)
}
