//! Structure-aware generator of JSON Schemas (all inside the supported set
//! unless a property asks for something else).
use crate::names;
use crate::rng::Rng;
use serde_json::{json, Map, Value};

#[derive(Clone)]
pub struct Profile {
    pub depth: usize,
    pub nodes: usize,
    /// 0 simple, 1 mixed case/symbols, 2 hostile
    pub names: u8,
    pub collisions: bool,
    pub w_atom: u32,
    pub w_list: u32,
    pub w_object: u32,
    pub w_map: u32,
    pub w_array: u32,
    pub w_tuple: u32,
    pub w_oneof: u32,
    pub w_json: u32,
    pub w_null: u32,
    pub p_desc: f64,
    pub p_extra: f64,
    pub p_required: f64,
    /// arrays whose element is (or may turn out to be) a map
    pub array_map: bool,
    /// omit `type` on records, unknown names in `required`, and the like
    pub loose: bool,
    pub max_fields: usize,
    /// tuples that do not state minItems (then every listed item is required)
    pub tuple_no_min: bool,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            depth: 5,
            nodes: 40,
            names: 1,
            collisions: false,
            w_atom: 10,
            w_list: 3,
            w_object: 8,
            w_map: 3,
            w_array: 4,
            w_tuple: 2,
            w_oneof: 4,
            w_json: 2,
            w_null: 1,
            p_desc: 0.0,
            p_extra: 0.1,
            p_required: 0.5,
            array_map: true,
            loose: true,
            max_fields: 5,
            tuple_no_min: true,
        }
    }
}

pub const SIMPLE: &[&str] = &["a", "b", "c", "d", "e", "foo", "bar_baz", "x1", "_u", "zed"];
pub const MIXED: &[&str] = &[
    "a", "b", "c", "camelCase", "XMLHttp", "fooBar2Baz", "a7aAa", "A7AAa", "RAM", "_Private", "foo__bar",
    "Foo.Bar", "64bit", "with-dash", "a.b", "list", "key", "value", "f0_", "f1_", "root", "__union__",
    "f10_", "type", "Zed", "zed", "A", "_", "__", "_9", "x-1.y", "a_", "HTTPServer", "IDs", "name", "items",
    "properties", "9", "-", "required", "null", "B2b", "aB", "...", "__unknown__", "namespace", "description",
];
/// Words that mean something to the targets or to SQL, valid as they are.
pub const WORDS: &[&str] = &[
    "record", "string", "long", "int", "enum", "fixed", "error", "array", "map", "union", "boolean", "bytes", "double", "float",
    "fields", "doc", "aliases", "symbols", "size", "logical_type", "order", "select", "from", "group", "table", "partition",
    "timestamp", "date", "datetime", "json", "struct", "repeated", "nullable", "required", "mode", "true", "false", "null", "id",
    "schema", "metadata", "document_id", "submission_timestamp", "additional_properties", "self", "type", "name", "default",
];
pub const RESERVED: &[&str] = &[
    "_TABLE_SUFFIX", "_PARTITIONTIME", "_PARTITIONDATE", "_FILE_NAME", "_ROW_TIMESTAMP", "__ROOT__", "_COLIDENTIFIER", "__UNNAMED__",
    "__unknown__", "_table_x", "_partition_1", "_file_", "_CHANGE_TYPE", "x-ray", "x-vendor.id", "additionalProperties", "__typename",
    "__proto__", "_id", "_source", "_64bit", "ID", "userID", "SQL", "NULL", "True",
];
pub const SPECIAL: &[&[&str]] = &[
    &["key", "value"], &["list"], &["f0_"], &["f0_", "f1_"], &["key"], &["value"], &["root"], &["list", "value"],
    &["name", "type"], &["fields"], &["name", "type", "fields"], &["name", "type", "mode"], &["items"], &["type", "items"],
    &["values"], &["null"], &["properties"], &["type", "properties"], &["default"], &["namespace", "name"], &["a", "a_b"],
    &["key", "key_value", "value"], &["__UNNAMED__"], &["__unknown__", "__UNNAMED__"], &["f1_", "f0_"], &["f0_", "f2_"], &["__union__"], &["a", "b", "c", "d", "e", "f", "g"],
];
pub const HOSTILE: &[&str] = &[
    "", " ", "$schema", "é", "日本", "a b", "_", "__", "...", "-", "0", "٣abc", "²x", "a\n", "a\u{0}", "😀", "a/b",
    "Å", "ﬁ", "a-b", "a\u{301}", "x y.z", "\"", "\\", "$ref", "@id", "über", "naïve", "x'", "Ⅷ", "ª", "a_b_", "_-_",
    "A.B", "9.9", "--", "é.a", "a.é", "\u{feff}a", "\u{202e}a", "½", "१", "a\u{200d}b", "ẞ", "ǅ", "İx", "ı", "K",
];

pub fn random_ident(r: &mut Rng) -> String {
    const CH: &[u8] = b"abcxyzABCXYZ0129__";
    let n = r.range(1, 9);
    let mut s = String::new();
    for i in 0..n {
        let c = *r.pick(CH) as char;
        if i == 0 && c.is_ascii_digit() && r.coin() {
            continue;
        }
        s.push(c);
    }
    if s.is_empty() {
        s.push('q');
    }
    s
}

pub fn random_name(r: &mut Rng, level: u8) -> String {
    if r.chance(0.06) {
        return match level {
            0 => r.pick(WORDS).to_string(),
            _ if r.chance(0.3) => r.pick(RESERVED).to_string(),
            _ if r.chance(0.3) => r.pick(WORDS).to_string(),
            _ => {
                // a word of the source code, alone or with something
                let w = if words().is_empty() { "a".to_string() } else { r.pick(words()).clone() };
                let plain = w.bytes().all(|b| b.is_ascii_alphanumeric() || b"_-.".contains(&b));
                if level == 1 && (!plain || w.is_empty() || w.len() > 30) {
                    "root".to_string()
                } else {
                    match r.below(6) {
                        0 => w.to_lowercase(),
                        1 => w.to_uppercase(),
                        2 => format!("{}{}", w, random_ident(r)),
                        3 => format!("{}{}", random_ident(r), w),
                        _ => w,
                    }
                }
            }
        };
    }
    match level {
        0 => r.pick(SIMPLE).to_string(),
        1 => {
            if r.chance(0.25) {
                let mut s = random_ident(r);
                if r.chance(0.3) {
                    s.insert(r.below(s.len() + 1), *r.pick(&['.', '-', '_']));
                }
                s
            } else if r.chance(0.4) {
                r.pick(SIMPLE).to_string()
            } else {
                r.pick(MIXED).to_string()
            }
        }
        _ => match r.below(8) {
            0 | 1 | 2 => r.pick(HOSTILE).to_string(),
            3 => {
                let n = r.range(0, 6);
                let mut s = String::new();
                for _ in 0..n {
                    s.push(random_char(r));
                }
                s
            }
            4 => {
                // a valid name with one strange character somewhere
                let mut s: Vec<char> = random_ident(r).chars().collect();
                let at = r.below(s.len() + 1);
                s.insert(at, random_char(r));
                s.into_iter().collect()
            }
            5 if r.chance(0.1) => {
                let n = r.range(200, 3000);
                (0..n).map(|_| *r.pick(&['a', 'B', '_', '7'])).collect()
            }
            _ => random_name(r, 1),
        },
    }
}

/// The same letters in another case.
pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s
            .chars()
            .map(|c| match (r.chance(0.4), c.is_ascii_uppercase()) {
                (false, _) => c,
                (true, true) => c.to_ascii_lowercase(),
                (true, false) => c.to_ascii_uppercase(),
            })
            .collect(),
    }
}

pub fn random_char(r: &mut Rng) -> char {
    let (lo, hi) = match r.below(16) {
        0..=3 => return *r.pick(&['\u{660}', '\u{2167}', '\u{1d7d8}', '\u{ff10}', '\u{feff}', '\u{1f600}', '\u{10ffff}', 'a', 'Z', '0', '9', '_', '-', '.', ' ', '$', '@', '/', ':', 'q', 'X']),
        4 | 5 => (0, 0x7f),
        6 | 7 => (0x80, 0xff),
        8 => (0x100, 0x24f),
        9 => (0x250, 0x3ff),
        // spaces, hyphens, dots and such
        10 | 11 => (0x2000, 0x206f),
        12 => (0xff00, 0xffef),
        13 => (0x2070, 0x2fff),
        14 => (0x400, 0xffff),
        _ => (0x10000, 0x10ffff),
    };
    for _ in 0..20 {
        if let Some(c) = char::from_u32(lo + r.below((hi - lo + 1) as usize) as u32) {
            return c;
        }
    }
    'é'
}

pub fn random_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => {
            // around the description limit, with multi-byte characters
            let n = *r.pick(&[1020usize, 1023, 1024, 1025, 1030, 1400, 2048, 5000]);
            let c = *r.pick(&['x', 'é', '日', '😀']);
            let mut s: String = std::iter::repeat(c).take(n).collect();
            if r.coin() {
                s.insert(r.below(3).min(s.chars().count()) * 0, 'y');
            }
            s
        }
        2 => "multi\nline \"quoted\" \\ text".into(),
        3 => " - ".into(),
        4 => "é日本😀".into(),
        5 => {
            // space at the ends, or nothing else
            let t = r.pick(&["", "", "a", "a b", "A."]);
            format!("{}{}{}", r.pick(&["", " ", "\t", "\n", "\u{a0}", "  "]), t, r.pick(&["", " ", "\t", "\r\n", "  ", "\u{3000}"]))
        }
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| *r.pick(&['a', 'b', ' ', '-', 'Z', '.', '0'])).collect()
        }
    }
}

pub fn random_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => json!(r.coin()),
        2 => json!(r.below(1000) as i64 - 500),
        3 => json!((r.below(1000) as f64) / 8.0 - 20.0),
        4 | 5 => json!(random_text_short(r)),
        6 => {
            let n = r.below(4);
            Value::Array((0..n).map(|_| random_json(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            let mut m = Map::new();
            for _ in 0..n {
                m.insert(random_name(r, 1), random_json(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

pub fn random_text_short(r: &mut Rng) -> String {
    let n = r.below(6);
    (0..n).map(|_| *r.pick(&['a', 'b', ' ', '-', 'Z', '.', '0', 'é'])).collect()
}

/// Keywords outside the translated set, safe on any subschema.
pub const INERT: &[&str] = &[
    "$schema", "$id", "id", "$comment", "$ref", "definitions", "$defs", "enum", "const", "pattern", "minimum", "maximum",
    "exclusiveMinimum", "multipleOf", "minLength", "maxLength", "anyOf", "not", "if", "then", "default", "examples",
    "uniqueItems", "contains", "propertyNames", "dependencies", "minProperties", "maxProperties", "readOnly",
    "mozPipelineMetadata", "x-vendor", "Type", "Properties", "one_of", "oneof", "nullable", "name", "namespace",
    "fields", "mode", "data_type", "additional_properties", "extra", "", "é", "deprecated", "prefixItems",
    "unevaluatedProperties", "contentEncoding", "contentMediaType", "$anchor", "Required", "additionalitems", "is_root", "object", "array",
];

/// A value that makes sense for the keyword, so that code which starts to
/// look at it has something to look at.
fn typical(r: &mut Rng, k: &str) -> Option<Value> {
    let few = |r: &mut Rng| -> Vec<Value> {
        let mut l = match r.below(4) {
            0 => vec![json!("a"), json!("b")],
            1 => vec![json!(1), json!(2.5)],
            2 => vec![json!(true)],
            _ => vec![json!("x"), json!(0), json!(false)],
        };
        if r.coin() {
            l.insert(r.below(l.len() + 1), Value::Null);
        }
        if r.chance(0.2) {
            l.truncate(1);
        }
        l
    };
    Some(match k {
        "enum" | "examples" => Value::Array(few(r)),
        "const" | "default" => few(r).remove(0),
        "nullable" | "readOnly" | "deprecated" | "uniqueItems" | "is_root" | "Required" => json!(r.coin()),
        "pattern" | "contentEncoding" | "contentMediaType" => {
            json!(*r.pick(&["^[0-9]+$", "base64", "binary", "^.*$", "^\\d{4}-\\d{2}-\\d{2}$", "application/json", "application/octet-stream"]))
        }
        "minimum" | "maximum" | "exclusiveMinimum" | "minLength" | "maxLength" | "minProperties" | "maxProperties" | "multipleOf" => {
            match r.below(4) {
                0 => r.pick(&[json!(1e30), json!(-1e300), json!(9.3e18), json!(0.5), json!(1.0), json!(-0.0), json!(u64::MAX), json!(i64::MIN), json!(i64::MAX)]).clone(),
                _ => json!(*r.pick(&[0i64, 1, 2, 64, 127, 128, 255, 256, 1024, 32767, 65535, 2147483647, 4294967296, -1, -128, -2147483648])),
            }
        }
        "$ref" => json!(*r.pick(&["#", "#/definitions/a", "other.json"])),
        "$schema" => json!(*r.pick(&["http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-07/schema#"])),
        "anyOf" | "prefixItems" => {
            let mut l = vec![Value::Object(atom(r)), json!({"type": "null"})];
            if r.coin() {
                l.push(json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["a"]}));
            }
            r.shuffle(&mut l);
            Value::Array(l)
        }
        "not" | "if" | "then" | "contains" | "propertyNames" | "unevaluatedProperties" => match r.below(3) {
            0 => json!({}),
            1 => json!({"type": "null"}),
            _ => Value::Object(atom(r)),
        },
        "definitions" | "$defs" | "dependencies" => json!({"a": Value::Object(atom(r)), "b": {"type": "object", "properties": {}}}),
        _ => return None,
    })
}

pub fn add_inert(r: &mut Rng, m: &mut Map<String, Value>) -> bool {
    let k = if r.chance(0.1) && !words().is_empty() {
        // a word of the source code that is no translated keyword
        let w = r.pick(words()).clone();
        if TRANSLATED.contains(&w.as_str()) {
            return false;
        }
        w
    } else {
        r.pick(INERT).to_string()
    };
    if m.contains_key(&k) {
        return false;
    }
    if r.chance(0.6) {
        if let Some(v) = typical(r, &k) {
            m.insert(k, v);
            return true;
        }
    }
    let v = if k == "mozPipelineMetadata" {
        match r.below(5) {
            0 => json!({"bq_dataset_family": "x", "bq_table": "t"}),
            1 => json!({"json_object_path_regex": null}),
            2 => json!({"json_object_path_regex": 5}),
            3 => json!("text"),
            _ => json!(null),
        }
    } else if r.chance(0.06) && !words().is_empty() {
        json!(r.pick(words()))
    } else if r.chance(0.3) {
        // looks like a schema
        let mut p = Profile::base();
        p.depth = 2;
        p.nodes = 5;
        p.p_extra = 0.0;
        let s = schema(r, &p);
        if r.coin() {
            json!([s])
        } else {
            s
        }
    } else {
        random_json(r, 2)
    };
    m.insert(k, v);
    true
}

const TRANSLATED: &[&str] = &[
    "type", "format", "description", "title", "properties", "additionalProperties", "patternProperties", "required", "items",
    "additionalItems", "minItems", "maxItems", "oneOf", "allOf", "mozPipelineMetadata", "json_object_path_regex",
];

struct Dictionary {
    words: Vec<String>,
    numbers: Vec<usize>,
}

/// The string and integer literals of the code under test: they only steer
/// the workload towards the limits and names the code knows about.
fn dictionary() -> &'static Dictionary {
    static D: std::sync::OnceLock<Dictionary> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut words = std::collections::BTreeSet::new();
        let mut numbers = std::collections::BTreeSet::new();
        let mut files: Vec<_> = std::fs::read_dir("/repo/src").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        let lit = regex::Regex::new(r#""((?:[^"\\\n]|\\.)*)"|'([^'\\\n]|\\.)'|\b([0-9][0-9_]*)(?:[iu](?:8|16|32|64|size))?\b"#).unwrap();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            // the code, not its tests
            let text = text.split("#[cfg(test)]").next().unwrap_or("");
            for line in text.lines() {
                let line = line.trim_start();
                if line.starts_with("//") || line.starts_with('#') {
                    continue;
                }
                for c in lit.captures_iter(line) {
                    if let Some(w) = c.get(1).or(c.get(2)) {
                        if w.as_str().chars().count() <= 40 {
                            words.insert(w.as_str().to_string());
                        }
                    }
                    if let Some(n) = c.get(3).and_then(|n| n.as_str().replace('_', "").parse::<usize>().ok()) {
                        if n <= 6000 {
                            numbers.insert(n);
                        }
                    }
                }
            }
        }
        Dictionary { words: words.into_iter().collect(), numbers: numbers.into_iter().collect() }
    })
}
pub fn words() -> &'static Vec<String> {
    &dictionary().words
}

/// A size at or next to a limit.
pub fn limit(r: &mut Rng, max: usize) -> usize {
    const USUAL: &[usize] = &[8, 10, 16, 20, 32, 50, 63, 64, 100, 127, 128, 200, 255, 256, 300, 512, 1000, 1024, 2048];
    for _ in 0..20 {
        let n = if r.coin() && !dictionary().numbers.is_empty() { *r.pick(&dictionary().numbers) } else { *r.pick(USUAL) };
        let n = (n + r.below(3)).saturating_sub(1);
        if n >= 6 && n <= max {
            return n;
        }
    }
    max.min(40)
}

/// A name whose length is at a limit.
fn long_name(r: &mut Rng, level: u8) -> String {
    let n = limit(r, 1100);
    let mut s: String = match level {
        0 => (0..n).map(|i| if i % 7 == 6 { '_' } else { 'k' }).collect(),
        1 => (0..n).map(|_| *r.pick(&['a', 'a', 'b', 'B', '_', '7', '.', '-'])).collect(),
        _ => {
            let c = *r.pick(&['é', '日', '😀', 'Q']);
            let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'C', '1'])).collect();
            // a multi-byte character across or next to the limit
            let at = n - r.below(4).min(n);
            s.insert(at, c);
            if r.coin() {
                s.push_str("tail");
            }
            return s;
        }
    };
    if level == 0 {
        s.push_str(&format!("x{}", r.below(90)));
        s = s[s.len() - n..].trim_start_matches('_').to_string();
        if s.is_empty() || s.as_bytes()[0].is_ascii_digit() {
            s.insert(0, 'k');
        }
    }
    s
}

struct G<'a> {
    p: &'a Profile,
    left: i64,
    /// one unusually large dimension of this schema
    stress: Stress,
    /// names are distinct as they are, but perhaps not in snake_case
    plain: bool,
    /// some of the schemas made so far, to occur again elsewhere
    pool: Vec<Value>,
}
#[derive(Clone, Copy, PartialEq)]
enum Stress {
    No,
    LongNames,
    Wide,
    ManyAlternatives,
    LongTuple,
}
impl<'a> G<'a> {
    fn new(r: &mut Rng, p: &'a Profile) -> G<'a> {
        let stress = match r.below(50) {
            0 | 1 => Stress::LongNames,
            2 => Stress::Wide,
            3 => Stress::ManyAlternatives,
            4 => Stress::LongTuple,
            _ => Stress::No,
        };
        let plain = r.chance(0.3);
        G { p, left: p.nodes as i64, stress, plain, pool: Vec::new() }
    }
    /// put a schema below many containers
    fn deepen(&mut self, r: &mut Rng, mut s: Value) -> Value {
        let n = r.range(6, 40);
        let period = r.range(1, 4);
        let kinds: Vec<usize> = (0..period).map(|_| r.weighted(&[self.p.w_object, self.p.w_array, self.p.w_map, self.p.w_oneof, self.p.w_tuple])).collect();
        let key = random_name(r, self.p.names);
        let mut maybe_map = true;
        for i in 0..n {
            let k = kinds[i % period];
            s = match k {
                1 if !(maybe_map && !self.p.array_map) => {
                    maybe_map = false;
                    json!({"type": "array", "items": s})
                }
                2 => {
                    maybe_map = true;
                    json!({"type": "object", "additionalProperties": s})
                }
                3 => {
                    maybe_map = true;
                    json!({"oneOf": if r.coin() { vec![s, json!({"type": "null"})] } else { vec![s] }})
                }
                4 => {
                    maybe_map = false;
                    json!({"type": "array", "items": [s, {"type": "integer"}], "additionalItems": false, "minItems": r.below(3)})
                }
                _ => {
                    maybe_map = false;
                    let mut m = Map::new();
                    m.insert(key.clone(), s);
                    if r.chance(0.2) {
                        m.insert("sibling".into(), Value::Object(atom(r)));
                    }
                    let req = if r.chance(self.p.p_required) { vec![key.clone()] } else { vec![] };
                    json!({"type": "object", "properties": m, "required": req})
                }
            };
        }
        s
    }
}

pub fn schema(r: &mut Rng, p: &Profile) -> Value {
    let mut g = G::new(r, p);
    let d = p.depth;
    if r.chance(0.03) && p.nodes > 5 {
        let p2 = Profile { depth: 2, nodes: 6, ..p.clone() };
        let mut inner = G { p: &p2, left: 6, stress: Stress::No, plain: false, pool: Vec::new() };
        let s = inner.node(r, 2, false);
        return g.deepen(r, s);
    }
    g.node(r, d, false)
}

/// like `schema`, but the root is an object with properties
pub fn object_root(r: &mut Rng, p: &Profile) -> Value {
    let mut g = G::new(r, p);
    let d = p.depth;
    let mut m = g.object(r, d);
    g.annotate(r, &mut m);
    Value::Object(m)
}

pub fn one_of_root(r: &mut Rng, p: &Profile) -> Value {
    let mut g = G::new(r, p);
    let d = p.depth;
    let m = g.one_of(r, d, false);
    Value::Object(m)
}

pub fn kind_root(r: &mut Rng, p: &Profile, kind: usize) -> Value {
    let mut g = G::new(r, p);
    let d = p.depth;
    let mut m = g.kind(r, d, kind, false);
    g.annotate(r, &mut m);
    Value::Object(m)
}

impl<'a> G<'a> {
    fn node(&mut self, r: &mut Rng, d: usize, no_map: bool) -> Value {
        self.left -= 1;
        let p = self.p;
        if d > 0 && !no_map && !self.pool.is_empty() && r.chance(0.05) {
            // the same schema at another place, as it is or with other texts
            let mut v = r.pick(&self.pool).clone();
            if r.chance(0.4) {
                if let Some(m) = v.as_object_mut() {
                    if p.p_desc > 0.0 {
                        m.remove("description");
                        m.remove("title");
                    }
                    self.annotate(r, m);
                }
            }
            self.left -= 4;
            return v;
        }
        let leaf = d == 0 || self.left <= 0;
        let kind = if leaf {
            *r.pick(&[0usize, 0, 0, 0, 1, 7, 8])
        } else {
            let w = [
                p.w_atom, p.w_list, p.w_object, if no_map { 0 } else { p.w_map }, p.w_array, p.w_tuple,
                p.w_oneof, p.w_json, p.w_null,
            ];
            r.weighted(&w)
        };
        let kind = match kind {
            1 if p.w_list == 0 => 0,
            7 if p.w_json == 0 => 0,
            8 if p.w_null == 0 => 0,
            k => k,
        };
        let mut m = self.kind(r, d, kind, no_map);
        self.annotate(r, &mut m);
        let v = Value::Object(m);
        if !leaf && kind >= 1 && kind <= 6 && self.pool.len() < 6 && r.chance(0.3) && serde_json::to_string(&v).map(|t| t.len() < 500).unwrap_or(false) {
            self.pool.push(v.clone());
        }
        v
    }

    fn kind(&mut self, r: &mut Rng, d: usize, kind: usize, no_map: bool) -> Map<String, Value> {
        match kind {
            0 => atom(r),
            1 => self.type_list(r, d, no_map),
            2 => self.object(r, d),
            3 => self.map(r, d),
            4 => {
                let mut m = Map::new();
                m.insert("type".into(), json!("array"));
                let nm = !self.p.array_map;
                m.insert("items".into(), self.node(r, d.saturating_sub(1), nm));
                if self.p.loose && r.chance(0.2) {
                    m.insert("minItems".into(), json!(r.below(4)));
                }
                if self.p.loose && r.chance(0.1) {
                    m.insert("maxItems".into(), json!(if r.coin() { r.range(4, 9) } else { r.below(4) }));
                }
                m
            }
            5 => self.tuple(r, d),
            6 => self.one_of(r, d, no_map),
            7 => self.json(r),
            _ => {
                let mut m = Map::new();
                m.insert("type".into(), json!("null"));
                m
            }
        }
    }

    /// keywords of the other kinds, which have no meaning here
    fn cross(&mut self, r: &mut Rng, m: &mut Map<String, Value>) {
        let types: Vec<String> = match m.get("type") {
            Some(Value::String(s)) => vec![s.clone()],
            Some(Value::Array(l)) => l.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect(),
            _ => return,
        };
        let is = |t: &str| types.iter().any(|x| x == t);
        let mut add = |k: &str, v: Value| {
            m.entry(k.to_string()).or_insert(v);
        };
        let some = Value::Object(atom(r));
        if !is("object") {
            match r.below(5) {
                0 => add("properties", json!({"a": some, "b": {"type": "object"}})),
                1 => add("additionalProperties", some),
                2 => add("oneOf", json!([some, {"type": "null"}])),
                3 => add("patternProperties", json!({"^a": some})),
                _ => {}
            }
            if r.coin() {
                add("required", json!(["a"]));
            }
        }
        if !is("array") {
            match r.below(5) {
                0 => add("items", Value::Object(atom(r))),
                1 => add("items", json!([{"type": "string"}, {}])),
                2 => add("minItems", json!(r.below(3))),
                3 => add("maxItems", json!(r.below(3))),
                _ => add("additionalItems", json!(r.coin())),
            }
        }
        if is("object") && m.get("properties").is_some() && r.coin() {
            m.entry("oneOf").or_insert(json!([{"type": "object", "properties": {"z": {"type": "integer"}}, "required": ["z"]}, {"type": "null"}]));
        }
        if r.chance(0.3) {
            m.entry("allOf").or_insert(json!([{"type": "object", "properties": {"z": {"type": "integer"}}}]));
        }
        if r.chance(0.3) && !is("string") {
            m.entry("format").or_insert(json!("date-time"));
        }
    }

    fn annotate(&mut self, r: &mut Rng, m: &mut Map<String, Value>) {
        if self.p.loose && r.chance(0.06) {
            self.cross(r, m);
        }
        if r.chance(self.p.p_desc) {
            m.insert("description".into(), json!(random_text(r)));
        }
        if r.chance(self.p.p_desc * 0.7) {
            m.insert("title".into(), json!(random_text(r)));
        }
        if self.p.p_desc > 0.0 && r.chance(0.05) {
            // texts that have something to do with each other
            let (title, text) = match r.below(4) {
                0 => {
                    let t = random_text(r);
                    (t.clone(), t)
                }
                1 => {
                    let t = random_text(r);
                    (t.clone(), format!("{}{}", t, r.pick(&["", " ", ".", " - ", " - x"])))
                }
                _ => {
                    // together at the limit
                    let all = r.range(1018, 1028);
                    let k = *r.pick(&[0, 1, 2, 500, 1000, 1017]);
                    let c = *r.pick(&["a", "w ", "é", "日 ", "\n"]);
                    let fill = |n: usize| c.chars().cycle().take(n).collect::<String>();
                    (fill(k), fill(all - k))
                }
            };
            m.insert("title".into(), json!(title));
            m.insert("description".into(), json!(text));
        }
        if r.chance(self.p.p_extra) {
            add_inert(r, m);
        }
    }

    fn json(&mut self, r: &mut Rng) -> Map<String, Value> {
        let mut m = Map::new();
        match r.below(6) {
            0 => {}
            1 => {
                m.insert("type".into(), json!("object"));
            }
            2 => {
                m.insert("type".into(), json!("object"));
                m.insert("additionalProperties".into(), json!(r.coin()));
            }
            3 => {
                m.insert("type".into(), json!("object"));
                m.insert("properties".into(), json!({}));
            }
            4 => {
                m.insert("oneOf".into(), json!([{"type": "string"}, {"type": "integer"}]));
            }
            _ => {
                m.insert("patternProperties".into(), json!({}));
            }
        }
        m
    }

    fn type_list(&mut self, r: &mut Rng, d: usize, no_map: bool) -> Map<String, Value> {
        let mut m = Map::new();
        let mut l: Vec<&str> = Vec::new();
        match r.below(8) {
            0..=3 => {
                // one type and null
                l.push(r.pick(&["string", "integer", "number", "boolean"]));
                l.push("null");
            }
            4 => {
                l.push("integer");
                l.push("number");
                if r.coin() {
                    l.push("null");
                }
            }
            5 if d > 0 && self.p.w_object > 0 => {
                m = self.object(r, d);
                l.push("object");
                l.push("null");
            }
            6 if d > 0 && self.p.w_array > 0 => {
                l.push("array");
                l.push("null");
                let nm = !self.p.array_map;
                m.insert("items".into(), self.node(r, d - 1, nm));
            }
            7 if r.coin() => {
                // several of all, each once
                l = vec!["string", "integer", "number", "boolean", "null"];
                r.shuffle(&mut l);
                l.truncate(r.range(2, 5));
            }
            _ => {
                let n = r.range(1, 3);
                for _ in 0..n {
                    l.push(r.pick(&["string", "integer", "number", "boolean", "null"]));
                }
            }
        }
        if r.chance(0.12) && d > 0 {
            // containers of every kind in lists, alone or with others
            m = Map::new();
            l.clear();
            let kinds = [(2usize, "object", self.p.w_object), (3, "object", if no_map { 0 } else { self.p.w_map }), (4, "array", self.p.w_array), (5, "array", self.p.w_tuple)];
            let usable: Vec<_> = kinds.iter().filter(|k| k.2 > 0).collect();
            if usable.is_empty() {
                l.push("integer");
            } else {
                for _ in 0..r.range(1, 2) {
                    let k = r.pick(&usable);
                    for (a, b) in self.kind(r, d - 1, k.0, no_map) {
                        m.entry(a).or_insert(b);
                    }
                    l.push(k.1);
                    if self.p.w_json == 0 || r.chance(0.7) {
                        break;
                    }
                }
                m.remove("type");
            }
            if r.coin() {
                l.push("null");
            }
            if self.p.w_json > 0 && r.chance(0.15) {
                l.push(r.pick(&["string", "integer", "boolean"]));
            }
        }
        if r.coin() {
            r.shuffle(&mut l);
        }
        if r.chance(0.25) {
            m.insert("format".into(), json!(format_word(r)));
        }
        if r.chance(0.06) {
            // repeated, which changes nothing
            let times = if r.chance(0.3) { r.range(5, 40) } else { r.range(1, 4) };
            for _ in 0..times {
                let again = *r.pick(&l);
                l.insert(r.below(l.len() + 1), again);
            }
        }
        if self.p.w_json == 0 {
            // avoid incompatible lists
            let non: Vec<&str> = l.iter().cloned().filter(|x| *x != "null").collect();
            let first = *non.first().unwrap_or(&"null");
            l.retain(|x| *x == "null" || *x == first);
        }
        if self.p.w_null == 0 && l.iter().all(|x| *x == "null") {
            l.push("boolean");
        }
        m.insert("type".into(), json!(l));
        m
    }

    fn fresh(&self, r: &mut Rng, used: &[String], used_norm: &[String]) -> Option<String> {
        for _ in 0..20 {
            let n = if self.stress == Stress::LongNames && r.chance(0.4) {
                long_name(r, self.p.names)
            } else if self.stress == Stress::Wide && r.chance(0.9) {
                format!("w{}", r.below(10_000))
            } else if !used.is_empty() && r.chance(if self.p.names > 0 { 0.08 } else { 0.04 }) {
                // a name close to the one of a sibling
                let k = r.pick(used).clone();
                match r.below(6) {
                    0..=2 => recase(r, &k),
                    3 => format!("{}{}", k, r.pick(&["_", "1", "s", "_a", "X"])),
                    4 => format!("{}{}", r.pick(&["_", "a", "X", "__"]), k),
                    _ => k.chars().skip(1).collect(),
                }
            } else {
                random_name(r, self.p.names)
            };
            if used.contains(&n) {
                continue;
            }
            if !self.p.collisions {
                let c = if self.plain { names::column(&n) } else { names::column_nc(&n) };
                if let Some(c) = c {
                    if used_norm.contains(&c) {
                        continue;
                    }
                }
            }
            return Some(n);
        }
        None
    }

    fn object(&mut self, r: &mut Rng, d: usize) -> Map<String, Value> {
        let mut m = Map::new();
        if !self.p.loose || r.chance(0.85) {
            m.insert("type".into(), json!("object"));
        }
        let n = if r.chance(0.05) { 0 } else { r.range(1, self.p.max_fields) };
        let n = if self.p.w_json == 0 { n.max(1) } else { n };
        let n = if self.stress == Stress::Wide && r.coin() {
            self.left = self.left.min(6);
            limit(r, 140)
        } else {
            n
        };
        let mut props = Map::new();
        let mut used: Vec<String> = Vec::new();
        let mut used_norm: Vec<String> = Vec::new();
        // names that mean something in the outputs, alone or together
        let special: Option<&[&str]> = if r.chance(0.04) { Some(*r.pick(SPECIAL)) } else { None };
        let n = special.map(|l| l.len() + if r.chance(0.2) { 1 } else { 0 }).unwrap_or(n);
        for i in 0..n {
            let k = match special.and_then(|l| l.get(i)) {
                Some(k) => Some(k.to_string()),
                None => self.fresh(r, &used, &used_norm),
            };
            if let Some(k) = k {
                let c = if self.plain { names::column(&k) } else { names::column_nc(&k) };
                if let Some(c) = c {
                    used_norm.push(c);
                }
                used.push(k.clone());
                props.insert(k, self.node(r, d.saturating_sub(1), false));
            }
        }
        if r.chance(0.8) {
            let mut req: Vec<String> = used.iter().filter(|_| r.chance(self.p.p_required)).cloned().collect();
            if self.p.loose && r.chance(0.1) {
                req.push(random_name(r, 0) + "_absent");
            }
            if self.p.loose && r.chance(0.04) && !req.is_empty() {
                // listed more than once, which changes nothing
                let again = r.pick(&req).clone();
                req.push(again);
            }
            r.shuffle(&mut req);
            m.insert("required".into(), json!(req));
        }
        m.insert("properties".into(), Value::Object(props));
        if self.p.loose {
            match r.below(12) {
                0 => {
                    m.insert("additionalProperties".into(), json!(r.coin()));
                }
                1 => {
                    m.insert("additionalProperties".into(), Value::Object(atom(r)));
                }
                2 => {
                    m.insert("patternProperties".into(), json!({"^x": Value::Object(atom(r))}));
                }
                _ => {}
            }
        }
        m
    }

    fn map(&mut self, r: &mut Rng, d: usize) -> Map<String, Value> {
        let mut m = Map::new();
        if !self.p.loose || r.chance(0.85) {
            m.insert("type".into(), json!("object"));
        }
        let which = r.below(6);
        if which != 1 {
            m.insert("additionalProperties".into(), self.node(r, d.saturating_sub(1), false));
        }
        if which <= 2 {
            let many = r.chance(0.08);
            let n = if many { r.range(3, 12) } else if which == 1 { r.range(1, 3) } else { r.below(3) };
            let mut pp = Map::new();
            let first = self.node(r, d.saturating_sub(1), false);
            let one_kind = if r.chance(0.2) { Some(*r.pick(&[1, 2, 2, 4, 5, 5])) } else { None };
            for i in 0..n {
                let v = if let Some(k) = one_kind {
                    Value::Object(self.kind(r, d.saturating_sub(1), k, false))
                } else if i == 0 || r.chance(0.4) { self.variant_of(r, &first, d) } else { self.node(r, d.saturating_sub(1), false) };
                let v = if many && serde_json::to_string(&v).map(|t| t.len() > 300).unwrap_or(true) { Value::Object(atom(r)) } else { v };
                let k = if many { format!("^{}", i) } else { r.pick(&["^a", "^b.*$", ".*", "", "[0-9]+", "é", "^(?!x)", "(a)\\1", "(", "[", "*", "^(?:a|b)$", "\\d", "a.b", "^x-", "a|"]).to_string() };
                pp.insert(k, v);
            }
            if which != 1 && r.coin() {
                m.insert("additionalProperties".into(), first);
            }
            if which == 1 && r.chance(0.5) {
                m.insert("additionalProperties".into(), json!(r.coin()));
            }
            m.insert("patternProperties".into(), Value::Object(pp));
        } else if self.p.loose && r.chance(0.15) {
            let names: Vec<&str> = ["zz", "key", "value", "a"].into_iter().take(r.range(0, 4)).collect();
            m.insert("required".into(), json!(names));
        }
        m
    }

    fn tuple(&mut self, r: &mut Rng, d: usize) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("type".into(), json!("array"));
        let n = if self.stress == Stress::LongTuple && r.coin() {
            limit(r, 140)
        } else if r.chance(0.08) {
            r.range(10, 13)
        } else if self.p.loose && self.p.w_json > 0 && r.chance(0.05) {
            0
        } else {
            r.range(1, 4)
        };
        let items: Vec<Value> = (0..n)
            .map(|_| if n >= 10 { Value::Object(atom(r)) } else { self.node(r, d.saturating_sub(1), false) })
            .collect();
        m.insert("items".into(), Value::Array(items));
        match r.below(3) {
            0 => {
                m.insert("additionalItems".into(), json!(false));
                if r.coin() {
                    m.insert("maxItems".into(), json!(n));
                }
            }
            1 => {
                m.insert("additionalItems".into(), self.node(r, d.saturating_sub(1), false));
                let more = if self.stress == Stress::LongTuple && r.coin() { limit(r, 140) } else { r.below(4) };
                m.insert("maxItems".into(), json!(n + more));
            }
            _ => {
                m.insert("maxItems".into(), json!(n));
            }
        }
        if m.get("additionalItems") == Some(&json!(false)) && self.p.loose && r.chance(0.06) {
            // no more than listed, whatever this says
            m.insert("maxItems".into(), r.pick(&[json!(u64::MAX), json!(i64::MAX), json!(1000000), json!(n + 5)]).clone());
        }
        if !self.p.tuple_no_min || r.chance(0.6) {
            m.insert("minItems".into(), json!(r.below(n + 1)));
        }
        m
    }

    /// a schema that overlaps with `s` (same kind, slightly different)
    fn variant_of(&mut self, r: &mut Rng, s: &Value, d: usize) -> Value {
        let mut v = s.clone();
        if let Some(m) = v.as_object_mut() {
            if let Some(Value::Object(props)) = m.get("properties").cloned() {
                let mut np = Map::new();
                for (k, pv) in props {
                    match r.below(10) {
                        0 | 1 => {}
                        2 if d > 0 => {
                            np.insert(k, self.variant_of(r, &pv, d - 1));
                        }
                        3 => {
                            np.insert(k, json!({"oneOf": [pv, {"type": "null"}]}));
                        }
                        4 if pv["type"] == "integer" => {
                            np.insert(k, json!({"type": "number"}));
                        }
                        _ => {
                            np.insert(k, pv);
                        }
                    }
                }
                if r.chance(0.5) {
                    let used: Vec<String> = np.keys().cloned().collect();
                    let norm: Vec<String> = used.iter().filter_map(|k| names::column_nc(k)).collect();
                    if let Some(k) = self.fresh(r, &used, &norm) {
                        np.insert(k, Value::Object(atom(r)));
                    }
                }
                if r.chance(0.6) {
                    let mut req: Vec<String> = np.keys().filter(|_| r.chance(0.7)).cloned().collect();
                    r.shuffle(&mut req);
                    m.insert("required".into(), json!(req));
                } else if r.chance(0.4) {
                    m.remove("required");
                }
                m.insert("properties".into(), Value::Object(np));
            } else if m.get("type") == Some(&json!("array")) && m.get("items").map(|i| i.is_object()).unwrap_or(false) && d > 0 {
                let i = m["items"].clone();
                m.insert("items".into(), self.variant_of(r, &i, d - 1));
            } else if m.get("additionalProperties").map(|i| i.is_object()).unwrap_or(false) && d > 0 {
                let i = m["additionalProperties"].clone();
                m.insert("additionalProperties".into(), self.variant_of(r, &i, d - 1));
            } else if m.get("type") == Some(&json!("integer")) && r.chance(0.4) {
                m.insert("type".into(), json!("number"));
            }
        }
        v
    }

    fn one_of(&mut self, r: &mut Rng, d: usize, no_map: bool) -> Map<String, Value> {
        let mut m = Map::new();
        let dd = d.saturating_sub(1);
        let n = if self.stress == Stress::ManyAlternatives && r.coin() {
            // once, and around something small: the alternatives are copies
            self.stress = Stress::No;
            self.left = self.left.min(8);
            limit(r, 40)
        } else {
            r.range(1, 4)
        };
        let mode = if n > 4 { r.below(8) } else { r.below(10) };
        let mut alts: Vec<Value> = match mode {
            0 | 1 => (0..n).map(|_| Value::Object(atom(r))).collect(),
            2 => {
                let a = Value::Object(atom(r));
                (0..n).map(|_| if r.chance(0.85) { self.variant_of(r, &a, 0) } else { Value::Object(atom(r)) }).collect()
            }
            3 | 4 | 5 => {
                let a = Value::Object(self.object(r, dd));
                (0..n).map(|i| if i == 0 { a.clone() } else { self.variant_of(r, &a, 3) }).collect()
            }
            6 => {
                let a = self.kind(r, dd, 4, false);
                let a = Value::Object(a);
                (0..n).map(|i| if i == 0 { a.clone() } else { self.variant_of(r, &a, 3) }).collect()
            }
            7 if !no_map => {
                let a = Value::Object(self.map(r, dd));
                (0..n).map(|i| if i == 0 { a.clone() } else { self.variant_of(r, &a, 3) }).collect()
            }
            8 => {
                let a = self.node(r, dd, no_map);
                vec![a]
            }
            9 if r.chance(0.4) => {
                // unrelated schemas of one kind
                let k = *r.pick(&[1, 2, 2, 4, 5, 5, 6]);
                (0..n).map(|_| Value::Object(self.kind(r, dd, k, no_map))).collect()
            }
            _ => (0..n).map(|_| self.node(r, dd, no_map)).collect(),
        };
        if r.chance(0.3) {
            alts.push(json!({"type": "null"}));
        }
        if r.chance(0.15) {
            // group some alternatives in a further oneOf
            if alts.len() > 1 {
                let k = r.range(1, alts.len() - 1);
                let tail = alts.split_off(k);
                alts.push(json!({"oneOf": tail}));
            }
        }
        r.shuffle(&mut alts);
        for a in alts.iter_mut() {
            if let Some(o) = a.as_object_mut() {
                if r.chance(self.p.p_desc) {
                    o.insert("description".into(), json!(random_text(r)));
                }
            }
        }
        m.insert("oneOf".into(), Value::Array(alts));
        if self.p.loose && r.chance(0.2) {
            m.insert("type".into(), json!("object"));
        }
        m
    }
}

/// a format: one with a meaning, one that resembles it, or any other
pub fn format_word(r: &mut Rng) -> String {
    let known = *r.pick(&["date-time", "date-time", "bytes"]);
    match r.below(20) {
        0..=11 => known.to_string(),
        12 => known.to_uppercase(),
        13 => known[..1].to_uppercase() + &known[1..],
        14 => r.pick(&["date_time", "datetime", "dateTime", "date time", "Date-Time", "byte", "bytes64", "byte-string", "binary", "base64", "base64url"]).to_string(),
        15 => format!("{}{}{}", r.pick(&["", " ", "x-", "\u{feff}"]), known, r.pick(&["", " ", "-local", "s", "\n", "\0"])),
        16 => r.pick(&["timestamp", "date", "time", "duration", "uuid", "decimal", "int64", "int32", "float", "double", "unix-time", "utc-millisec", "geography", "numeric"]).to_string(),
        17 => r.pick(&["json", "JSON", "json-pointer", "regex", "uri", "email", "ipv4", "hostname", "color", "other"]).to_string(),
        18 => "".to_string(),
        _ => random_ident(r),
    }
}

pub fn atom(r: &mut Rng) -> Map<String, Value> {
    let mut m = Map::new();
    let t = *r.pick(&["boolean", "integer", "number", "string", "string", "integer"]);
    m.insert("type".into(), json!(t));
    if t == "string" && r.chance(0.4) {
        m.insert(
            "format".into(),
            json!(format_word(r)),
        );
    } else if r.chance(0.05) {
        m.insert("format".into(), json!(format_word(r)));
    }
    m
}
