//! Strict readers for the two output formats (these are also the validity
//! monitors), and the aspect-wise comparison with an expectation.
use crate::common::{conv, Ctx, Target};
use crate::model::{expect, Expect, Expectation, F, T, V};
use crate::names;
use serde_json::Value;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum AT {
    Null,
    Prim(String),
    Record(String, Vec<AF>),
    Array(Box<AV>),
    Map(Box<AV>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct AV {
    pub nullable: bool,
    pub t: AT,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AF {
    pub name: String,
    pub v: AV,
    pub default: Option<Value>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub ty: String,
    pub mode: String,
    pub desc: Option<String>,
    pub fields: Vec<Col>,
    pub desc_free: bool,
    pub cast: bool,
    pub tuple: bool,
}

const PRIMS: &[&str] = &["boolean", "int", "long", "float", "double", "bytes", "string"];

struct AvroReader {
    errs: Vec<String>,
    defined: BTreeSet<String>,
}

/// Parse Avro output by the Avro specification; every deviation is an error.
pub fn read_avro(v: &Value) -> (Option<AV>, Vec<String>) {
    let mut r = AvroReader { errs: vec![], defined: BTreeSet::new() };
    let a = r.value(v, "", "$");
    (a, r.errs)
}

impl AvroReader {
    fn err(&mut self, at: &str, m: &str) {
        self.errs.push(format!("{}: {}", at, m));
    }
    fn value(&mut self, v: &Value, ns: &str, at: &str) -> Option<AV> {
        match v {
            Value::Array(l) => {
                let mut out: Vec<AV> = Vec::new();
                for x in l {
                    if x.is_array() {
                        self.err(at, "union directly inside a union");
                        return None;
                    }
                    out.push(self.value(x, ns, at)?);
                }
                if out.len() != 2 {
                    self.err(at, &format!("union with {} branches", out.len()));
                    return None;
                }
                if out[0].t != AT::Null {
                    self.err(at, "first union branch is not null");
                    return None;
                }
                if out[1].t == AT::Null {
                    self.err(at, "repeated union branch");
                    return None;
                }
                let mut x = out.pop().unwrap();
                x.nullable = true;
                Some(x)
            }
            Value::String(s) => self.named(s, at),
            Value::Object(m) => {
                let t = match m.get("type") {
                    Some(Value::String(s)) => s.clone(),
                    Some(inner) if m.len() == 1 => return self.value(inner, ns, at),
                    _ => {
                        self.err(at, "no type");
                        return None;
                    }
                };
                let allow: &[&str] = match t.as_str() {
                    "record" => &["type", "name", "namespace", "fields"],
                    "array" => &["type", "items"],
                    "map" => &["type", "values"],
                    _ => &["type"],
                };
                for k in m.keys() {
                    if !allow.contains(&k.as_str()) {
                        self.err(at, &format!("unexpected attribute {:?}", k));
                    }
                }
                match t.as_str() {
                    "record" => {
                        let name = match m.get("name").and_then(|n| n.as_str()) {
                            Some(n) => n.to_string(),
                            None => {
                                self.err(at, "record without name");
                                return None;
                            }
                        };
                        let ns2 = match m.get("namespace") {
                            None => ns.to_string(),
                            Some(Value::String(s)) => s.clone(),
                            Some(_) => {
                                self.err(at, "namespace is not a string");
                                return None;
                            }
                        };
                        if !names::valid(&name) {
                            self.err(at, &format!("bad record name {:?}", name));
                        }
                        if !ns2.is_empty() && !ns2.split('.').all(names::valid) {
                            self.err(at, &format!("bad namespace {:?}", ns2));
                        }
                        let full = if ns2.is_empty() { name.clone() } else { format!("{}.{}", ns2, name) };
                        if !self.defined.insert(full.clone()) {
                            self.err(at, &format!("full name {:?} defined twice", full));
                        }
                        let fl = match m.get("fields") {
                            Some(Value::Array(f)) => f,
                            _ => {
                                self.err(at, "record without fields");
                                return None;
                            }
                        };
                        let mut fields = Vec::new();
                        let mut seen = BTreeSet::new();
                        for f in fl {
                            let fm = match f.as_object() {
                                Some(fm) => fm,
                                None => {
                                    self.err(at, "field is not an object");
                                    return None;
                                }
                            };
                            for k in fm.keys() {
                                if !["name", "type", "default"].contains(&k.as_str()) {
                                    self.err(at, &format!("unexpected field attribute {:?}", k));
                                }
                            }
                            let fname = match fm.get("name").and_then(|n| n.as_str()) {
                                Some(n) => n.to_string(),
                                None => {
                                    self.err(at, "field without name");
                                    return None;
                                }
                            };
                            let fat = format!("{}.{}", at, fname);
                            if !names::valid(&fname) {
                                self.err(&fat, "bad field name");
                            }
                            if !seen.insert(fname.clone()) {
                                self.err(&fat, "repeated field name");
                            }
                            let fv = match fm.get("type") {
                                Some(t) => self.value(t, &ns2, &fat)?,
                                None => {
                                    self.err(&fat, "field without type");
                                    return None;
                                }
                            };
                            let default = fm.get("default").cloned();
                            if let Some(d) = &default {
                                let first_null = fv.nullable || fv.t == AT::Null;
                                if !(d.is_null() && first_null) {
                                    self.err(&fat, "default does not match the first branch");
                                }
                            }
                            fields.push(AF { name: fname, v: fv, default });
                        }
                        Some(AV { nullable: false, t: AT::Record(full, fields) })
                    }
                    "array" | "map" => {
                        let key = if t == "array" { "items" } else { "values" };
                        match m.get(key) {
                            None => {
                                self.err(at, &format!("{} without {}", t, key));
                                None
                            }
                            Some(x) => {
                                let iv = self.value(x, ns, &format!("{}[]", at))?;
                                Some(AV {
                                    nullable: false,
                                    t: if t == "array" { AT::Array(Box::new(iv)) } else { AT::Map(Box::new(iv)) },
                                })
                            }
                        }
                    }
                    s => self.named(s, at),
                }
            }
            _ => {
                self.err(at, "not a schema");
                None
            }
        }
    }
    fn named(&mut self, s: &str, at: &str) -> Option<AV> {
        if s == "null" {
            return Some(AV { nullable: false, t: AT::Null });
        }
        if PRIMS.contains(&s) {
            return Some(AV { nullable: false, t: AT::Prim(s.to_string()) });
        }
        self.err(at, &format!("unknown type {:?}", s));
        None
    }
}

const BQ_TYPES: &[&str] = &[
    "INT64", "NUMERIC", "FLOAT64", "BOOL", "STRING", "BYTES", "DATE", "DATETIME", "GEOGRAPHY", "TIME", "TIMESTAMP",
    "JSON", "RECORD",
];

/// Parse a BigQuery table schema; every deviation is an error.
pub fn read_bq(v: &Value) -> (Option<Vec<Col>>, Vec<String>) {
    let mut errs = vec![];
    let cols = match v {
        Value::Array(l) => cols(l, "$", &mut errs),
        _ => {
            errs.push("the schema is not an array".into());
            None
        }
    };
    (cols, errs)
}

fn cols(l: &[Value], at: &str, errs: &mut Vec<String>) -> Option<Vec<Col>> {
    if l.is_empty() {
        errs.push(format!("{}: no columns", at));
    }
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for c in l {
        let m = match c.as_object() {
            Some(m) => m,
            None => {
                errs.push(format!("{}: column is not an object", at));
                return None;
            }
        };
        for k in m.keys() {
            if !["name", "type", "mode", "fields", "description"].contains(&k.as_str()) {
                errs.push(format!("{}: unexpected attribute {:?}", at, k));
            }
        }
        let name = match m.get("name").and_then(|n| n.as_str()) {
            Some(n) => n.to_string(),
            None => {
                errs.push(format!("{}: column without name", at));
                return None;
            }
        };
        let cat = format!("{}.{}", at, name);
        if !names::valid(&name) {
            errs.push(format!("{}: bad column name", cat));
        }
        if !seen.insert(name.clone()) {
            errs.push(format!("{}: repeated column name", cat));
        }
        let ty = m.get("type").and_then(|n| n.as_str()).unwrap_or("").to_string();
        if !BQ_TYPES.contains(&ty.as_str()) {
            errs.push(format!("{}: unknown type {:?}", cat, m.get("type")));
        }
        let mode = m.get("mode").and_then(|n| n.as_str()).unwrap_or("").to_string();
        if !["NULLABLE", "REQUIRED", "REPEATED"].contains(&mode.as_str()) {
            errs.push(format!("{}: bad mode {:?}", cat, m.get("mode")));
        }
        let desc = match m.get("description") {
            None => None,
            Some(Value::String(s)) => {
                if s.chars().count() > 1024 {
                    errs.push(format!("{}: description of {} characters", cat, s.chars().count()));
                }
                Some(s.clone())
            }
            Some(_) => {
                errs.push(format!("{}: description is not a string", cat));
                None
            }
        };
        let fields = match (ty == "RECORD", m.get("fields")) {
            (true, Some(Value::Array(f))) => cols(f, &cat, errs)?,
            (true, _) => {
                errs.push(format!("{}: RECORD without fields", cat));
                vec![]
            }
            (false, None) => vec![],
            (false, Some(_)) => {
                errs.push(format!("{}: fields on a {}", cat, ty));
                vec![]
            }
        };
        out.push(Col { name, ty, mode, desc, fields, desc_free: false, cast: false, tuple: false });
    }
    Some(out)
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum As {
    Missing,
    Extra,
    /// both scalars, different type
    Type,
    /// record / array / map / scalar differ, or REPEATED differs
    Shape,
    Null,
    Default,
    FullName,
    Order,
    Desc,
    Refused,
    Accepted,
    Invalid,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub target: Target,
    pub path: String,
    pub a: As,
    pub exp: String,
    pub act: String,
    /// expectation is a string standing in for something unrepresentable
    pub cast: bool,
    /// directly inside a tuple record
    pub tuple: bool,
}

impl Diff {
    pub fn text(&self) -> String {
        format!("{:?} at {:?}: {:?}: expected {}, got {}", self.target, self.path, self.a, self.exp, self.act)
    }
    pub fn sig(&self) -> String {
        format!("{:?}-{:?}", self.target, self.a)
    }
}

struct D {
    target: Target,
    out: Vec<Diff>,
}

impl D {
    fn push(&mut self, path: &str, a: As, exp: impl ToString, act: impl ToString, cast: bool, tuple: bool) {
        self.out.push(Diff {
            target: self.target,
            path: path.to_string(),
            a,
            exp: exp.to_string(),
            act: act.to_string(),
            cast,
            tuple,
        });
    }
}

fn at_kind(t: &AT) -> String {
    match t {
        AT::Null => "null".into(),
        AT::Prim(s) => s.clone(),
        AT::Record(..) => "record".into(),
        AT::Array(_) => "array".into(),
        AT::Map(_) => "map".into(),
    }
}
fn t_kind(t: &T) -> String {
    match t {
        T::Null => "null".into(),
        T::Prim(s) => s.clone(),
        T::Record(..) => "record".into(),
        T::Array(_) => "array".into(),
        T::Map(_) => "map".into(),
    }
}

fn cmp_avro(d: &mut D, path: &str, e: &V, a: &AV) {
    if e.nullable != a.nullable {
        d.push(path, As::Null, e.nullable, a.nullable, e.cast, false);
    }
    let (ek, ak) = (t_kind(&e.t), at_kind(&a.t));
    match (&e.t, &a.t) {
        (T::Null, AT::Null) => {}
        (T::Prim(x), AT::Prim(y)) => {
            if x != y {
                d.push(path, As::Type, x, y, e.cast, false);
            }
        }
        (T::Record(fe, ef), AT::Record(fa, af)) => {
            if fe != fa {
                d.push(path, As::FullName, fe, fa, false, false);
            }
            for f in ef {
                let p = format!("{}.{}", path, f.name);
                match af.iter().find(|x| x.name == f.name) {
                    None => d.push(&p, As::Missing, "field", "none", f.v.cast, e.tuple),
                    Some(x) => {
                        let has = x.default.is_some();
                        if has != f.default {
                            d.push(&p, As::Default, f.default, has, false, e.tuple);
                        }
                        cmp_avro(d, &p, &f.v, &x.v);
                    }
                }
            }
            for x in af {
                if !ef.iter().any(|f| f.name == x.name) {
                    d.push(&format!("{}.{}", path, x.name), As::Extra, "none", "field", false, e.tuple);
                }
            }
            let eo: Vec<&String> = ef.iter().map(|f| &f.name).collect();
            let ao: Vec<&String> = af.iter().map(|f| &f.name).collect();
            let mut es = eo.clone();
            let mut as_ = ao.clone();
            es.sort();
            as_.sort();
            if eo != ao && es == as_ {
                d.push(path, As::Order, format!("{:?}", eo), format!("{:?}", ao), false, e.tuple);
            }
        }
        (T::Array(x), AT::Array(y)) => cmp_avro(d, &format!("{}[]", path), x, y),
        (T::Map(Some(x)), AT::Map(y)) => cmp_avro(d, &format!("{}{{}}", path), x, y),
        (T::Null, AT::Prim(_)) | (T::Prim(_), AT::Null) => d.push(path, As::Type, ek, ak, e.cast, false),
        _ => d.push(path, As::Shape, ek, ak, e.cast, false),
    }
}

fn scalar_mode(v: &V) -> String {
    if v.nullable { "NULLABLE".into() } else { "REQUIRED".into() }
}

/// BigQuery column for an expected value.
pub fn lower(name: &str, v: &V, fnull: bool) -> Col {
    let mut c = Col {
        name: name.to_string(),
        ty: String::new(),
        mode: scalar_mode(v),
        desc: v.desc.clone(),
        fields: vec![],
        desc_free: v.desc_free,
        cast: v.cast,
        tuple: v.tuple,
    };
    match &v.t {
        T::Null => c.ty = "NULL".into(),
        T::Prim(s) => c.ty = s.clone(),
        T::Record(_, fields) => {
            c.ty = "RECORD".into();
            c.fields = fields.iter().map(|f: &F| lower(&f.name, &f.v, fnull)).collect();
        }
        T::Array(iv) => {
            let inner = lower(name, iv, fnull);
            c.mode = "REPEATED".into();
            c.ty = inner.ty;
            c.fields = inner.fields;
            c.cast = inner.cast;
            c.tuple = inner.tuple;
        }
        T::Map(iv) => {
            c.mode = "REPEATED".into();
            c.ty = "RECORD".into();
            c.fields = vec![Col {
                name: "key".into(),
                ty: "STRING".into(),
                mode: if fnull { "NULLABLE".into() } else { "REQUIRED".into() },
                desc: None,
                fields: vec![],
                desc_free: false,
                cast: false,
                tuple: false,
            }];
            if let Some(iv) = iv {
                c.fields.push(lower("value", iv, fnull));
            }
        }
    }
    c
}

/// expected BigQuery columns of a root value
pub fn lower_root(v: &V, fnull: bool) -> Vec<Col> {
    let c = lower("root", v, fnull);
    if c.mode != "REPEATED" && c.ty == "RECORD" {
        c.fields
    } else {
        vec![c]
    }
}

fn cmp_cols(d: &mut D, path: &str, e: &[Col], a: &[Col], tuple: bool) {
    for c in e {
        let p = format!("{}.{}", path, c.name);
        match a.iter().find(|x| x.name == c.name) {
            None => d.push(&p, As::Missing, "column", "none", c.cast, tuple),
            Some(x) => {
                if c.mode != x.mode {
                    let a = if c.mode == "REPEATED" || x.mode == "REPEATED" { As::Shape } else { As::Null };
                    d.push(&p, a, &c.mode, &x.mode, c.cast, tuple);
                }
                if !c.desc_free && c.desc != x.desc {
                    d.push(&p, As::Desc, format!("{:?}", c.desc), format!("{:?}", x.desc), c.cast, tuple);
                }
                if c.ty != x.ty {
                    let a = if c.ty == "RECORD" || x.ty == "RECORD" { As::Shape } else { As::Type };
                    d.push(&p, a, &c.ty, &x.ty, c.cast, tuple);
                } else if c.ty == "RECORD" {
                    cmp_cols(d, &p, &c.fields, &x.fields, c.tuple);
                }
            }
        }
    }
    for x in a {
        if !e.iter().any(|c| c.name == x.name) {
            d.push(&format!("{}.{}", path, x.name), As::Extra, "none", "column", false, tuple);
        }
    }
    let eo: Vec<&String> = e.iter().map(|f| &f.name).collect();
    let ao: Vec<&String> = a.iter().map(|f| &f.name).collect();
    let mut es = eo.clone();
    let mut as_ = ao.clone();
    es.sort();
    as_.sort();
    if eo != ao && es == as_ {
        d.push(path, As::Order, format!("{:?}", eo), format!("{:?}", ao), false, tuple);
    }
}

pub fn cmp_avro_out(e: &V, out: &Value) -> Vec<Diff> {
    let mut d = D { target: Target::Avro, out: vec![] };
    let (a, errs) = read_avro(out);
    for x in &errs {
        d.push("", As::Invalid, "valid Avro", x, false, false);
    }
    if let Some(a) = a {
        cmp_avro(&mut d, "", e, &a);
    }
    d.out
}

pub fn cmp_bq_out(e: &V, out: &Value, fnull: bool) -> Vec<Diff> {
    let mut d = D { target: Target::Bq, out: vec![] };
    let (a, errs) = read_bq(out);
    for x in &errs {
        d.push("", As::Invalid, "valid table schema", x, false, false);
    }
    if let Some(a) = a {
        cmp_cols(&mut d, "", &lower_root(e, fnull), &a, false);
    }
    d.out
}

pub struct Observed {
    pub out: Result<Value, String>,
    pub ex: Expectation,
    pub diffs: Vec<Diff>,
}

/// Run the real conversion and compare it with the reference model.
pub fn observe(schema: &Value, ctx: &Ctx, target: Target) -> Observed {
    let ex = expect(schema, ctx, target);
    let out = conv(target, schema, ctx);
    let mut d = D { target, out: vec![] };
    match (&ex.out, &out) {
        (Expect::Refused(r), Ok(_)) => d.push("", As::Accepted, format!("refusal ({})", r), "output", false, false),
        (Expect::Out(_), Err(e)) => d.push("", As::Refused, "output", e, false, false),
        (Expect::Out(v), Ok(o)) => {
            d.out = match target {
                Target::Avro => cmp_avro_out(v, o),
                Target::Bq => cmp_bq_out(v, o, ctx.fnull),
            }
        }
        _ => {}
    }
    Observed { out, ex, diffs: d.out }
}
