//! C18: documents generated from a schema are encoded with the schemas that
//! the real code emits.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::model::elaborate;
use crate::names;
use crate::pm::{case, sc};
use crate::rng::Rng;
use crate::sutil;
use crate::view::*;
use serde_json::{json, Map, Value};

pub fn c18_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.nodes = *r.pick(&[4, 12, 35]);
    p.loose = false;
    p.array_map = false;
    p.tuple_no_min = false;
    p.w_oneof = 7;
    p.w_tuple = 3;
    p.w_json = *r.pick(&[0, 2, 4]);
    p.p_required = *r.pick(&[0.3, 0.8, 1.0]);
    let mut ctx = Ctx::random(r);
    if r.chance(0.7) {
        ctx.res = Res::Cast;
    }
    ctx.ts = r.coin();
    let s = if r.chance(0.7) { gen::object_root(r, &p) } else { gen::schema(r, &p) };
    let mut c = case(s, &ctx);
    c["dseed"] = json!(r.next() >> 12);
    c
}

/// A document valid for the schema, or None when the schema is outside the
/// fragment this generator understands.
pub fn document(s: &Value, r: &mut Rng, depth: usize) -> Option<Value> {
    let m = s.as_object()?;
    if m.contains_key("enum") || m.contains_key("const") || m.contains_key("not") || m.contains_key("anyOf") {
        // inert for the transpiler; validity against them is not modelled, but
        // any document valid for the rest covers the ones valid for all
    }
    let types = sutil::types_of(m);
    let t = r.pick(&types).clone();
    if types.len() > 1 && m.contains_key("format") {
        // fine: the format is only a hint
    }
    match t.as_str() {
        "null" => Some(Value::Null),
        "boolean" => Some(json!(r.coin())),
        "integer" => Some(json!(r.below(1000) as i64 - 300)),
        "number" => Some(if r.coin() { json!(r.below(100) as f64 + 0.5) } else { json!(r.below(50)) }),
        "string" => Some(match m.get("format").and_then(|f| f.as_str()) {
            Some("date-time") => json!("2024-02-29T23:59:59Z"),
            _ => json!(*r.pick(&["", "x", "é日本", "text with \"quotes\"", "null", "5", "{}"])),
        }),
        "array" => {
            match m.get("items")? {
                Value::Array(l) => {
                    let len = l.len() as u64;
                    let min = m.get("minItems").and_then(|x| x.as_u64()).unwrap_or(len);
                    let add = m.get("additionalItems");
                    let max = match add {
                        Some(Value::Object(_)) => m.get("maxItems").and_then(|x| x.as_u64()).unwrap_or(len),
                        _ => len,
                    };
                    // without minItems all listed items are taken as required
                    let max = m.get("maxItems").and_then(|x| x.as_u64()).map(|x| x.min(max)).unwrap_or(max);
                    if min > max {
                        return None;
                    }
                    let n = r.range(min as usize, max as usize);
                    let mut out = vec![];
                    for i in 0..n {
                        let sub = if i < l.len() { &l[i] } else { add? };
                        out.push(document(sub, r, depth.saturating_sub(1))?);
                    }
                    Some(Value::Array(out))
                }
                item => {
                    let min = m.get("minItems").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                    let n = if depth == 0 { min } else { min + r.below(3) };
                    let mut out = vec![];
                    for _ in 0..n {
                        out.push(document(item, r, depth - depth.min(1))?);
                    }
                    Some(Value::Array(out))
                }
            }
        }
        "object" => {
            if let Some(Value::Object(p)) = m.get("properties") {
                let req: Vec<&str> = m.get("required").and_then(|x| x.as_array()).map(|l| l.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                let mut o = Map::new();
                for (k, sub) in p {
                    if req.contains(&k.as_str()) || (depth > 0 && r.chance(0.7)) {
                        o.insert(k.clone(), document(sub, r, depth.saturating_sub(1))?);
                    }
                }
                for k in req {
                    if !o.contains_key(k) {
                        return None;
                    }
                }
                return Some(Value::Object(o));
            }
            let add = m.get("additionalProperties").filter(|x| x.is_object());
            let mut subs: Vec<&Value> = add.into_iter().collect();
            if let Some(Value::Object(p)) = m.get("patternProperties") {
                subs.extend(p.values());
            }
            if !subs.is_empty() {
                let n = if depth == 0 { 0 } else { r.below(3) };
                let mut o = Map::new();
                for i in 0..n {
                    let sub = *r.pick(&subs);
                    let k = format!("{}{}", r.pick(&["k", "é", "a b", "9", ""]), i);
                    o.insert(k, document(sub, r, depth - 1)?);
                }
                return Some(Value::Object(o));
            }
            if let Some(Value::Array(l)) = m.get("oneOf") {
                return document(r.pick(l), r, depth);
            }
            // anything at all
            Some(match r.below(6) {
                0 => json!({"x": 1}),
                1 => json!([1, "a"]),
                2 => json!("text"),
                3 => json!(12),
                4 => Value::Null,
                _ => json!({}),
            })
            .map(|v| if m.get("type").is_some() { json!({"x": [v]}) } else { v })
        }
        _ => None,
    }
}

fn leaves(v: &Value) -> u64 {
    match v {
        Value::Array(l) => l.iter().map(leaves).sum(),
        Value::Object(m) => m.values().map(leaves).sum(),
        Value::Null => 0,
        _ => 1,
    }
}

struct Enc<'a> {
    ctx: &'a Ctx,
    cast_text: u64,
    scalars: u64,
}
type E<T> = Result<T, String>;

impl<'a> Enc<'a> {
    /// Avro datum (the value is checked against the type as it is built)
    fn avro(&mut self, v: &Value, a: &AV, path: &str) -> E<()> {
        if v.is_null() {
            if a.nullable || a.t == AT::Null {
                return Ok(());
            }
            if a.t == AT::Prim("string".into()) {
                // only a position that accepts anything is cast to text
                self.cast_text += 1;
                return Ok(());
            }
            return Err(format!("{}: null for a required {:?}", path, a.t));
        }
        match &a.t {
            AT::Null => Err(format!("{}: {} for null", path, short(v))),
            AT::Prim(p) => {
                self.scalars += 1;
                let ok = match p.as_str() {
                    "boolean" => v.is_boolean(),
                    "long" => v.is_i64() || v.is_u64(),
                    "double" => v.is_number(),
                    "bytes" => v.is_string(),
                    "string" => {
                        if !v.is_string() {
                            self.cast_text += 1;
                        }
                        true
                    }
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    Err(format!("{}: {} for {}", path, short(v), p))
                }
            }
            AT::Map(x) => match v {
                Value::Object(m) => {
                    for (k, sub) in m {
                        self.avro(sub, x, &format!("{}{{{}}}", path, k))?;
                    }
                    Ok(())
                }
                _ => Err(format!("{}: {} for a map", path, short(v))),
            },
            AT::Array(x) => match v {
                Value::Array(l) => {
                    for (i, sub) in l.iter().enumerate() {
                        let p = format!("{}[{}]", path, i);
                        match &x.t {
                            AT::Record(_, f) if sub.is_array() && f.len() == 1 && f[0].name == "list" => {
                                self.avro(sub, &f[0].v, &format!("{}.list", p))?
                            }
                            AT::Record(_, f) if sub.is_null() && !x.nullable && f.len() == 1 && f[0].name == "list" => {
                                self.avro(sub, &f[0].v, &format!("{}.list", p))?
                            }
                            _ => self.avro(sub, x, &p)?,
                        }
                    }
                    Ok(())
                }
                _ => Err(format!("{}: {} for an array", path, short(v))),
            },
            AT::Record(_, f) => {
                let fields = self.record(v, path)?;
                for (k, _) in &fields {
                    if !f.iter().any(|x| &x.name == k) && self.ctx.res == Res::Cast {
                        return Err(format!("{}: value under {:?} is lost", path, k));
                    }
                }
                for x in f {
                    let p = format!("{}.{}", path, x.name);
                    match fields.iter().find(|(k, _)| k == &x.name) {
                        Some((_, sub)) => self.avro(sub, &x.v, &p)?,
                        None => {
                            let d = x.v.nullable || x.v.t == AT::Null;
                            if !d || x.default.is_none() {
                                return Err(format!("{}: missing value for a field without default", p));
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    }
    /// renamed members of a record document, or positions of a tuple
    fn record<'v>(&self, v: &'v Value, path: &str) -> E<Vec<(String, &'v Value)>> {
        match v {
            Value::Object(m) => Ok(m.iter().filter_map(|(k, x)| names::map_name(k, self.ctx.nc).map(|n| (n, x))).collect()),
            Value::Array(l) if self.ctx.ts => Ok(l.iter().enumerate().map(|(i, x)| (format!("f{}_", i), x)).collect()),
            _ => Err(format!("{}: {} for a record", path, short(v))),
        }
    }

    fn bq_cols(&mut self, v: &Value, cols: &[Col], path: &str) -> E<()> {
        let fields = self.record(v, path)?;
        for (k, _) in &fields {
            if !cols.iter().any(|x| &x.name == k) && self.ctx.res == Res::Cast {
                return Err(format!("{}: value under {:?} is lost", path, k));
            }
        }
        for c in cols {
            let p = format!("{}.{}", path, c.name);
            match fields.iter().find(|(k, _)| k == &c.name) {
                Some((_, sub)) => self.bq(sub, c, &p)?,
                None if c.mode == "REQUIRED" => return Err(format!("{}: missing value for a REQUIRED column", p)),
                None => {}
            }
        }
        Ok(())
    }
    fn bq(&mut self, v: &Value, c: &Col, path: &str) -> E<()> {
        if c.mode == "REPEATED" {
            return match v {
                Value::Null => Ok(()), // an absent list
                Value::Array(l) => {
                    for (i, x) in l.iter().enumerate() {
                        if x.is_null() {
                            continue; // null elements have no place in BigQuery
                        }
                        let p = format!("{}[{}]", path, i);
                        if x.is_array() && c.fields.len() == 1 && c.fields[0].name == "list" {
                            self.bq(x, &c.fields[0], &p)?
                        } else {
                            self.bq_value(x, c, &p)?
                        }
                    }
                    Ok(())
                }
                Value::Object(m) => {
                    let val = c.fields.iter().find(|f| f.name == "value");
                    let key = c.fields.iter().find(|f| f.name == "key");
                    if key.map(|k| k.ty != "STRING").unwrap_or(true) {
                        return Err(format!("{}: map without key", path));
                    }
                    for (k, x) in m {
                        match val {
                            Some(val) => self.bq(x, val, &format!("{}{{{}}}", path, k))?,
                            None if self.ctx.mw && self.ctx.res == Res::Drop => {}
                            None => return Err(format!("{}: map without value", path)),
                        }
                    }
                    Ok(())
                }
                _ => Err(format!("{}: {} for a REPEATED column", path, short(v))),
            };
        }
        if v.is_null() {
            if c.mode == "NULLABLE" {
                return Ok(());
            }
            if c.ty == "STRING" || c.ty == "JSON" {
                self.cast_text += 1;
                return Ok(());
            }
            return Err(format!("{}: null for a REQUIRED {}", path, c.ty));
        }
        self.bq_value(v, c, path)
    }
    fn bq_value(&mut self, v: &Value, c: &Col, path: &str) -> E<()> {
        if c.ty == "RECORD" {
            return self.bq_cols(v, &c.fields, path);
        }
        self.scalars += 1;
        let ok = match c.ty.as_str() {
            "BOOL" => v.is_boolean(),
            "INT64" => v.is_i64() || v.is_u64(),
            "FLOAT64" => v.is_number(),
            "BYTES" => v.is_string(),
            "TIMESTAMP" => v.as_str().map(|s| s.contains('T')).unwrap_or(false),
            "STRING" => {
                if !v.is_string() {
                    self.cast_text += 1;
                }
                true
            }
            "JSON" => true,
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{}: {} for {}", path, short(v), c.ty))
        }
    }
}

pub fn c18_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = elaborate(s, &ctx);
    let n = match n {
        Ok(n) => n,
        Err(_) => return Verdict::Skip,
    };
    if facts.collision || (crate::pm::has_array_map(&n) && c["probe"] != json!(true)) {
        return Verdict::Skip;
    }
    let avro = conv(Target::Avro, s, &ctx).ok().and_then(|v| read_avro(&v).0);
    let bq = conv(Target::Bq, s, &ctx).ok().and_then(|v| read_bq(&v).0);
    if avro.is_none() && bq.is_none() {
        return Verdict::Skip;
    }
    let root_rec = n_is_record(s, &ctx);
    let mut r = Rng::new(c["dseed"].as_u64().unwrap_or(1));
    let mut nt = false;
    for i in 0..8 {
        let d = match document(s, &mut r, if i == 0 { 0 } else { 6 }) {
            Some(d) => d,
            None => continue,
        };
        let mut e = Enc { ctx: &ctx, cast_text: 0, scalars: 0 };
        if let Some(a) = &avro {
            if let Err(m) = e.avro(&d, a, "$") {
                return Verdict::Bad("Avro-encode".into(), format!("document {} cannot be encoded: {}", short(&d), m));
            }
            st.inc("documents_encoded_avro");
        }
        if let Some(cols) = &bq {
            let res = if root_rec {
                if d.is_null() {
                    Ok(()) // a null document is no row at all
                } else {
                    e.bq_cols(&d, cols, "$")
                }
            } else if cols.len() == 1 {
                e.bq(&d, &cols[0], "$")
            } else {
                Err("several columns for a root that is no record".into())
            };
            if let Err(m) = res {
                return Verdict::Bad("Bq-encode".into(), format!("document {} cannot be encoded: {}", short(&d), m));
            }
            st.inc("documents_encoded_bigquery");
        }
        st.add("document_leaves", leaves(&d));
        st.add("scalars_placed", e.scalars);
        st.add("values_cast_to_text", e.cast_text);
        nt |= leaves(&d) > 0;
    }
    Verdict::Held(nt)
}

fn n_is_record(s: &Value, ctx: &Ctx) -> bool {
    match crate::model::expect(s, ctx, Target::Bq).out {
        crate::model::Expect::Out(v) => matches!(v.t, crate::model::T::Record(..)),
        _ => false,
    }
}
