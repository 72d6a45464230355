//! Independent reference model: what a JSON Schema means, then what Avro and
//! BigQuery columns it has. Written from the properties, bottom-up on values,
//! so it shares neither data structures nor passes with the code under test.
use crate::common::{Ctx, Res, Target};
use crate::names;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    Bool,
    Int,
    Num,
    Str,
    Time,
    Bytes,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Null,
    Atom(A),
    Json,
    Object(BTreeMap<String, Node>, BTreeSet<String>),
    Map(Box<Node>),
    Array(Box<Node>),
    Tuple(Vec<Node>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub nullable: bool,
    pub title: Option<String>,
    pub desc: Option<String>,
    /// the statement leaves open which text (if any) this position carries
    pub desc_free: bool,
}

impl Node {
    fn new(kind: Kind) -> Node {
        Node { kind, nullable: false, title: None, desc: None, desc_free: false }
    }
    pub fn is_null(&self) -> bool {
        matches!(self.kind, Kind::Null)
    }
    pub fn is_json(&self) -> bool {
        matches!(self.kind, Kind::Json)
    }
    pub fn is_map(&self) -> bool {
        matches!(self.kind, Kind::Map(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.kind, Kind::Array(_))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Refusal {
    Malformed(String),
    Tuple(String),
}

#[derive(Default, Debug, Clone)]
pub struct Facts {
    pub renamed: Vec<String>,
    pub omitted: Vec<String>,
    pub collision: bool,
    pub unions: u32,
    pub merges: u32,
    pub tuples: u32,
}

pub struct Model<'a> {
    ctx: &'a Ctx,
    pub facts: Facts,
}

type R<T> = Result<T, Refusal>;
fn bad<T>(s: &str) -> R<T> {
    Err(Refusal::Malformed(s.to_string()))
}

fn atom_name(s: &str) -> bool {
    matches!(
        s,
        "null" | "boolean" | "number" | "integer" | "string" | "object" | "array" | "date-time" | "bytes"
    )
}

fn opt<'v>(m: &'v Map<String, Value>, k: &str) -> Option<&'v Value> {
    match m.get(k) {
        None | Some(Value::Null) => None,
        Some(v) => Some(v),
    }
}

/// shape check of everything that is parsed, translated or not
fn check_shape(v: &Value) -> R<()> {
    let m = match v.as_object() {
        Some(m) => m,
        None => return bad("subschema is not an object"),
    };
    for k in ["title", "description", "format"] {
        if let Some(x) = opt(m, k) {
            if !x.is_string() {
                return bad(k);
            }
        }
    }
    for k in ["properties", "patternProperties"] {
        if let Some(x) = opt(m, k) {
            match x.as_object() {
                None => return bad(k),
                Some(o) => {
                    for s in o.values() {
                        check_shape(s)?
                    }
                }
            }
        }
    }
    for k in ["additionalProperties", "additionalItems"] {
        if let Some(x) = opt(m, k) {
            if !x.is_boolean() {
                check_shape(x)?
            }
        }
    }
    if let Some(x) = opt(m, "required") {
        match x.as_array() {
            Some(l) if l.iter().all(|e| e.is_string()) => {}
            _ => return bad("required"),
        }
    }
    if let Some(x) = opt(m, "items") {
        match x {
            Value::Array(l) => {
                for s in l {
                    check_shape(s)?
                }
            }
            _ => check_shape(x)?,
        }
    }
    for k in ["minItems", "maxItems"] {
        if let Some(x) = opt(m, k) {
            if !x.is_u64() {
                return bad(k);
            }
        }
    }
    for k in ["oneOf", "allOf"] {
        if let Some(x) = opt(m, k) {
            match x.as_array() {
                None => return bad(k),
                Some(l) => {
                    for s in l {
                        check_shape(s)?
                    }
                }
            }
        }
    }
    Ok(())
}

impl<'a> Model<'a> {
    pub fn new(ctx: &'a Ctx) -> Model<'a> {
        Model { ctx, facts: Facts::default() }
    }

    pub fn root(&mut self, schema: &Value) -> R<Node> {
        check_shape(schema)?;
        self.node(schema)
    }

    fn node(&mut self, v: &Value) -> R<Node> {
        let m = v.as_object().unwrap();
        let mut n = match m.get("type") {
            Some(Value::String(t)) => {
                if !atom_name(t) {
                    return bad("type name");
                }
                if t == "string" {
                    match opt(m, "format").and_then(|f| f.as_str()) {
                        Some("date-time") => Node::new(Kind::Atom(A::Time)),
                        Some("bytes") => Node::new(Kind::Atom(A::Bytes)),
                        _ => Node::new(Kind::Atom(A::Str)),
                    }
                } else {
                    self.of_type(t, m)?
                }
            }
            Some(Value::Array(l)) => {
                let mut names = Vec::new();
                for t in l {
                    match t.as_str() {
                        Some(t) if atom_name(t) => names.push(t),
                        _ => return bad("type name"),
                    }
                }
                let mut alts = Vec::new();
                for t in names {
                    alts.push(self.of_type(t, m)?);
                }
                // the description belongs to the whole, the alternatives of a
                // type list share it
                if alts.is_empty() {
                    return bad("empty type list");
                }
                self.union(alts)
            }
            _ => self.of_type("object", m)?,
        };
        n.title = opt(m, "title").and_then(|x| x.as_str()).map(|s| s.to_string());
        n.desc = opt(m, "description").and_then(|x| x.as_str()).map(|s| s.to_string());
        n.desc_free = false;
        if n.is_null() {
            n.nullable = true;
        }
        Ok(n)
    }

    fn of_type(&mut self, t: &str, m: &Map<String, Value>) -> R<Node> {
        Ok(match t {
            "null" => {
                let mut n = Node::new(Kind::Null);
                n.nullable = true;
                n
            }
            "boolean" => Node::new(Kind::Atom(A::Bool)),
            "integer" => Node::new(Kind::Atom(A::Int)),
            "number" => Node::new(Kind::Atom(A::Num)),
            "string" => Node::new(Kind::Atom(A::Str)),
            "date-time" => Node::new(Kind::Atom(A::Time)),
            "bytes" => Node::new(Kind::Atom(A::Bytes)),
            "array" => self.array(m)?,
            _ => self.object(m)?,
        })
    }

    fn object(&mut self, m: &Map<String, Value>) -> R<Node> {
        if let Some(Value::Object(props)) = opt(m, "properties") {
            let nc = self.ctx.nc;
            // sorted, so that of several colliding names the greatest renamed
            // one is kept, which also wins over an exact one
            let mut keys: Vec<&String> = props.keys().collect();
            keys.sort();
            let mut fields: BTreeMap<String, Node> = BTreeMap::new();
            let mut exact: BTreeSet<String> = BTreeSet::new();
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for k in keys {
                let col = names::map_name(k, nc);
                let sub = match col {
                    None => {
                        // still parsed, but what it records about names is void
                        let keep = self.facts.clone();
                        self.node(&props[k])?;
                        self.facts = keep;
                        self.facts.omitted.push(k.clone());
                        continue;
                    }
                    Some(_) => self.node(&props[k])?,
                };
                let col = col.unwrap();
                if !seen.insert(col.clone()) {
                    self.facts.collision = true;
                }
                if &col != k {
                    self.facts.renamed.push(k.clone());
                    fields.insert(col, sub);
                } else if !fields.contains_key(&col) {
                    exact.insert(col.clone());
                    fields.insert(col, sub);
                }
            }
            let mut req = BTreeSet::new();
            if let Some(Value::Array(l)) = opt(m, "required") {
                for k in l {
                    if let Some(c) = names::map_name(k.as_str().unwrap(), nc) {
                        req.insert(c);
                    }
                }
            }
            return Ok(Node::new(Kind::Object(fields, req)));
        }
        let add = opt(m, "additionalProperties").filter(|x| x.is_object());
        let pat = opt(m, "patternProperties").and_then(|x| x.as_object());
        match (add, pat) {
            (Some(a), None) => return Ok(Node::new(Kind::Map(Box::new(self.node(a)?)))),
            (Some(_), Some(_)) | (None, Some(_)) => {
                let p = pat.unwrap();
                let mut alts = Vec::new();
                if let Some(a) = add {
                    alts.push(self.node(a)?);
                }
                for v in p.values() {
                    alts.push(self.node(v)?);
                }
                if !alts.is_empty() {
                    let single = alts.len() == 1;
                    let mut u = self.union(alts);
                    u.desc_free = single;
                    return Ok(Node::new(Kind::Map(Box::new(u))));
                }
            }
            _ => {}
        }
        if let Some(Value::Array(l)) = opt(m, "oneOf") {
            let mut alts = Vec::new();
            for v in l {
                alts.push(self.node(v)?);
            }
            if alts.is_empty() {
                return bad("empty oneOf");
            }
            return Ok(self.union(alts));
        }
        Ok(Node::new(Kind::Json))
    }

    fn array(&mut self, m: &Map<String, Value>) -> R<Node> {
        match opt(m, "items") {
            None => bad("array without items"),
            Some(Value::Array(l)) => {
                if !self.ctx.ts {
                    return Ok(Node::new(Kind::Json));
                }
                self.facts.tuples += 1;
                let mut items = Vec::new();
                for v in l {
                    items.push(self.node(v)?);
                }
                let len = items.len();
                let min = opt(m, "minItems").and_then(|x| x.as_u64()).map(|x| x as usize).unwrap_or(len);
                let max = opt(m, "maxItems").and_then(|x| x.as_u64()).map(|x| x as usize);
                for (i, it) in items.iter_mut().enumerate() {
                    if i >= min {
                        it.nullable = true;
                    }
                }
                match opt(m, "additionalItems") {
                    Some(Value::Bool(false)) => {}
                    Some(Value::Bool(true)) => return Err(Refusal::Tuple("additionalItems true".into())),
                    Some(s) => {
                        let max = max.unwrap_or(0);
                        if max < len {
                            return Err(Refusal::Tuple("maxItems".into()));
                        }
                        for _ in len..max {
                            let mut n = self.node(s)?;
                            n.nullable = true;
                            items.push(n);
                        }
                    }
                    None => {
                        if max.unwrap_or(0) != len {
                            return Err(Refusal::Tuple("open tuple".into()));
                        }
                    }
                }
                Ok(Node::new(Kind::Tuple(items)))
            }
            Some(s) => Ok(Node::new(Kind::Array(Box::new(self.node(s)?)))),
        }
    }

    fn union(&mut self, alts: Vec<Node>) -> Node {
        self.facts.unions += 1;
        let mut nullable = false;
        let mut rest: Vec<Node> = Vec::new();
        for a in alts {
            nullable |= a.nullable || a.is_null();
            if !a.is_null() {
                rest.push(a);
            }
        }
        if rest.len() >= 2 {
            self.facts.merges += 1;
        }
        let kind = self.merge(rest);
        Node { kind, nullable, title: None, desc: None, desc_free: false }
    }

    fn merge(&mut self, mut rest: Vec<Node>) -> Kind {
        match rest.len() {
            0 => return Kind::Null,
            1 => return rest.pop().unwrap().kind,
            _ => {}
        }
        if rest.iter().all(|n| matches!(n.kind, Kind::Atom(_))) {
            let mut set: Vec<A> = Vec::new();
            for n in &rest {
                if let Kind::Atom(a) = n.kind {
                    if !set.contains(&a) {
                        set.push(a)
                    }
                }
            }
            return match set.as_slice() {
                [a] => Kind::Atom(*a),
                [A::Int, A::Num] | [A::Num, A::Int] => Kind::Atom(A::Num),
                _ => Kind::Json,
            };
        }
        if rest.iter().all(|n| matches!(n.kind, Kind::Map(_))) {
            let vals = rest
                .into_iter()
                .map(|n| match n.kind {
                    Kind::Map(v) => *v,
                    _ => unreachable!(),
                })
                .collect();
            return Kind::Map(Box::new(self.union(vals)));
        }
        if rest.iter().all(|n| matches!(n.kind, Kind::Array(_))) {
            let vals = rest
                .into_iter()
                .map(|n| match n.kind {
                    Kind::Array(v) => *v,
                    _ => unreachable!(),
                })
                .collect();
            return Kind::Array(Box::new(self.union(vals)));
        }
        if rest.iter().all(|n| matches!(n.kind, Kind::Object(..))) {
            // gather, per field, the types it has in all alternatives
            let mut types: BTreeMap<String, Vec<Node>> = BTreeMap::new();
            let mut required: Option<BTreeSet<String>> = None;
            for n in rest {
                if let Kind::Object(f, r) = n.kind {
                    required = Some(match required {
                        None => r.clone(),
                        Some(x) => x.intersection(&r).cloned().collect(),
                    });
                    for (k, v) in f {
                        types.entry(k).or_default().push(v);
                    }
                }
            }
            let mut fields = BTreeMap::new();
            for (k, v) in types {
                let u = self.union(v);
                if u.is_json() {
                    return Kind::Json;
                }
                fields.insert(k, u);
            }
            return Kind::Object(fields, required.unwrap_or_default());
        }
        Kind::Json
    }
}

/// Elaborate and force nullability everywhere when asked.
pub fn elaborate(schema: &Value, ctx: &Ctx) -> (R<Node>, Facts) {
    let mut m = Model::new(ctx);
    let r = m.root(schema);
    let f = m.facts;
    (r, f)
}

// ---------------------------------------------------------------------------
// Expected outputs

/// What an output says about one position, for either target.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Null,
    Prim(String),
    /// (full name where the target has one, fields in output order)
    Record(String, Vec<F>),
    Array(Box<V>),
    Map(Option<Box<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub name: String,
    pub v: V,
    /// Avro only: has `default: null`
    pub default: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub t: T,
    pub nullable: bool,
    pub desc: Option<String>,
    pub desc_free: bool,
    /// true for a string that stands in for an unrepresentable position
    pub cast: bool,
    /// record built from a tuple (position order in Avro)
    pub tuple: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// (path of column names, reason)
    Resolve(String, String),
}

pub struct Render<'a> {
    pub ctx: &'a Ctx,
    pub target: Target,
    pub events: Vec<Ev>,
    pub re: Option<regex::Regex>,
    /// paths where a JSON column was produced
    pub json_paths: Vec<String>,
}

pub enum Out {
    Value(V),
    Dropped,
}

fn describe(n: &Node) -> Option<String> {
    let d = match (&n.title, &n.desc) {
        (Some(t), Some(d)) => Some(format!("{} - {}", t, d)),
        (Some(t), None) => Some(t.clone()),
        (None, Some(d)) => Some(d.clone()),
        _ => None,
    };
    d.map(|s| s.chars().take(1024).collect())
}

/// the JSON-column pattern in force for this schema
pub fn pattern_of(schema: &Value, ctx: &Ctx) -> Option<String> {
    schema
        .get("mozPipelineMetadata")
        .and_then(|m| m.get("json_object_path_regex"))
        .and_then(|x| x.as_str())
        .map(|s| s.to_string())
        .or_else(|| ctx.re.clone())
}

impl<'a> Render<'a> {
    pub fn new(ctx: &'a Ctx, target: Target, schema: &Value) -> Render<'a> {
        let re = pattern_of(schema, ctx).map(|p| regex::Regex::new(&format!("^(?:{})", p)).unwrap());
        Render { ctx, target, events: vec![], re, json_paths: vec![] }
    }

    /// path: column names from below the root
    pub fn node(&mut self, n: &Node, path: &[String], forced: bool) -> Option<V> {
        let ctx = self.ctx;
        let nullable = n.nullable || forced || ctx.fnull;
        let mut v = V {
            t: T::Null,
            nullable,
            desc: describe(n),
            desc_free: n.desc_free,
            cast: false,
            tuple: false,
        };
        match &n.kind {
            Kind::Null => match self.target {
                Target::Avro => {
                    v.nullable = false;
                    v.t = T::Null;
                }
                Target::Bq => {
                    v.t = self.resolve(path, "null")?;
                    v.cast = true;
                    v.nullable = true;
                }
            },
            Kind::Atom(a) => {
                let s = match (self.target, a) {
                    (Target::Avro, A::Bool) => "boolean",
                    (Target::Avro, A::Int) => "long",
                    (Target::Avro, A::Num) => "double",
                    (Target::Avro, A::Str) => "string",
                    (Target::Avro, A::Time) => "string",
                    (Target::Avro, A::Bytes) => "bytes",
                    (Target::Bq, A::Bool) => "BOOL",
                    (Target::Bq, A::Int) => "INT64",
                    (Target::Bq, A::Num) => "FLOAT64",
                    (Target::Bq, A::Str) => "STRING",
                    (Target::Bq, A::Time) => "TIMESTAMP",
                    (Target::Bq, A::Bytes) => "BYTES",
                };
                v.t = T::Prim(s.into());
            }
            Kind::Json => {
                let p = if path.is_empty() { "__unknown__".to_string() } else { path.join(".") };
                if self.target == Target::Bq && self.re.as_ref().map(|r| r.is_match(&p)).unwrap_or(false) {
                    self.json_paths.push(p);
                    v.t = T::Prim("JSON".into());
                } else {
                    v.t = self.resolve(path, "json")?;
                    v.cast = true;
                }
            }
            Kind::Object(fields, req) => {
                let mut out = Vec::new();
                for (k, f) in fields {
                    let mut p = path.to_vec();
                    p.push(k.clone());
                    let fnull = !req.contains(k);
                    if let Some(fv) = self.node(f, &p, fnull) {
                        let default = f.nullable || fnull || ctx.fnull;
                        out.push(F { name: k.clone(), v: fv, default });
                    }
                }
                if out.is_empty() {
                    v.t = self.resolve(path, "empty")?;
                    v.cast = true;
                } else {
                    v.t = T::Record(self.fullname(path), out);
                }
            }
            Kind::Tuple(items) => {
                let mut out = Vec::new();
                for (i, f) in items.iter().enumerate() {
                    let name = format!("f{}_", i);
                    let mut p = path.to_vec();
                    p.push(name.clone());
                    match self.node(f, &p, false) {
                        Some(fv) => out.push(F { name, v: fv, default: f.nullable || ctx.fnull }),
                        None => {
                            if self.target == Target::Bq {
                                return None;
                            }
                        }
                    }
                }
                if self.target == Target::Bq {
                    out.sort_by(|a, b| a.name.cmp(&b.name));
                }
                if out.is_empty() {
                    v.t = self.resolve(path, "empty")?;
                    v.cast = true;
                } else {
                    v.tuple = true;
                    v.t = T::Record(self.fullname(path), out);
                }
            }
            Kind::Array(item) => {
                let mut p = path.to_vec();
                p.push("list".into());
                let iv = self.node(item, &p, false)?;
                let iv = if item.is_array() {
                    let f = F { name: "list".into(), v: iv, default: false };
                    V {
                        t: T::Record(self.fullname(path), vec![f]),
                        nullable: false,
                        desc: None,
                        desc_free: false,
                        cast: false,
                        tuple: false,
                    }
                } else {
                    iv
                };
                v.t = T::Array(Box::new(iv));
            }
            Kind::Map(value) => {
                let mut p = path.to_vec();
                p.push("value".into());
                match self.node(value, &p, false) {
                    Some(iv) => v.t = T::Map(Some(Box::new(iv))),
                    None => {
                        if self.target == Target::Bq && ctx.mw {
                            v.t = T::Map(None)
                        } else {
                            return None;
                        }
                    }
                }
            }
        }
        Some(v)
    }

    fn fullname(&self, path: &[String]) -> String {
        match self.target {
            Target::Bq => String::new(),
            Target::Avro => {
                let mut s = "root".to_string();
                for p in path {
                    s.push('.');
                    s.push_str(p);
                }
                s
            }
        }
    }

    fn resolve(&mut self, path: &[String], why: &str) -> Option<T> {
        self.events.push(Ev::Resolve(path.join("."), why.into()));
        match self.ctx.res {
            Res::Cast => Some(T::Prim(match self.target {
                Target::Avro => "string".into(),
                Target::Bq => "STRING".into(),
            })),
            _ => None,
        }
    }
}

/// The complete expectation for one conversion.
pub enum Expect {
    Refused(String),
    /// root value; for BigQuery the root record's fields are the columns
    Out(V),
}

pub struct Expectation {
    pub out: Expect,
    pub events: Vec<String>,
    pub json_paths: Vec<String>,
    pub facts: Facts,
    pub node: Option<Node>,
}

pub fn expect(schema: &Value, ctx: &Ctx, target: Target) -> Expectation {
    let (n, facts) = elaborate(schema, ctx);
    match n {
        Err(e) => Expectation { out: Expect::Refused(format!("{:?}", e)), events: vec![], json_paths: vec![], facts, node: None },
        Ok(n) => {
            let mut r = Render::new(ctx, target, schema);
            // for the panic strategy, find the events with cast
            let cc = ctx.with_res(Res::Cast);
            let mut rc = Render::new(&cc, target, schema);
            let _ = rc.node(&n, &[], false);
            let events: Vec<String> = rc
                .events
                .iter()
                .map(|e| match e {
                    Ev::Resolve(p, _) => p.clone(),
                })
                .collect();
            let out = if ctx.res == Res::Panic && !events.is_empty() {
                Expect::Refused("unresolvable under panic".into())
            } else {
                match r.node(&n, &[], false) {
                    Some(v) => Expect::Out(v),
                    None => Expect::Refused("dropped".into()),
                }
            };
            Expectation { out, events, json_paths: rc.json_paths, facts, node: Some(n) }
        }
    }
}
