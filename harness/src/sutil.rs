//! Walking and editing JSON Schemas.
use crate::names;
use crate::rng::Rng;
use serde_json::{json, Map, Value};

pub type Path = Vec<String>;

pub fn get<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get(k)?,
            Value::Array(l) => l.get(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

pub fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(l) => l.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

pub fn types_of(m: &Map<String, Value>) -> Vec<String> {
    match m.get("type") {
        Some(Value::String(s)) => vec![s.clone()],
        Some(Value::Array(l)) => l.iter().filter_map(|x| x.as_str()).map(|s| s.to_string()).collect(),
        _ => vec!["object".into()],
    }
}

/// paths of the directly nested subschemas that are translated
pub fn children(v: &Value, ts: bool) -> Vec<Path> {
    let mut out = vec![];
    let m = match v.as_object() {
        Some(m) => m,
        None => return out,
    };
    let ty = types_of(m);
    if ty.iter().any(|t| t == "object") {
        if let Some(Value::Object(p)) = m.get("properties") {
            for k in p.keys() {
                if names::column(k).is_some() {
                    out.push(vec!["properties".into(), k.clone()]);
                }
            }
        } else {
            let add = m.get("additionalProperties").map(|x| x.is_object()).unwrap_or(false);
            let mut any = false;
            if add {
                out.push(vec!["additionalProperties".into()]);
                any = true;
            }
            if let Some(Value::Object(p)) = m.get("patternProperties") {
                for k in p.keys() {
                    out.push(vec!["patternProperties".into(), k.clone()]);
                    any = true;
                }
            }
            if !any {
                if let Some(Value::Array(l)) = m.get("oneOf") {
                    for i in 0..l.len() {
                        out.push(vec!["oneOf".into(), i.to_string()]);
                    }
                }
            }
        }
    }
    if ty.iter().any(|t| t == "array") {
        match m.get("items") {
            Some(Value::Object(_)) => out.push(vec!["items".into()]),
            Some(Value::Array(l)) if ts => {
                for i in 0..l.len() {
                    out.push(vec!["items".into(), i.to_string()]);
                }
                let max = m.get("maxItems").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                if m.get("additionalItems").map(|x| x.is_object()).unwrap_or(false) && max > l.len() {
                    out.push(vec!["additionalItems".into()]);
                }
            }
            _ => {}
        }
    }
    out
}

/// all translated subschema positions, the root first
pub fn positions(v: &Value, ts: bool) -> Vec<Path> {
    let mut out: Vec<Path> = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        let p = out[i].clone();
        if let Some(s) = get(v, &p) {
            for c in children(s, ts) {
                let mut q = p.clone();
                q.extend(c);
                out.push(q);
            }
        }
        i += 1;
    }
    out
}

/// Apply `f` to every subschema (translated or not), bottom-up.
pub fn rewrite(v: &Value, f: &mut dyn FnMut(&mut Map<String, Value>)) -> Value {
    let mut m = match v {
        Value::Object(m) => m.clone(),
        _ => return v.clone(),
    };
    for k in ["properties", "patternProperties"] {
        if let Some(Value::Object(p)) = m.get(k).cloned() {
            let mut np = Map::new();
            for (n, s) in p {
                np.insert(n, rewrite(&s, f));
            }
            m.insert(k.into(), Value::Object(np));
        }
    }
    for k in ["additionalProperties", "additionalItems", "items"] {
        match m.get(k).cloned() {
            Some(s @ Value::Object(_)) => {
                m.insert(k.into(), rewrite(&s, f));
            }
            Some(Value::Array(l)) => {
                m.insert(k.into(), Value::Array(l.iter().map(|s| rewrite(s, f)).collect()));
            }
            _ => {}
        }
    }
    for k in ["oneOf", "allOf"] {
        if let Some(Value::Array(l)) = m.get(k).cloned() {
            m.insert(k.into(), Value::Array(l.iter().map(|s| rewrite(s, f)).collect()));
        }
    }
    f(&mut m);
    Value::Object(m)
}

pub fn shuffle_required(v: &Value, r: &mut Rng) -> Value {
    rewrite(v, &mut |m| {
        if let Some(Value::Array(l)) = m.get_mut("required") {
            r.shuffle(l);
            if !l.is_empty() && r.chance(0.2) {
                let x = l[0].clone();
                l.push(x);
            }
        }
    })
}

pub fn strip_text(v: &Value) -> Value {
    rewrite(v, &mut |m| {
        m.remove("title");
        m.remove("description");
    })
}

pub fn size(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(size).sum::<usize>(),
        Value::Array(l) => 1 + l.iter().map(size).sum::<usize>(),
        _ => 1,
    }
}

/// Candidate reductions of a JSON value, for shrinking.
pub fn reductions(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Object(m) => {
            for (k, c) in m {
                if c.is_object() {
                    out.push(c.clone());
                }
                if let Value::Array(l) = c {
                    for x in l {
                        if x.is_object() {
                            out.push(x.clone());
                        }
                    }
                }
                if let (true, Value::Object(p)) = (k == "properties", c) {
                    for x in p.values() {
                        out.push(x.clone());
                    }
                }
            }
            for k in m.keys() {
                let mut n = m.clone();
                n.remove(k);
                out.push(Value::Object(n));
            }
            for (k, c) in m {
                for rc in reductions(c) {
                    let mut n = m.clone();
                    n.insert(k.clone(), rc);
                    out.push(Value::Object(n));
                }
            }
        }
        Value::Array(l) => {
            for i in 0..l.len() {
                let mut n = l.clone();
                n.remove(i);
                out.push(Value::Array(n));
            }
            for (i, c) in l.iter().enumerate() {
                for rc in reductions(c) {
                    let mut n = l.clone();
                    n[i] = rc;
                    out.push(Value::Array(n));
                }
            }
        }
        Value::String(s) => {
            if s.chars().count() > 3 {
                let h: String = s.chars().take(s.chars().count() / 2).collect();
                out.push(json!(h));
            }
        }
        _ => {}
    }
    out
}
