//! Properties decided by relating several observed conversions to each other.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::model::{self, elaborate};
use crate::names;
use crate::pm::{case, case_raw, sc};
use crate::rng::Rng;
use crate::sutil::{self, get, get_mut, positions, rewrite};
use crate::view::*;
use serde_json::{json, Map, Value};

fn same(a: &Result<Value, String>, b: &Result<Value, String>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
fn show(a: &Result<Value, String>) -> String {
    match a {
        Ok(v) => short(v),
        Err(e) => format!("refused ({})", e.chars().take(200).collect::<String>()),
    }
}

// --- C01 -------------------------------------------------------------------
pub fn c01_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 1, 2]);
    p.collisions = true;
    p.p_desc = 0.15;
    p.nodes = *r.pick(&[10, 30, 80]);
    p.w_oneof = 7;
    p.w_map = 5;
    p.w_tuple = 3;
    p.max_fields = 8;
    let mut ctx = Ctx::random(r);
    if r.chance(0.6) {
        ctx.res = Res::Cast;
    }
    let mut c;
    if r.chance(0.35) {
        // one group of colliding names at the root
        let group: &[&str] = *r.pick(&[
            &["a-b", "a.b", "a_b"] as &[&str],
            &["a.b", "a-b"],
            &["9x", "_9x"],
            &["a_b", "a.b"],
            &["fooBar", "foo-bar", "foo_bar", "FooBar"],
            &["x.1", "x-1", "X_1"],
            &["A", "a"],
            &["a__b", "a_b", "a-.b"],
            &["-", "_", "."],
        ]);
        p.collisions = false;
        p.names = 0;
        p.nodes = 12;
        p.depth = 3;
        p.w_json = 0;
        let mut s = gen::object_root(r, &p);
        let props = s["properties"].as_object_mut().unwrap();
        props.retain(|k, _| !group.iter().any(|g| names::column_nc(g) == names::column_nc(k)));
        let mut pool: Vec<Value> = vec![
            json!({"type":"integer"}), json!({"type":"string"}), json!({"type":"boolean"}), json!({"type":"number"}),
            json!({"type":"object","properties":{"q":{"type":"integer"}}}), json!({"type":"array","items":{"type":"string"}}),
        ];
        r.shuffle(&mut pool);
        for (i, g) in group.iter().enumerate() {
            props.insert(g.to_string(), pool[i].clone());
        }
        let mut req: Vec<String> = props.keys().filter(|_| r.coin()).cloned().collect();
        r.shuffle(&mut req);
        s["required"] = json!(req);
        c = case_raw(s, &ctx);
        c["group"] = json!(group);
    } else {
        c = case_raw(gen::schema(r, &p), &ctx);
    }
    c["pseed"] = json!(r.next() >> 12);
    c
}
pub fn c01_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut r = Rng::new(c["pseed"].as_u64().unwrap_or(1));
    let mut nt = false;
    for t in TARGETS {
        let base = conv(t, s, &ctx);
        let text = base.as_ref().ok().map(|v| v.to_string());
        for i in 0..6 {
            let v = match i % 3 {
                0 => s.clone(),
                1 => sutil::shuffle_required(s, &mut r),
                // through text, with the members in another order
                _ => serde_json::from_str(&reorder_text(s, &mut r)).unwrap(),
            };
            let o = conv(t, &v, &ctx);
            st.inc("repetitions_compared");
            if o.as_ref().ok().map(|v| v.to_string()) != text {
                return Verdict::Bad(
                    format!("{:?}-differs", t),
                    format!("{:?}: {} and then {}", t, show(&base), show(&o)),
                );
            }
        }
        nt |= base.is_ok();
        // colliding names: the result is the translation of one of them
        if let (Some(g), Ok(out)) = (c.get("group").and_then(|g| g.as_array()), &base) {
            let names: Vec<&str> = g.iter().filter_map(|x| x.as_str()).filter(|k| s["properties"].get(*k).is_some()).collect();
            let mut by: std::collections::BTreeMap<String, Vec<&str>> = Default::default();
            for n in &names {
                if let Some(c) = names::map_name(n, ctx.nc) {
                    by.entry(c).or_default().push(n);
                }
            }
            // every way of keeping one property per column
            let mut choices: Vec<Vec<&str>> = vec![vec![]];
            for l in by.values() {
                choices = choices.iter().flat_map(|c| l.iter().map(move |x| { let mut d = c.clone(); d.push(*x); d })).collect();
            }
            let mut hit = false;
            for ch in &choices {
                let mut v = s.clone();
                v["properties"].as_object_mut().unwrap().retain(|k, _| !names.contains(&k.as_str()) || ch.contains(&k.as_str()));
                if conv(t, &v, &ctx).ok().as_ref() == Some(out) {
                    hit = true;
                }
            }
            if !hit {
                return Verdict::Bad(format!("{:?}-collision", t), format!("{:?}: the column of {:?} is the translation of none of them: {}", t, names, short(out)));
            }
            st.inc("collision_groups_checked");
        }
    }
    Verdict::Held(nt)
}
fn reorder_text(v: &Value, r: &mut Rng) -> String {
    match v {
        Value::Object(m) => {
            let mut parts: Vec<String> = m.iter().map(|(k, x)| format!("{}:{}", json!(k), reorder_text(x, r))).collect();
            r.shuffle(&mut parts);
            format!("{{{}}}", parts.join(","))
        }
        Value::Array(l) => format!("[{}]", l.iter().map(|x| reorder_text(x, r)).collect::<Vec<_>>().join(",")),
        _ => v.to_string(),
    }
}

// --- C09 -------------------------------------------------------------------
pub fn c09_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.nodes = *r.pick(&[1, 5, 15, 50]);
    p.p_desc = 0.15;
    p.w_map = 5;
    p.w_tuple = 4;
    p.w_oneof = 6;
    p.p_required = 0.8;
    let mut ctx = Ctx::random(r);
    ctx.fnull = true;
    case(gen::schema(r, &p), &ctx)
}
fn strip_av(v: &AV) -> AV {
    AV {
        nullable: false,
        t: match &v.t {
            AT::Array(x) => AT::Array(Box::new(strip_av(x))),
            AT::Map(x) => AT::Map(Box::new(strip_av(x))),
            AT::Record(n, f) => AT::Record(n.clone(), f.iter().map(|f| AF { name: f.name.clone(), v: strip_av(&f.v), default: None }).collect()),
            x => x.clone(),
        },
    }
}
fn strip_col(c: &Col) -> Col {
    let mut d = c.clone();
    if d.mode != "REPEATED" {
        d.mode = "N".into();
    }
    d.fields = d.fields.iter().map(strip_col).collect();
    d
}
/// the synthetic record around a list that is directly inside a list
fn is_wrapper(v: &AV) -> bool {
    match &v.t {
        AT::Record(_, f) => !v.nullable && f.len() == 1 && f[0].name == "list" && f[0].default.is_none() && matches!(f[0].v.t, AT::Array(_)),
        _ => false,
    }
}
fn all_null_av(v: &AV, path: &str, elem: bool, n: &mut u64) -> Result<(), String> {
    let wrapper = elem && is_wrapper(v);
    *n += 1;
    if !v.nullable && v.t != AT::Null && !wrapper {
        return Err(format!("{} is not nullable", path));
    }
    match &v.t {
        AT::Array(x) => all_null_av(x, &format!("{}[]", path), true, n),
        AT::Map(x) => all_null_av(x, &format!("{}{{}}", path), false, n),
        AT::Record(_, f) => {
            for f in f {
                let p = format!("{}.{}", path, f.name);
                if f.default.is_none() && !wrapper {
                    return Err(format!("{} has no default", p));
                }
                all_null_av(&f.v, &p, false, n)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn all_null_bq(cols: &[Col], path: &str, n: &mut u64) -> Result<(), String> {
    for c in cols {
        let p = format!("{}.{}", path, c.name);
        *n += 1;
        if c.mode == "REQUIRED" {
            return Err(format!("{} is REQUIRED", p));
        }
        all_null_bq(&c.fields, &p, n)?;
    }
    Ok(())
}
pub fn c09_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut f = ctx.clone();
    f.fnull = true;
    let mut g = ctx.clone();
    g.fnull = false;
    let mut n = 0u64;
    let mut nt = false;
    for t in TARGETS {
        let (a, b) = (conv(t, s, &f), conv(t, s, &g));
        if a.is_ok() != b.is_ok() {
            return Verdict::Bad(format!("{:?}-success", t), format!("{:?}: with force-nullable {}, without {}", t, show(&a), show(&b)));
        }
        if let (Ok(x), Ok(y)) = (&a, &b) {
            let (bad_same, nulls) = match t {
                Target::Avro => match (read_avro(x).0, read_avro(y).0) {
                    (Some(p), Some(q)) => (strip_av(&p) != strip_av(&q), all_null_av(&p, "$", false, &mut n)),
                    _ => continue,
                },
                Target::Bq => match (read_bq(x).0, read_bq(y).0) {
                    (Some(p), Some(q)) => {
                        let sp: Vec<Col> = p.iter().map(strip_col).collect();
                        let sq: Vec<Col> = q.iter().map(strip_col).collect();
                        (sp != sq, all_null_bq(&p, "$", &mut n))
                    }
                    _ => continue,
                },
            };
            if bad_same {
                return Verdict::Bad(format!("{:?}-structure", t), format!("{:?}: force-nullable changes more than nullability: {} versus {}", t, short(x), short(y)));
            }
            if let Err(e) = nulls {
                return Verdict::Bad(format!("{:?}-not-forced", t), format!("{:?}: {}", t, e));
            }
            if x != y {
                nt = true;
            }
        }
    }
    st.add("positions_checked_nullable", n);
    Verdict::Held(nt)
}

// --- C11 -------------------------------------------------------------------
pub fn c11_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[1, 1, 2]);
    p.p_desc = 0.1;
    p.nodes = *r.pick(&[4, 12, 40]);
    p.w_object = 14;
    p.max_fields = 7;
    let mut ctx = Ctx::random(r);
    ctx.nc = true;
    if r.chance(0.15) {
        ctx.re = Some(r.pick(&["a", "foo_bar", ".*list", "f"]).to_string());
    }
    case(gen::schema(r, &p), &ctx)
}
/// the normalisation "by hand": symbols, snake_case, case_raw, digit prefix
fn hand(n: &str) -> Option<String> {
    let c = names::column(n)?;
    let mut s = jst::casing::to_snake_case(&c);
    if s.is_empty() {
        return Some(c);
    }
    if s.chars().next().unwrap().is_numeric() {
        s.insert(0, '_');
    }
    Some(s)
}
fn rename_all(s: &Value, f: &dyn Fn(&str) -> Option<String>) -> Option<Value> {
    let mut clash = false;
    let v = rewrite(s, &mut |m| {
        if let Some(Value::Object(p)) = m.get("properties").cloned() {
            let mut np = Map::new();
            for (k, x) in p {
                let n = f(&k).unwrap_or(k);
                if np.insert(n, x).is_some() {
                    clash = true;
                }
            }
            m.insert("properties".into(), Value::Object(np));
        }
        if let Some(Value::Array(l)) = m.get("required").cloned() {
            m.insert(
                "required".into(),
                Value::Array(l.into_iter().map(|k| json!(f(k.as_str().unwrap_or("")).unwrap_or(k.as_str().unwrap_or("").to_string()))).collect()),
            );
        }
    });
    if clash {
        None
    } else {
        Some(v)
    }
}
fn field_names(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(l) => l.iter().for_each(|x| field_names(x, out)),
        Value::Object(m) => {
            if let Some(Value::Array(f)) = m.get("fields") {
                for x in f {
                    if let Some(n) = x["name"].as_str() {
                        out.push(n.to_string());
                    }
                }
            }
            m.values().for_each(|x| field_names(x, out));
        }
        _ => {}
    }
}
pub fn c11_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut on = ctx.clone();
    on.nc = true;
    let mut off = ctx.clone();
    off.nc = false;
    let (n, facts) = elaborate(s, &on);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    let renamed = match rename_all(s, &hand) {
        Some(v) => v,
        None => return Verdict::Skip,
    };
    for t in TARGETS {
        let (a, b) = (conv(t, s, &on), conv(t, &renamed, &off));
        if !same(&a, &b) {
            return Verdict::Bad(format!("{:?}-differs", t), format!("{:?}: with case normalisation {}, renamed by hand {}", t, show(&a), show(&b)));
        }
        if let Ok(v) = &a {
            let mut l = vec![];
            field_names(v, &mut l);
            if t == Target::Bq {
                for c in v.as_array().into_iter().flatten() {
                    l.extend(c["name"].as_str().map(|s| s.to_string()));
                }
            }
            // (f0_ and friends are positions of a tuple, not property names)
            let tup = |x: &str| ctx.ts && x.starts_with('f') && x.ends_with('_');
            if let Some(x) = l.iter().find(|x| !tup(x) && hand(x).as_deref() != Some(x.as_str())) {
                return Verdict::Bad(format!("{:?}-not-fixed", t), format!("{:?}: column name {:?} is changed by normalising it again to {:?}", t, x, hand(x)));
            }
            st.add("column_names_checked", l.len() as u64);
        }
    }
    st.add("names_changed_by_case", facts.renamed.len() as u64);
    Verdict::Held(!facts.renamed.is_empty())
}

// --- C13 -------------------------------------------------------------------
pub fn c13_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 0, 1]);
    p.nodes = *r.pick(&[5, 15, 40]);
    p.w_oneof = 14;
    p.w_list = 8;
    p.w_json = *r.pick(&[0, 1, 3]);
    p.w_null = 2;
    let ctx = Ctx::random(r);
    let s = if r.chance(0.6) { gen::one_of_root(r, &p) } else { gen::schema(r, &p) };
    let mut c = case(s, &ctx);
    c["op"] = json!(*r.pick(&["shuffle", "group", "wrap", "repeat", "null", "flatten", "algebra", "list"]));
    c["pseed"] = json!(r.next() >> 12);
    c
}
fn is_union_schema(v: &Value) -> bool {
    // a subschema whose oneOf is the one that gets translated
    let m = match v.as_object() {
        Some(m) => m,
        None => return false,
    };
    sutil::types_of(m) == ["object"] && sutil::children(v, true).first().map(|p| p[0] == "oneOf").unwrap_or(false)
}
fn is_atomic(v: &Value) -> bool {
    v["type"].as_str().map(|t| ["boolean", "integer", "number", "string"].contains(&t)).unwrap_or(false)
}
/// returns the transformed schema and, for the null operation, its position
fn transform(s: &Value, op: &str, seed: u64, ts: bool) -> Option<(Value, sutil::Path)> {
    let mut r = Rng::new(seed);
    let mut v = s.clone();
    let pos = positions(s, ts);
    let unions: Vec<&sutil::Path> = pos.iter().filter(|p| is_union_schema(get(s, p).unwrap())).collect();
    match op {
        "shuffle" => {
            let mut done = false;
            for p in &pos {
                let x = get_mut(&mut v, p)?;
                if let Some(m) = x.as_object_mut() {
                    // only alternatives of the same position move, so pointers
                    // below oneOf stay valid as positions of some alternative
                    if let Some(Value::Array(l)) = m.get_mut("type") {
                        if l.len() > 1 {
                            r.shuffle(l);
                            done = true;
                        }
                    }
                }
            }
            let mut us: Vec<sutil::Path> = unions.iter().map(|p| (*p).clone()).collect();
            us.sort_by_key(|p| std::cmp::Reverse(p.len()));
            for p in us {
                if let Some(Value::Array(l)) = get_mut(&mut v, &p).and_then(|x| x.get_mut("oneOf")) {
                    if l.len() > 1 {
                        r.shuffle(l);
                        done = true;
                    }
                }
            }
            if done {
                Some((v, vec![]))
            } else {
                None
            }
        }
        "group" => {
            let cand: Vec<&&sutil::Path> = unions.iter().filter(|p| get(s, p).unwrap()["oneOf"].as_array().map(|l| l.len() > 1).unwrap_or(false)).collect();
            if cand.is_empty() {
                return None;
            }
            let p = (**r.pick(&cand)).clone();
            let l = get_mut(&mut v, &p)?.get_mut("oneOf")?.as_array_mut()?;
            r.shuffle(l);
            let k = r.range(1, l.len() - 1);
            let tail = l.split_off(k);
            l.push(json!({"oneOf": tail}));
            if r.coin() {
                l.rotate_right(1);
            }
            Some((v, vec![]))
        }
        "flatten" => {
            // the inverse of grouping
            for p in &unions {
                let l = get(s, p)?["oneOf"].as_array()?.clone();
                for (i, a) in l.iter().enumerate() {
                    if is_union_schema(a) {
                        let inner = a["oneOf"].as_array()?.clone();
                        let mut n = l.clone();
                        n.splice(i..i + 1, inner);
                        get_mut(&mut v, p)?["oneOf"] = json!(n);
                        return Some((v, vec![]));
                    }
                }
            }
            None
        }
        "wrap" => {
            let p = r.pick(&pos).clone();
            let x = get(s, &p)?.clone();
            let mut m = Map::new();
            if p.is_empty() {
                // the pattern for JSON columns is read from the root
                if let Some(mm) = x.get("mozPipelineMetadata") {
                    m.insert("mozPipelineMetadata".into(), mm.clone());
                }
            }
            m.insert("oneOf".into(), json!([x]));
            if p.is_empty() {
                return Some((Value::Object(m), vec![]));
            }
            *get_mut(&mut v, &p)? = Value::Object(m);
            Some((v, vec![]))
        }
        "repeat" => {
            for p in &unions {
                let l = get(s, p)?["oneOf"].as_array()?.clone();
                let at: Vec<&Value> = l.iter().filter(|x| is_atomic(x)).collect();
                if !at.is_empty() {
                    let mut n = l.clone();
                    let x = (*r.pick(&at)).clone();
                    for _ in 0..if r.chance(0.2) { gen::limit(&mut r, 130) } else { r.range(1, 2) } {
                        n.insert(r.below(n.len() + 1), x.clone());
                    }
                    get_mut(&mut v, p)?["oneOf"] = json!(n);
                    return Some((v, vec![]));
                }
            }
            None
        }
        "list" => {
            // a type list of plain atoms is the same as a oneOf of them
            let cand: Vec<&sutil::Path> = pos
                .iter()
                .filter(|p| {
                    let x = get(s, p).unwrap();
                    x["type"].as_array().map(|l| !l.is_empty() && l.iter().all(|t| t != "object" && t != "array")).unwrap_or(false)
                })
                .collect();
            if cand.is_empty() {
                return None;
            }
            let p = (*r.pick(&cand)).clone();
            let l = get(s, &p)?["type"].as_array()?.clone();
            let alts: Vec<Value> = l.iter().map(|t| json!({"type": t})).collect();
            let mut keep = Map::new();
            if let Some(mm) = get(s, &p)?.get("mozPipelineMetadata") {
                keep.insert("mozPipelineMetadata".into(), mm.clone());
            }
            keep.insert("oneOf".into(), json!(alts));
            if p.is_empty() {
                return Some((Value::Object(keep), vec![]));
            }
            *get_mut(&mut v, &p)? = Value::Object(keep);
            Some((v, vec![]))
        }
        _ => None,
    }
}
fn av_nodesc(v: &Result<Value, String>) -> Option<Value> {
    v.as_ref().ok().cloned()
}
fn bq_nodesc(v: &Result<Value, String>) -> Option<Value> {
    fn nd(v: &Value) -> Value {
        match v {
            Value::Array(l) => Value::Array(l.iter().map(nd).collect()),
            Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "description").map(|(k, v)| (k.clone(), nd(v))).collect()),
            _ => v.clone(),
        }
    }
    v.as_ref().ok().map(nd)
}
/// relation between the outputs when one position became nullable
fn make_nullable(c: &mut Col) {
    if c.mode == "REQUIRED" {
        c.mode = "NULLABLE".into();
    }
}
pub fn c13_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let op = c["op"].as_str().unwrap_or("shuffle");
    let seed = c["pseed"].as_u64().unwrap_or(1);
    let (n, facts) = elaborate(s, &ctx);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    if op == "algebra" {
        if facts.unions == 0 {
            return Verdict::Skip;
        }
        st.inc("algebra_checked");
        for t in TARGETS {
            let o = observe(s, &ctx, t);
            if let Some(d) = o.diffs.iter().find(|d| !matches!(d.a, As::Desc | As::FullName | As::Order | As::Default | As::Invalid)) {
                return Verdict::Bad(d.sig(), d.text());
            }
        }
        return Verdict::Held(facts.merges > 0);
    }
    if op == "null" {
        // {oneOf: [S, null]} against {oneOf: [S]} with S nullable by hand
        for t in TARGETS {
            let a = conv(t, s, &ctx);
            let mut w = Map::new();
            if let Some(mm) = s.get("mozPipelineMetadata") {
                w.insert("mozPipelineMetadata".into(), mm.clone());
            }
            let n = json!({"type": "null"});
            let alts = if is_union_schema(s) {
                let mut l = s["oneOf"].as_array().cloned().unwrap_or_default();
                l.insert((seed as usize) % (l.len() + 1), n);
                l
            } else if seed % 2 == 0 {
                vec![s.clone(), n]
            } else {
                vec![n, s.clone()]
            };
            w.insert("oneOf".into(), json!(alts));
            let b = conv(t, &Value::Object(w), &ctx);
            if a.is_ok() != b.is_ok() {
                return Verdict::Bad(format!("{:?}-null-success", t), format!("{:?}: adding null: {} versus {}", t, show(&a), show(&b)));
            }
            if let (Ok(x), Ok(y)) = (&a, &b) {
                let bad = match t {
                    Target::Avro => match (read_avro(x).0, read_avro(y).0) {
                        (Some(mut p), Some(q)) => {
                            if p.t != AT::Null {
                                p.nullable = true;
                            }
                            p != q
                        }
                        _ => false,
                    },
                    Target::Bq => match (read_bq(&bq_nodesc(&a).unwrap()).0, read_bq(&bq_nodesc(&b).unwrap()).0) {
                        (Some(mut p), Some(q)) => {
                            if p.len() == 1 && p[0].name == "root" && q != p {
                                make_nullable(&mut p[0]);
                            }
                            p != q
                        }
                        _ => false,
                    },
                };
                if bad {
                    return Verdict::Bad(format!("{:?}-null", t), format!("{:?}: adding a null alternative changes more than nullability: {} to {}", t, short(x), short(y)));
                }
            }
        }
        st.inc("op_null");
        return Verdict::Held(true);
    }
    let (v, _) = match transform(s, op, seed, ctx.ts) {
        Some(x) => x,
        None => return Verdict::Skip,
    };
    for t in TARGETS {
        let (a, b) = (conv(t, s, &ctx), conv(t, &v, &ctx));
        let eq = match t {
            Target::Avro => av_nodesc(&a) == av_nodesc(&b),
            Target::Bq => bq_nodesc(&a) == bq_nodesc(&b),
        };
        if !eq {
            return Verdict::Bad(format!("{:?}-{}", t, op), format!("{:?}: {} changes {} into {} (transformed schema {})", t, op, show(&a), show(&b), short(&v)));
        }
    }
    st.inc(&format!("op_{}", op));
    Verdict::Held(true)
}

// --- C17 -------------------------------------------------------------------
pub fn c17_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.p_desc = 0.05;
    p.nodes = *r.pick(&[3, 12, 40]);
    p.array_map = false;
    p.w_map = 5;
    p.w_tuple = 4;
    p.w_oneof = 6;
    let mut ctx = Ctx::random(r);
    ctx.ts |= r.coin();
    if r.chance(0.15) {
        ctx.re = Some(r.pick(&["", "a", "b|foo"]).to_string());
    }
    case(gen::schema(r, &p), &ctx)
}
struct Corr<'a> {
    ctx: &'a Ctx,
    pairs: u64,
    opt: u64,
}
impl<'a> Corr<'a> {
    fn atom(&self, a: &str, b: &str) -> bool {
        matches!(
            (a, b),
            ("boolean", "BOOL") | ("long", "INT64") | ("double", "FLOAT64") | ("string", "STRING") | ("string", "TIMESTAMP") | ("bytes", "BYTES")
        ) || (b == "JSON" && a == "string" && self.ctx.re.is_some())
    }
    /// may this Avro value have no BigQuery column? (drop only)
    fn may_lack(&self, v: &AV) -> bool {
        if self.ctx.res != Res::Drop {
            return false;
        }
        match &v.t {
            AT::Null => true,
            AT::Prim(_) => false,
            AT::Array(x) | AT::Map(x) => self.may_lack(x),
            AT::Record(_, f) => f.iter().all(|f| self.may_lack(&f.v)) || self.tuple_like(f),
        }
    }
    fn tuple_like(&self, f: &[AF]) -> bool {
        self.ctx.ts && f.iter().all(|x| x.name.starts_with('f') && x.name.ends_with('_') && x.name.len() > 2)
    }
    /// may this column have no Avro counterpart? (drop only)
    fn may_extra(&self, c: &Col) -> bool {
        if self.ctx.res != Res::Drop {
            return false;
        }
        let json = c.ty == "JSON" && self.ctx.re.is_some();
        let keys_only = self.ctx.mw && c.mode == "REPEATED" && c.fields.len() == 1 && c.fields[0].name == "key";
        json || keys_only || (!c.fields.is_empty() && c.fields.iter().all(|f| self.may_extra(f) || (f.name == "key" && c.fields.len() == 2 && c.mode == "REPEATED")))
    }
    fn value(&mut self, a: &AV, c: &Col, path: &str) -> Result<(), String> {
        self.pairs += 1;
        let repeated = c.mode == "REPEATED";
        match &a.t {
            AT::Array(x) => {
                if !repeated {
                    return Err(format!("{}: array versus {}", path, c.mode));
                }
                if matches!(x.t, AT::Map(_)) {
                    return Ok(()); // listed exception
                }
                let mut d = c.clone();
                d.mode = if x.nullable { "NULLABLE".into() } else { "REQUIRED".into() };
                if x.t == AT::Null {
                    d.mode = "NULLABLE".into();
                }
                // the nullability of elements is left aside
                self.value_at(x, &d, path, false)
            }
            AT::Map(x) => {
                if !repeated || c.ty != "RECORD" {
                    return Err(format!("{}: map versus {} {}", path, c.mode, c.ty));
                }
                let k = c.fields.iter().find(|f| f.name == "key");
                if k.map(|k| k.ty != "STRING" || k.mode == "REPEATED").unwrap_or(true) {
                    return Err(format!("{}: map column without string key", path));
                }
                match c.fields.iter().find(|f| f.name == "value") {
                    Some(v) if c.fields.len() == 2 => self.value(x, v, &format!("{}.value", path)),
                    None if c.fields.len() == 1 && self.ctx.mw && self.may_lack(x) => Ok(()),
                    _ => Err(format!("{}: map value column missing or extra columns", path)),
                }
            }
            _ => {
                if repeated {
                    return Err(format!("{}: REPEATED versus a single value", path));
                }
                self.value_at(a, c, path, true)
            }
        }
    }
    fn value_at(&mut self, a: &AV, c: &Col, path: &str, modes: bool) -> Result<(), String> {
        if modes {
            let an = a.nullable || a.t == AT::Null;
            if an != (c.mode == "NULLABLE") {
                return Err(format!("{}: Avro nullable {} versus {}", path, an, c.mode));
            }
        }
        match &a.t {
            AT::Null => {
                if c.ty == "STRING" {
                    Ok(())
                } else {
                    Err(format!("{}: null versus {}", path, c.ty))
                }
            }
            AT::Prim(p) => {
                if self.atom(p, &c.ty) {
                    return Ok(());
                }
                // a record whose fields are all unrepresentable in Avro but not
                // in BigQuery: some field of it is a JSON column
                if p == "string" && c.ty == "RECORD" && self.ctx.re.is_some() {
                    return Ok(());
                }
                Err(format!("{}: {} versus {}", path, p, c.ty))
            }
            AT::Record(_, f) => {
                if c.ty != "RECORD" {
                    // a record of nothing but nulls is empty in BigQuery
                    return Err(format!("{}: record versus {}", path, c.ty));
                }
                self.fields(f, &c.fields, path)
            }
            _ => Err(format!("{}: nested list without a record", path)),
        }
    }
    fn fields(&mut self, f: &[AF], cols: &[Col], path: &str) -> Result<(), String> {
        for x in f {
            let p = format!("{}.{}", path, x.name);
            match cols.iter().find(|c| c.name == x.name) {
                Some(c) => self.value(&x.v, c, &p)?,
                None => {
                    if !self.may_lack(&x.v) {
                        return Err(format!("{}: no BigQuery column", p));
                    }
                    self.opt += 1;
                }
            }
        }
        for c in cols {
            if !f.iter().any(|x| x.name == c.name) {
                if !self.may_extra(c) {
                    return Err(format!("{}.{}: no Avro field", path, c.name));
                }
                self.opt += 1;
            }
        }
        Ok(())
    }
}
pub fn c17_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = elaborate(s, &ctx);
    let n = match n {
        Ok(n) => n,
        Err(_) => return Verdict::Skip,
    };
    if facts.collision || crate::pm::has_array_map(&n) || s.get("mozPipelineMetadata").is_some() {
        return Verdict::Skip;
    }
    let (a, b) = (conv(Target::Avro, s, &ctx), conv(Target::Bq, s, &ctx));
    let (x, y) = match (&a, &b) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return Verdict::Held(false),
        (x, y) => {
            // one of them refuses: only a listed difference may explain it
            let exa = model::expect(s, &ctx, Target::Avro);
            let exb = model::expect(s, &ctx, Target::Bq);
            let ok = |e: &model::Expect| matches!(e, model::Expect::Out(_));
            if ok(&exa.out) == x.is_ok() && ok(&exb.out) == y.is_ok() && ctx.res != Res::Cast {
                return Verdict::Held(false);
            }
            return Verdict::Bad("success".into(), format!("Avro: {}, BigQuery: {}", show(&a), show(&b)));
        }
    };
    let (av, cols) = match (read_avro(x).0, read_bq(y).0) {
        (Some(a), Some(c)) => (a, c),
        _ => return Verdict::Skip,
    };
    let mut k = Corr { ctx: &ctx, pairs: 0, opt: 0 };
    let root_like = cols.len() == 1 && cols[0].name == "root";
    let res = match &av.t {
        AT::Record(_, f) if !(root_like && !f.iter().any(|x| x.name == "root")) => k.fields(f, &cols, "$"),
        _ if root_like => k.value(&av, &cols[0], "$"),
        AT::Prim(p) if p == "string" && ctx.re.is_some() => Ok(()),
        _ => Err("$: the root is a record in one target only".into()),
    };
    if let Err(e) = res {
        return Verdict::Bad("correspondence".into(), format!("{}; Avro {} BigQuery {}", e, short(x), short(y)));
    }
    st.add("position_pairs_compared", k.pairs);
    st.add("listed_differences_seen", k.opt);
    Verdict::Held(k.pairs > 1)
}

// --- C23 -------------------------------------------------------------------
pub fn c23_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.p_desc = 0.05;
    p.nodes = *r.pick(&[1, 6, 15, 40]);
    p.w_tuple = 3;
    let mut ctx = Ctx::random(r);
    ctx.re = None; // embedding changes the paths
    let s = gen::schema(r, &p);
    let mut c = case(s, &ctx);
    // chain of embeddings, outermost last
    let n = r.range(1, 4);
    let chain: Vec<&str> = (0..n).map(|_| *r.pick(&["prop", "array", "map", "union", "tuple", "pattern"])).collect();
    c["chain"] = json!(chain);
    c["pseed"] = json!(r.next() >> 12);
    c
}
fn embed(s: Value, how: &str, r: &mut Rng, i: usize) -> Value {
    match how {
        "prop" => {
            let mut props = Map::new();
            let name = *r.pick(&["zz_s", "a", "list", "value", "X_y", "root"]);
            props.insert(name.to_string(), s);
            for k in ["sib1", "sib2"] {
                if r.coin() {
                    props.insert(k.to_string(), Value::Object(gen::atom(r)));
                }
            }
            if r.chance(0.6) {
                props.insert("keep".into(), json!({"type": "boolean"}));
            }
            let mut m = json!({"type": "object", "properties": props, "required": [name]});
            m["x-emb"] = json!([name, i]);
            m
        }
        "array" => json!({"type": "array", "items": s}),
        "map" => json!({"type": "object", "additionalProperties": s}),
        "pattern" => json!({"type": "object", "patternProperties": {"^x": s}}),
        "union" => json!({"oneOf": [s]}),
        _ => json!({"type": "array", "items": [{"type": "boolean"}, s], "additionalItems": false, "maxItems": 2}),
    }
}
fn norm_av(v: &AV, base: &str) -> AV {
    AV {
        nullable: v.nullable,
        t: match &v.t {
            AT::Array(x) => AT::Array(Box::new(norm_av(x, base))),
            AT::Map(x) => AT::Map(Box::new(norm_av(x, base))),
            AT::Record(n, f) => {
                let rel = n.strip_prefix(base).unwrap_or(n).to_string();
                AT::Record(rel, f.iter().map(|f| AF { name: f.name.clone(), v: norm_av(&f.v, base), default: f.default.clone() }).collect())
            }
            x => x.clone(),
        },
    }
}
pub fn c23_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut ctx = ctx;
    let chain: Vec<String> = c["chain"].as_array().map(|l| l.iter().filter_map(|x| x.as_str()).map(|s| s.to_string()).collect()).unwrap_or_default();
    if chain.iter().any(|h| h == "tuple") {
        ctx.ts = true;
    }
    let (n, facts) = elaborate(s, &ctx);
    let n = match n {
        Ok(n) => n,
        Err(_) => return Verdict::Skip,
    };
    if facts.collision || s.get("mozPipelineMetadata").is_some() || chain.is_empty() {
        return Verdict::Skip;
    }
    let seed = c["pseed"].as_u64().unwrap_or(1);
    let mut r = Rng::new(seed);
    let mut big = s.clone();
    let mut chosen: Vec<(String, String)> = vec![];
    for (i, h) in chain.iter().enumerate() {
        big = embed(big, h, &mut r, i);
        let name = big["x-emb"][0].as_str().map(|s| s.to_string()).unwrap_or_default();
        if let Some(m) = big.as_object_mut() {
            m.remove("x-emb");
        }
        chosen.push((h.clone(), name));
    }
    chosen.reverse();
    // arrays directly around a map or another array are shaped by C20
    let kind_is_map = n.is_map();
    for t in TARGETS {
        let (a, b) = (conv(t, s, &ctx), conv(t, &big, &ctx));
        match t {
            Target::Avro => {
                let alone = a.as_ref().ok().and_then(|v| read_avro(v).0);
                let mut cur = b.as_ref().ok().and_then(|v| read_avro(v).0);
                if b.is_ok() && cur.is_none() {
                    return Verdict::Skip;
                }
                if a.is_err() && ctx.res == Res::Panic {
                    if b.is_ok() {
                        return Verdict::Bad("Avro-refusal".into(), "refused alone, accepted when embedded".into());
                    }
                    continue;
                }
                if b.is_err() && ctx.res != Res::Drop && a.is_ok() {
                    return Verdict::Bad("Avro-refusal".into(), format!("accepted alone, refused when embedded: {}", show(&b)));
                }
                let mut path = "root".to_string();
                for (i, (h, name)) in chosen.iter().enumerate() {
                    let next_is_array = match chosen[i + 1..].iter().find(|(h, _)| h != "union") {
                        Some((h, _)) => h == "array",
                        None => n.is_array(),
                    };
                    cur = match (cur, h.as_str()) {
                        (None, _) => None,
                        (Some(v), "union") => Some(v),
                        (Some(v), "prop") => match v.t {
                            AT::Record(_, f) => {
                                path = format!("{}.{}", path, names::map_name(name, ctx.nc).unwrap());
                                let want = names::map_name(name, ctx.nc).unwrap();
                                f.into_iter().find(|x| x.name == want).map(|x| x.v)
                            }
                            _ => None,
                        },
                        (Some(v), "tuple") => match v.t {
                            AT::Record(_, f) => {
                                path = format!("{}.f1_", path);
                                f.into_iter().find(|x| x.name == "f1_").map(|x| x.v)
                            }
                            _ => None,
                        },
                        (Some(v), "array") => match v.t {
                            AT::Array(x) => {
                                path = format!("{}.list", path);
                                if next_is_array && is_wrapper(&x) {
                                    match x.t {
                                        AT::Record(_, mut f) => Some(f.pop().unwrap().v),
                                        _ => None,
                                    }
                                } else {
                                    Some(*x)
                                }
                            }
                            _ => None,
                        },
                        (Some(v), _) => match v.t {
                            AT::Map(x) => {
                                path = format!("{}.value", path);
                                Some(*x)
                            }
                            _ => None,
                        },
                    };
                }
                match (alone, cur) {
                    (Some(x), Some(y)) => {
                        let mut p = norm_av(&x, "root");
                        let mut q = norm_av(&y, &path);
                        p.nullable = false;
                        q.nullable = false;
                        if p != q {
                            return Verdict::Bad("Avro-differs".into(), format!("embedded in {:?}: {:?} becomes {:?}", chosen, p, q));
                        }
                        st.inc("avro_embeddings_compared");
                    }
                    (None, None) => {}
                    (x, _) => {
                        if a.is_err() && b.is_err() {
                            continue;
                        }
                        return Verdict::Bad("Avro-presence".into(), format!("embedded in {:?}: {} alone, {} when embedded", chosen, if x.is_some() { "present" } else { "absent" }, show(&b)));
                    }
                }
            }
            Target::Bq => {
                // find the innermost array directly around a map: known finding
                let mut inner_map = kind_is_map;
                let mut skip = false;
                for h in chain.iter() {
                    match h.as_str() {
                        "array" => {
                            if inner_map {
                                skip = true;
                            }
                            inner_map = false;
                        }
                        "map" | "pattern" => inner_map = true,
                        "union" => {}
                        _ => inner_map = false,
                    }
                }
                if skip {
                    continue;
                }
                let alone = a.as_ref().ok().and_then(|v| read_bq(v).0);
                let big_cols = b.as_ref().ok().and_then(|v| read_bq(v).0);
                if b.is_ok() && big_cols.is_none() {
                    return Verdict::Skip;
                }
                if a.is_err() && ctx.res == Res::Panic {
                    if b.is_ok() {
                        return Verdict::Bad("Bq-refusal".into(), "refused alone, accepted when embedded".into());
                    }
                    continue;
                }
                if b.is_err() && ctx.res != Res::Drop && a.is_ok() {
                    return Verdict::Bad("Bq-refusal".into(), format!("accepted alone, refused when embedded: {}", show(&b)));
                }
                // view the whole as one column again
                let rec = |cols: Vec<Col>, rootrec: bool| -> Col {
                    if rootrec {
                        Col { name: "root".into(), ty: "RECORD".into(), mode: "REQUIRED".into(), desc: None, fields: cols, desc_free: false, cast: false, tuple: false }
                    } else {
                        cols.into_iter().next().unwrap()
                    }
                };
                let alone_rec = alone.as_ref().map(|c| !(c.len() == 1 && c[0].name == "root") || model_root_record(s, &ctx)).unwrap_or(false);
                let alone = alone.map(|c| rec(c, alone_rec));
                let first_struct = chosen.iter().map(|(h, _)| h.as_str()).find(|h| *h != "union");
                let big_rec = match first_struct {
                    Some("prop") | Some("tuple") => true,
                    None => alone_rec,
                    _ => false,
                };
                let mut cur = big_cols.map(|c| rec(c, big_rec));
                // the container whose element is next, to know about `list`
                let structural: Vec<&(String, String)> = chosen.iter().filter(|(h, _)| h != "union").collect();
                for (i, (h, name)) in structural.iter().map(|x| (&x.0, &x.1)).enumerate() {
                    let next_is_array = match structural.get(i + 1) {
                        Some((h, _)) => h == "array",
                        None => n.is_array(),
                    };
                    cur = match (cur, h.as_str()) {
                        (None, _) => None,
                        (Some(v), "prop") => {
                            let want = names::map_name(name, ctx.nc).unwrap();
                            v.fields.into_iter().find(|x| x.name == want)
                        }
                        (Some(v), "tuple") => v.fields.into_iter().find(|x| x.name == "f1_"),
                        (Some(v), "array") => {
                            if next_is_array {
                                v.fields.into_iter().find(|x| x.name == "list")
                            } else {
                                let mut w = v;
                                w.mode = "REQUIRED".into();
                                Some(w)
                            }
                        }
                        (Some(v), _) => v.fields.into_iter().find(|x| x.name == "value"),
                    };
                }
                match (alone, cur) {
                    (Some(x), Some(y)) => {
                        let clean = |c: &Col| {
                            let mut d = c.clone();
                            d.name = String::new();
                            d.desc = None;
                            if d.mode != "REPEATED" {
                                d.mode = String::new();
                            }
                            d
                        };
                        let (p, q) = (clean(&x), clean(&y));
                        if p != q {
                            return Verdict::Bad("Bq-differs".into(), format!("embedded in {:?}: {} becomes {}", chosen, show(&a), show(&b)));
                        }
                        st.inc("bigquery_embeddings_compared");
                    }
                    (None, None) => {}
                    (x, _) => {
                        if a.is_err() && b.is_err() {
                            continue;
                        }
                        return Verdict::Bad("Bq-presence".into(), format!("embedded in {:?}: {} alone, {} when embedded", chosen, if x.is_some() { "present" } else { "absent" }, show(&b)));
                    }
                }
            }
        }
    }
    Verdict::Held(true)
}
/// does the root collapse to a record with columns of its own?
fn model_root_record(s: &Value, ctx: &Ctx) -> bool {
    match model::expect(s, ctx, Target::Bq).out {
        model::Expect::Out(v) => matches!(v.t, model::T::Record(..)),
        _ => false,
    }
}

// --- C24 -------------------------------------------------------------------
pub fn c24_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.p_desc = 0.1;
    p.p_extra = 0.0;
    p.nodes = *r.pick(&[1, 5, 15, 40]);
    p.w_tuple = 2;
    let ctx = Ctx::random(r);
    let s = gen::schema(r, &p);
    let mut c = case(s, &ctx);
    c["pseed"] = json!(r.next() >> 12);
    c
}
fn add_noise(s: &Value, seed: u64, ctx: &Ctx, st: &mut Stats) -> Value {
    let mut r = Rng::new(seed);
    let mut v = s.clone();
    let pos = positions(s, true);
    let k = r.range(1, 4);
    for _ in 0..k {
        let p = r.pick(&pos).clone();
        let m = match get_mut(&mut v, &p).and_then(|x| x.as_object_mut()) {
            Some(m) => m,
            None => continue,
        };
        let ty = sutil::types_of(m);
        let is_arr = ty.iter().any(|t| t == "array");
        let is_obj = ty.iter().any(|t| t == "object");
        let tuple = m.get("items").map(|i| i.is_array()).unwrap_or(false);
        match r.below(12) {
            0..=5 => {
                if gen::add_inert(&mut r, m) {
                    st.inc("unknown_keywords_added");
                }
            }
            6 if is_arr && !tuple => {
                let key = *r.pick(&["minItems", "maxItems", "additionalItems"]);
                if !m.contains_key(key) {
                    let val = if key == "additionalItems" { if r.coin() { json!(r.coin()) } else { Value::Object(gen::atom(&mut r)) } } else { json!(r.below(5)) };
                    m.insert(key.into(), val);
                    st.inc("arity_keywords_on_plain_arrays");
                }
            }
            7 if !is_arr => {
                if !m.contains_key("items") {
                    let val = if r.coin() { Value::Object(gen::atom(&mut r)) } else { json!([{"type": "string"}]) };
                    m.insert("items".into(), val);
                    if r.coin() {
                        m.insert("minItems".into(), json!(r.below(4)));
                    }
                    st.inc("items_on_non_arrays");
                }
            }
            8 if !is_obj => {
                for key in ["properties", "required", "additionalProperties", "patternProperties", "oneOf"] {
                    if !m.contains_key(key) && r.coin() {
                        let val = match key {
                            "properties" | "patternProperties" => json!({"a": {"type": "integer"}, "b-c": {}}),
                            "required" => json!(["a", "q"]),
                            "oneOf" => json!([{"type": "string"}, {"type": "null"}]),
                            _ => json!({"type": "string"}),
                        };
                        m.insert(key.into(), val);
                        st.inc("object_keywords_on_non_objects");
                    }
                }
            }
            9 | 10 if is_obj => {
                // a required entry that names no property
                let props: Vec<String> = m.get("properties").and_then(|p| p.as_object()).map(|p| p.keys().cloned().collect()).unwrap_or_default();
                let norm: Vec<Option<String>> = props.iter().map(|k| names::column_nc(k)).collect();
                let cand = gen::random_name(&mut r, 2);
                if !props.contains(&cand) && (names::column_nc(&cand).is_none() || !norm.contains(&names::column_nc(&cand))) {
                    let e = m.entry("required").or_insert(json!([]));
                    if let Some(l) = e.as_array_mut() {
                        l.push(json!(cand));
                        st.inc("required_entries_naming_nothing");
                    }
                }
            }
            _ => {
                if !m.contains_key("allOf") {
                    m.insert("allOf".into(), json!([{"type": "string", "title": "x"}, {"properties": {"zz": {}}}]));
                    st.inc("allOf_added");
                }
            }
        }
    }
    let _ = ctx;
    v
}
pub fn c24_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut tmp = Stats::default();
    let v = add_noise(s, c["pseed"].as_u64().unwrap_or(1), &ctx, &mut tmp);
    if &v == s {
        return Verdict::Skip;
    }
    if elaborate(s, &ctx).1.collision {
        return Verdict::Skip;
    }
    for t in TARGETS {
        let (a, b) = (conv(t, s, &ctx), conv(t, &v, &ctx));
        if !same(&a, &b) {
            return Verdict::Bad(format!("{:?}-differs", t), format!("{:?}: {} becomes {} for {}", t, show(&a), show(&b), short(&v)));
        }
    }
    st.merge(&tmp);
    Verdict::Held(true)
}

// --- C27 -------------------------------------------------------------------
pub fn c27_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.collisions = r.coin();
    p.nodes = *r.pick(&[1, 5, 15, 40]);
    p.w_json = 3;
    p.w_null = 2;
    p.w_tuple = 2;
    let ctx = Ctx::random(r);
    let mut s = gen::schema(r, &p);
    let pos = positions(&s, ctx.ts);
    let q = r.pick(&pos).clone();
    let kind = *r.pick(&[
        "type-name", "type-name", "list-name", "no-items", "no-items", "empty-oneof", "empty-list", "properties", "required", "required-item",
        "sub-bool", "sub-list", "items-shape", "oneof-shape", "title", "description", "addl", "pattern-shape", "oneof-item", "min", "list-mixed", "format", "tuple-item",
        "type-shape", "type-shape", "format-map",
    ]);
    {
        let m = get_mut(&mut s, &q).unwrap().as_object_mut().unwrap();
        let junk = |r: &mut Rng| r.pick(&[json!(5), json!("x"), json!(true), json!([1]), json!(1.5)]).clone();
        match kind {
            "type-name" => {
                m.insert("type".into(), json!(*r.pick(&["str", "int", "String", "", "any", "float", "Object", "nil", "json", "union", "map", "datetime", "bool", "integer "])));
            }
            "list-name" => {
                m.insert("type".into(), json!(["string", *r.pick(&["str", "any", "", "INTEGER"])]));
            }
            "list-mixed" => {
                let odd = r.pick(&[json!(1), json!(2), json!(null), json!(true), json!(["string"]), json!({"integer": null}), json!({"string": {}}), json!({})]).clone();
                let mut l = vec![odd];
                if r.chance(0.7) {
                    l.insert(r.below(2), json!("string"));
                }
                m.insert("type".into(), Value::Array(l));
            }
            "type-shape" => {
                let t = r.pick(&[json!(5), json!(0), json!(1.5), json!(true), json!(false), json!({}), json!({"type": "string"}), json!({"integer": null}), json!({"object": null})]).clone();
                m.insert("type".into(), t);
            }
            "format-map" => {
                let f = *r.pick(&["date-time", "bytes", "json", "uri"]);
                m.insert("format".into(), json!({f: null}));
            }
            "no-items" => {
                m.remove("items");
                m.insert("type".into(), if r.chance(0.7) { json!("array") } else { json!(["array", "null"]) });
            }
            "empty-oneof" => {
                for k in ["type", "properties", "additionalProperties", "patternProperties"] {
                    m.remove(k);
                }
                m.insert("oneOf".into(), json!([]));
            }
            "empty-list" => {
                m.insert("type".into(), json!([]));
            }
            "properties" => {
                m.insert("properties".into(), junk(r));
            }
            "required" => {
                m.insert("required".into(), r.pick(&[json!("a"), json!(true), json!({"a": 1}), json!(3)]).clone());
            }
            "required-item" => {
                m.insert("required".into(), r.pick(&[json!([1]), json!(["a", null]), json!([["a"]]), json!([true])]).clone());
            }
            "sub-bool" => {
                m.insert("properties".into(), json!({"a": r.pick(&[json!(true), json!(false), json!(null), json!("string"), json!(5)]).clone()}));
            }
            "sub-list" => {
                m.insert("properties".into(), json!({"a": {"type": "integer"}, "b": [{"type": "string"}]}));
            }
            "items-shape" => {
                m.insert("items".into(), r.pick(&[json!(true), json!(5), json!("string")]).clone());
            }
            "tuple-item" => {
                m.insert("items".into(), r.pick(&[json!([{"type": "string"}, 5]), json!([true]), json!([["a"]])]).clone());
            }
            "oneof-shape" => {
                m.insert("oneOf".into(), r.pick(&[json!({"type": "string"}), json!(5), json!("x")]).clone());
            }
            "oneof-item" => {
                m.insert("oneOf".into(), r.pick(&[json!([{"type": "string"}, true]), json!([null]), json!(["string"])]).clone());
            }
            "title" => {
                m.insert("title".into(), r.pick(&[json!(5), json!(["x"]), json!(true), json!({"a": 1})]).clone());
            }
            "description" => {
                m.insert("description".into(), r.pick(&[json!(5), json!(["x"]), json!(true)]).clone());
            }
            "addl" => {
                m.insert("additionalProperties".into(), r.pick(&[json!(5), json!(["x"]), json!("string")]).clone());
            }
            "pattern-shape" => {
                m.insert("patternProperties".into(), r.pick(&[json!(5), json!(["x"]), json!({"a": true}), json!("b")]).clone());
            }
            "min" => {
                m.insert(r.pick(&["minItems", "maxItems"]).to_string(), r.pick(&[json!(-1), json!("2"), json!([1]), json!(1.5)]).clone());
            }
            _ => {
                m.insert("format".into(), r.pick(&[json!(5), json!(["date-time"]), json!(true)]).clone());
            }
        }
    }
    let mut c = case(s, &ctx);
    c["defect"] = json!({"kind": kind, "at": q});
    c
}
/// the parts that have no translation of their own but decide about refusal
fn still_broken(s: &Value, ctx: &Ctx) -> bool {
    matches!(elaborate(s, ctx).0, Err(model::Refusal::Malformed(_)))
}
pub fn c27_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if !s.is_object() || !still_broken(s, &ctx) {
        return Verdict::Skip;
    }
    for t in TARGETS {
        for res in [Res::Cast, Res::Drop, Res::Panic] {
            let o = conv(t, s, &ctx.with_res(res));
            st.inc("conversions_that_must_be_refused");
            if let Ok(v) = o {
                return Verdict::Bad(format!("{:?}-accepted", t), format!("{:?} accepts a malformed schema under {:?} (defect {}): {}", t, res, c["defect"], short(&v)));
            }
        }
    }
    st.inc(&format!("defect_{}", c["defect"]["kind"].as_str().unwrap_or("?")));
    Verdict::Held(true)
}

// --- C31 -------------------------------------------------------------------
pub fn c31_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.p_desc = 0.1;
    p.nodes = *r.pick(&[4, 12, 35]);
    p.w_object = 14;
    p.w_json = 4;
    p.w_oneof = 2;
    p.w_null = 2;
    let mut ctx = Ctx::random(r);
    ctx.re = None; // a JSON column cannot become another one
    ctx.res = if r.chance(0.6) { Res::Drop } else { Res::Cast };
    let s = if r.chance(0.7) { gen::object_root(r, &p) } else { gen::schema(r, &p) };
    let mut q = Profile::base();
    q.nodes = 8;
    q.depth = 3;
    q.names = 0;
    let add = gen::schema(r, &q);
    let mut c = case(s, &ctx);
    c["add"] = add;
    c["op"] = json!(*r.pick(&["new", "refine"]));
    c["pseed"] = json!(r.next() >> 12);
    c
}
/// Not inside alternatives; the value schemas of a map that has several are
/// alternatives, too.
fn outside_union(s: &Value, p: &[String]) -> bool {
    // a list of several types is a union too
    let several = |i: usize| {
        let m = get(s, &p[..i]).and_then(|m| m.as_object());
        m.map(|m| sutil::types_of(m).iter().filter(|t| *t != "null").count() > 1).unwrap_or(false)
    };
    !(0..=p.len()).any(several) && !p.iter().enumerate().any(|(i, k)| {
        k == "oneOf"
            || k == "patternProperties"
            || (k == "additionalProperties" && get(s, &p[..i]).map(|m| m.get("patternProperties").is_some()).unwrap_or(true))
    })
}
fn sub_record_av(old: &AV, new: &AV, path: &str, n: &mut u64) -> Result<(), String> {
    *n += 1;
    if old.nullable != new.nullable {
        return Err(format!("{}: nullability changed", path));
    }
    match (&old.t, &new.t) {
        (AT::Array(x), AT::Array(y)) => sub_record_av(x, y, &format!("{}[]", path), n),
        (AT::Map(x), AT::Map(y)) => sub_record_av(x, y, &format!("{}{{}}", path), n),
        (AT::Record(a, x), AT::Record(b, y)) => {
            if a != b {
                return Err(format!("{}: record name {} became {}", path, a, b));
            }
            for f in x {
                let p = format!("{}.{}", path, f.name);
                match y.iter().find(|g| g.name == f.name) {
                    None => return Err(format!("{} disappeared", p)),
                    Some(g) => {
                        if f.default != g.default {
                            return Err(format!("{}: default changed", p));
                        }
                        sub_record_av(&f.v, &g.v, &p, n)?
                    }
                }
            }
            Ok(())
        }
        (x, y) if x == y => Ok(()),
        _ => Err(format!("{}: type changed", path)),
    }
}
fn sub_record_bq(old: &[Col], new: &[Col], path: &str, n: &mut u64) -> Result<(), String> {
    for c in old {
        *n += 1;
        let p = format!("{}.{}", path, c.name);
        match new.iter().find(|d| d.name == c.name) {
            None => return Err(format!("{} disappeared", p)),
            Some(d) => {
                if (&c.ty, &c.mode, &c.desc) != (&d.ty, &d.mode, &d.desc) {
                    return Err(format!("{}: {} {} became {} {}", p, c.mode, c.ty, d.mode, d.ty));
                }
                sub_record_bq(&c.fields, &d.fields, &p, n)?
            }
        }
    }
    Ok(())
}
pub fn c31_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s0, ctx) = sc(c);
    if ctx.res == Res::Panic || s0.get("mozPipelineMetadata").is_some() {
        return Verdict::Skip;
    }
    let mut r = Rng::new(c["pseed"].as_u64().unwrap_or(1));
    let op = c["op"].as_str().unwrap_or("new");
    let (n, facts) = elaborate(s0, &ctx);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    let add = &c["add"];
    let (an, af) = elaborate(add, &ctx);
    if an.is_err() || af.collision {
        return Verdict::Skip;
    }
    // record positions outside any union
    let mut cand: Vec<sutil::Path> = positions(s0, ctx.ts)
        .into_iter()
        .filter(|p| outside_union(s0, p) && get(s0, p).map(|x| sutil::types_of(x.as_object().unwrap()) == ["object"] && x["properties"].is_object()).unwrap_or(false))
        .collect();
    // tuples drop as a whole in BigQuery, a refinement inside may bring them in
    cand.retain(|p| get(s0, p).is_some());
    if cand.is_empty() {
        return Verdict::Skip;
    }
    let p = r.pick(&cand).clone();
    let mut s = s0.clone();
    let m = get_mut(&mut s, &p).unwrap()["properties"].as_object_mut().unwrap();
    // at least one representable property, and one to refine
    m.insert("anchor".into(), json!({"type": "integer"}));
    let mut s2 = s.clone();
    if op == "new" {
        let m2 = get_mut(&mut s2, &p).unwrap()["properties"].as_object_mut().unwrap();
        let siblings: Vec<(String, Value)> = m2.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let mut added = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
            let (k, v) = r.pick(&siblings).clone();
            let name = match r.below(8) {
                0 => "newcol".to_string(),
                1 | 2 => gen::recase(&mut r, &k),
                3 => format!("{}{}", k, r.pick(&["_", "1", "s", "_name", "X", ".a"])),
                4 => format!("{}{}", r.pick(&["_", "a", "A", "is_", "0"]), k),
                5 => k.chars().skip(1).collect(),
                6 => (*r.pick(&["list", "key", "value", "f0_", "root", "name", "type", "items", "properties", "required", "A", "zz"])).to_string(),
                _ => gen::random_name(&mut r, 1),
            };
            if m2.contains_key(&name) {
                continue;
            }
            // also a second column of exactly the same schema
            m2.insert(name.clone(), if r.chance(0.25) { v } else { add.clone() });
            added.push(name);
        }
        if added.is_empty() {
            return Verdict::Skip;
        }
        if r.chance(0.7) {
            if let Some(Value::Array(l)) = get_mut(&mut s2, &p).unwrap().get_mut("required") {
                l.retain(|x| !added.iter().any(|y| x == y));
            }
        }
    } else {
        let un = [json!({}), json!({"type": "object"}), json!({"type": ["string", "integer"]}), json!({"oneOf": [{"type": "string"}, {"type": "boolean"}]}),
            json!({"type": "array", "items": {}}), json!({"type": "object", "additionalProperties": {"type": "object"}}), json!({"type": "object", "properties": {"q": {}}})];
        let u = r.pick(&un).clone();
        get_mut(&mut s, &p).unwrap()["properties"]["refined"] = u;
        get_mut(&mut s2, &p).unwrap()["properties"]["refined"] = add.clone();
    }
    if elaborate(&s2, &ctx).1.collision {
        return Verdict::Skip;
    }
    let ctx = if op == "refine" { ctx.with_res(Res::Drop) } else { ctx };
    let mut ctx = ctx;
    if op == "refine" {
        // a map without value is a column that the refinement would extend
        ctx.mw = false;
    }
    let mut k = 0u64;
    for t in TARGETS {
        let (a, b) = (conv(t, &s, &ctx), conv(t, &s2, &ctx));
        let old = match &a {
            Ok(v) => v,
            Err(_) => continue,
        };
        let new = match &b {
            Ok(v) => v,
            Err(e) => return Verdict::Bad(format!("{:?}-lost", t), format!("{:?}: the extended schema is refused: {}", t, e)),
        };
        let res = match t {
            Target::Avro => match (read_avro(old).0, read_avro(new).0) {
                (Some(x), Some(y)) => sub_record_av(&x, &y, "$", &mut k),
                _ => Ok(()),
            },
            Target::Bq => match (read_bq(old).0, read_bq(new).0) {
                (Some(x), Some(y)) => sub_record_bq(&x, &y, "$", &mut k),
                _ => Ok(()),
            },
        };
        if let Err(e) = res {
            return Verdict::Bad(format!("{:?}-changed", t), format!("{:?}: {} ({} at /{})", t, e, op, p.join("/")));
        }
        if old != new {
            st.inc("extensions_that_added_columns");
        }
    }
    st.add("existing_columns_compared", k);
    Verdict::Held(k > 1)
}
