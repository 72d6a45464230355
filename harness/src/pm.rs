//! Properties decided by comparing observed conversions with the reference
//! model; each one only looks at its own aspects.
use crate::common::*;
use crate::gen::{self, Profile};
use crate::model::{expect, Expect};
use crate::names;
use crate::rng::Rng;
use crate::sutil;
use crate::view::*;
use serde_json::{json, Value};

/// A case without colliding column names: names that only differ before case
/// normalisation stay, and it is switched off.
pub fn case(schema: Value, ctx: &Ctx) -> Value {
    let mut ctx = ctx.clone();
    if ctx.nc && crate::model::elaborate(&schema, &ctx).1.collision {
        ctx.nc = false;
    }
    case_raw(schema, &ctx)
}
pub fn case_raw(schema: Value, ctx: &Ctx) -> Value {
    json!({"schema": schema, "ctx": ctx.to_json()})
}
pub fn sc(c: &Value) -> (&Value, Ctx) {
    (&c["schema"], Ctx::from_json(&c["ctx"]))
}

/// Observe both targets, keep the diffs a property cares about.
fn judge_aspects(
    schema: &Value,
    ctx: &Ctx,
    st: &mut Stats,
    keep: &dyn Fn(&Diff) -> bool,
    nontrivial: &dyn Fn(&Observed) -> bool,
) -> Verdict {
    let mut nt = false;
    for t in TARGETS {
        let o = observe(schema, ctx, t);
        st.inc(match (&o.ex.out, &o.out) {
            (_, Ok(_)) => "outputs_checked",
            _ => "refusals_checked",
        });
        if let Some(d) = o.diffs.iter().find(|d| keep(d)) {
            return Verdict::Bad(d.sig(), d.text());
        }
        nt |= nontrivial(&o);
    }
    Verdict::Held(nt)
}

fn supported(schema: &Value, ctx: &Ctx) -> bool {
    crate::model::elaborate(schema, ctx).0.is_ok()
}

// --- C03 -------------------------------------------------------------------
pub fn c03_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = 2;
    p.collisions = r.coin();
    p.p_desc = 0.15;
    p.p_extra = 0.2;
    p.nodes = *r.pick(&[3, 10, 40, 40, 120]);
    p.depth = *r.pick(&[2, 4, 6, 9]);
    p.w_null = 2;
    p.w_json = 3;
    p.w_oneof = *r.pick(&[4, 12]);
    if r.chance(0.05) {
        p.max_fields = 40;
        p.nodes = 400;
    }
    let mut ctx = Ctx::random_cast(r);
    if r.chance(0.2) {
        ctx.re = Some(r.pick(&["", ".*", "a", "a\\.b", "foo|bar", "list"]).to_string());
    }
    case_raw(gen::schema(r, &p), &ctx)
}
pub fn c03_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if ctx.res != Res::Cast || !supported(s, &ctx) {
        return Verdict::Skip;
    }
    for t in TARGETS {
        match conv(t, s, &ctx) {
            Err(e) => return Verdict::Bad(format!("{:?}-refused", t), format!("{:?} conversion under cast failed: {}", t, e)),
            Ok(v) => {
                let ok = match t {
                    Target::Avro => read_avro(&v).0.is_some(),
                    Target::Bq => v.as_array().map(|l| !l.is_empty()).unwrap_or(false),
                };
                if !ok {
                    return Verdict::Bad(format!("{:?}-unusable", t), format!("{:?} output is not a schema: {}", t, short(&v)));
                }
                st.inc("conversions_succeeded");
            }
        }
    }
    Verdict::Held(sutil::positions(s, true).len() > 1)
}

// --- C05 -------------------------------------------------------------------
pub fn c05_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[1, 1, 2]);
    p.p_desc = 0.05;
    // half of the cases have nothing to resolve
    if r.chance(0.6) {
        p.w_json = 0;
        p.w_null = if r.coin() { 0 } else { 1 };
        p.loose = false;
    }
    p.nodes = *r.pick(&[2, 6, 15, 40]);
    let mut ctx = Ctx::random_cast(r);
    ctx.ts |= r.coin();
    if r.chance(0.15) {
        ctx.re = Some(r.pick(&["", "a", "b", "foo", "__unknown__", "a.value|b.list"]).to_string());
    }
    case(gen::schema(r, &p), &ctx)
}
pub fn c05_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if !supported(s, &ctx) {
        return Verdict::Skip;
    }
    let mut nt = false;
    for t in TARGETS {
        let ex = expect(s, &ctx.with_res(Res::Cast), t);
        let cast = conv(t, s, &ctx.with_res(Res::Cast));
        let drop = conv(t, s, &ctx.with_res(Res::Drop));
        let panic = conv(t, s, &ctx.with_res(Res::Panic));
        match &panic {
            Ok(p) => {
                st.inc("panic_succeeded");
                nt = true;
                if cast.as_ref().ok() != Some(p) {
                    return Verdict::Bad(format!("{:?}-cast-differs", t), format!("{:?}: panic succeeds with {} but cast gives {:?}", t, short(p), cast.as_ref().map(short)));
                }
                if drop.as_ref().ok() != Some(p) {
                    return Verdict::Bad(format!("{:?}-drop-differs", t), format!("{:?}: panic succeeds with {} but drop gives {:?}", t, short(p), drop.as_ref().map(short)));
                }
                if !ex.events.is_empty() {
                    return Verdict::Bad(format!("{:?}-panic-missed", t), format!("{:?}: panic succeeds although {:?} cannot be represented", t, ex.events));
                }
            }
            Err(e) => {
                st.inc("panic_refused");
                if ex.events.is_empty() {
                    return Verdict::Bad(format!("{:?}-panic-spurious", t), format!("{:?}: panic refuses although nothing needs resolving: {}", t, e));
                }
                if ex.events.len() == 1 {
                    st.inc("panic_refused_for_one_position");
                    nt = true;
                }
            }
        }
    }
    Verdict::Held(nt)
}

// --- C06 -------------------------------------------------------------------
pub fn c06_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.p_desc = 0.1;
    p.w_json = *r.pick(&[2, 5, 8]);
    p.w_null = *r.pick(&[1, 3]);
    p.w_map = 5;
    p.w_tuple = 4;
    p.nodes = *r.pick(&[4, 12, 40]);
    let mut ctx = Ctx::random(r).with_res(Res::Drop);
    ctx.ts |= r.coin();
    case(gen::schema(r, &p), &ctx)
}

fn sub_av(d: &AV, c: &AV, path: &str) -> Result<(), String> {
    if d.nullable != c.nullable {
        return Err(format!("{}: nullability differs between drop and cast", path));
    }
    match (&d.t, &c.t) {
        (AT::Null, AT::Null) => Ok(()),
        (AT::Prim(x), AT::Prim(y)) if x == y => Ok(()),
        (AT::Array(x), AT::Array(y)) => sub_av(x, y, &format!("{}[]", path)),
        (AT::Map(x), AT::Map(y)) => sub_av(x, y, &format!("{}{{}}", path)),
        (AT::Record(n, x), AT::Record(m, y)) => {
            if n != m {
                return Err(format!("{}: record name {} versus {}", path, n, m));
            }
            for f in x {
                let p = format!("{}.{}", path, f.name);
                match y.iter().find(|g| g.name == f.name) {
                    None => return Err(format!("{}: only present under drop", p)),
                    Some(g) => {
                        if f.default != g.default {
                            return Err(format!("{}: default differs", p));
                        }
                        sub_av(&f.v, &g.v, &p)?
                    }
                }
            }
            Ok(())
        }
        _ => Err(format!("{}: type differs between drop and cast", path)),
    }
}
fn sub_cols(d: &[Col], c: &[Col], path: &str) -> Result<(), String> {
    for f in d {
        let p = format!("{}.{}", path, f.name);
        match c.iter().find(|g| g.name == f.name) {
            None => return Err(format!("{}: only present under drop", p)),
            Some(g) => {
                if f.ty != g.ty || f.mode != g.mode || f.desc != g.desc {
                    return Err(format!("{}: {} {} versus {} {} under cast", p, f.ty, f.mode, g.ty, g.mode));
                }
                sub_cols(&f.fields, &g.fields, &p)?
            }
        }
    }
    Ok(())
}

pub fn c06_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let dctx = ctx.with_res(Res::Drop);
    if !supported(s, &dctx) {
        return Verdict::Skip;
    }
    let mut nt = false;
    for t in TARGETS {
        let o = observe(s, &dctx, t);
        let keep = [As::Missing, As::Extra, As::Type, As::Shape, As::Refused, As::Accepted];
        if let Some(d) = o.diffs.iter().find(|d| keep.contains(&d.a)) {
            return Verdict::Bad(d.sig(), d.text());
        }
        let cast = conv(t, s, &ctx.with_res(Res::Cast));
        if let (Ok(d), Ok(c)) = (&o.out, &cast) {
            let res = match t {
                Target::Avro => match (read_avro(d).0, read_avro(c).0) {
                    (Some(a), Some(b)) => sub_av(&a, &b, ""),
                    _ => Ok(()),
                },
                Target::Bq => match (read_bq(d).0, read_bq(c).0) {
                    (Some(a), Some(b)) => sub_cols(&a, &b, ""),
                    _ => Ok(()),
                },
            };
            if let Err(e) = res {
                return Verdict::Bad(format!("{:?}-not-subset", t), format!("{:?} {}", t, e));
            }
            st.inc("drop_outputs_compared_with_cast");
            if d != c {
                st.inc("outputs_where_something_was_dropped");
                nt = true;
            }
        } else if o.out.is_err() {
            st.inc("nothing_left_refused");
            nt = true;
        }
    }
    Verdict::Held(nt)
}

// --- C07 -------------------------------------------------------------------
pub fn c07_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = 0;
    p.p_desc = 0.05;
    p.nodes = *r.pick(&[1, 3, 8, 25]);
    p.depth = *r.pick(&[1, 3, 6]);
    p.w_atom = 14;
    p.w_json = *r.pick(&[0, 2, 4]);
    p.w_oneof = *r.pick(&[1, 6]);
    let mut ctx = Ctx::random(r);
    if r.coin() {
        ctx.res = Res::Cast;
    }
    if r.chance(0.1) {
        ctx.re = Some(r.pick(&["zzz", "a\\b"]).to_string());
    }
    case(gen::schema(r, &p), &ctx)
}
pub fn c07_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if !supported(s, &ctx) {
        return Verdict::Skip;
    }
    judge_aspects(s, &ctx, st, &|d| d.a == As::Type || (d.a == As::Shape && d.cast), &|o| o.out.is_ok())
}

// --- C08 -------------------------------------------------------------------
pub fn c08_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.nodes = *r.pick(&[4, 12, 40]);
    p.w_oneof = 6;
    p.w_list = 5;
    p.w_null = 2;
    p.w_tuple = 3;
    p.p_required = *r.pick(&[0.3, 0.7, 1.0]);
    let mut ctx = Ctx::random(r);
    ctx.fnull = false;
    ctx.ts |= r.chance(0.5);
    case(gen::schema(r, &p), &ctx)
}
pub fn c08_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if ctx.fnull || !supported(s, &ctx) {
        return Verdict::Skip;
    }
    if crate::model::elaborate(s, &ctx).1.collision {
        return Verdict::Skip;
    }
    judge_aspects(s, &ctx, st, &|d| matches!(d.a, As::Null | As::Default), &|o| {
        o.out.as_ref().map(|v| v.to_string().contains("name")).unwrap_or(false)
    })
}

// --- C10 -------------------------------------------------------------------
pub fn c10_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[1, 2, 2, 2]);
    p.nodes = *r.pick(&[4, 12, 30]);
    p.w_oneof = if r.chance(0.3) { 4 } else { 0 };
    p.w_list = 1;
    p.w_json = 1;
    p.w_null = 1;
    p.w_tuple = 1;
    p.w_object = 12;
    p.max_fields = 8;
    p.p_required = 0.6;
    let mut ctx = Ctx::random_cast(r);
    ctx.nc = false;
    case(if r.chance(0.8) { gen::object_root(r, &p) } else { gen::schema(r, &p) }, &ctx)
}
pub fn c10_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    if ctx.nc || !supported(s, &ctx) {
        return Verdict::Skip;
    }
    let (_, facts) = crate::model::elaborate(s, &ctx);
    st.add("names_renamed", facts.renamed.len() as u64);
    st.add("names_omitted", facts.omitted.len() as u64);
    if facts.collision {
        // only distinctness and validity of names are prescribed then
        for t in TARGETS {
            if let Ok(v) = conv(t, s, &ctx) {
                let errs = match t {
                    Target::Avro => read_avro(&v).1,
                    Target::Bq => read_bq(&v).1,
                };
                if let Some(e) = errs.iter().find(|e| e.contains("name")) {
                    return Verdict::Bad(format!("{:?}-name", t), e.clone());
                }
            }
        }
        st.inc("schemas_with_colliding_names");
        return Verdict::Held(true);
    }
    let nt = !facts.renamed.is_empty() || !facts.omitted.is_empty();
    judge_aspects(
        s,
        &ctx,
        st,
        &|d| {
            matches!(d.a, As::Missing | As::Extra)
                || (matches!(d.a, As::Null | As::Default) && facts.unions == 0)
                || (d.a == As::Invalid && d.act.contains("name"))
        },
        &|_| nt,
    )
}

// --- C14 -------------------------------------------------------------------
pub fn c14_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 0, 1]);
    p.nodes = *r.pick(&[8, 20, 50]);
    p.w_oneof = 14;
    p.w_map = 4;
    p.w_json = if r.chance(0.6) { 0 } else { 2 };
    p.w_tuple = 1;
    p.p_required = *r.pick(&[0.5, 0.9, 1.0]);
    if r.chance(0.7) {
        p.loose = false;
    }
    let ctx = Ctx::random(r);
    let s = if r.chance(0.5) {
        gen::one_of_root(r, &p)
    } else if r.chance(0.5) {
        gen::kind_root(r, &p, 3)
    } else {
        gen::schema(r, &p)
    };
    case(s, &ctx)
}
pub fn c14_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if n.is_err() || facts.collision || facts.unions == 0 {
        return Verdict::Skip;
    }
    st.add("unions_observed", facts.unions as u64);
    st.add("merges_of_two_or_more_alternatives", facts.merges as u64);
    judge_aspects(
        s,
        &ctx,
        st,
        &|d| !matches!(d.a, As::Desc | As::FullName | As::Order | As::Invalid),
        &|o| facts.merges > 0 && (o.out.is_ok() || !o.ex.events.is_empty()),
    )
}

// --- C15 -------------------------------------------------------------------
pub fn c15_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2, 2]);
    p.collisions = r.chance(0.2);
    p.p_desc = 0.15;
    p.nodes = *r.pick(&[4, 15, 50, 120]);
    p.depth = *r.pick(&[3, 6, 10]);
    p.w_array = 6;
    p.w_map = 5;
    p.w_tuple = 4;
    let mut ctx = Ctx::random(r);
    if r.coin() {
        ctx.res = Res::Cast;
    }
    ctx.ts |= r.coin();
    case_raw(gen::schema(r, &p), &ctx)
}
pub fn c15_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let out = match conv(Target::Avro, s, &ctx) {
        Ok(v) => v,
        Err(_) => return Verdict::Held(false),
    };
    let (av, errs) = read_avro(&out);
    if let Some(e) = errs.first() {
        return Verdict::Bad("invalid".into(), format!("{} in {}", e, short(&out)));
    }
    if av.is_none() {
        return Verdict::Bad("invalid".into(), short(&out));
    }
    st.inc("avro_schemas_validated");
    let recs = out.to_string().matches("\"record\"").count();
    st.add("records_validated", recs as u64);
    let ex = expect(s, &ctx, Target::Avro);
    if let Expect::Out(v) = &ex.out {
        if let Some(d) = cmp_avro_out(v, &out).iter().find(|d| d.a == As::FullName) {
            return Verdict::Bad(d.sig(), d.text());
        }
        st.inc("full_names_compared_with_paths");
    }
    Verdict::Held(recs > 1)
}

// --- C16 -------------------------------------------------------------------
pub fn c16_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.collisions = r.chance(0.2);
    p.p_desc = 0.25;
    p.nodes = *r.pick(&[1, 4, 15, 50]);
    p.w_array = 5;
    p.w_map = 5;
    p.w_tuple = 3;
    p.w_oneof = 7;
    let mut ctx = Ctx::random(r);
    if r.coin() {
        ctx.res = Res::Cast;
    }
    ctx.ts |= r.coin();
    if r.chance(0.1) {
        ctx.re = Some(r.pick(&["", "a", "b", "__unknown__"]).to_string());
    }
    let k = r.below(12);
    let s = if k < 9 { gen::kind_root(r, &p, k) } else { gen::schema(r, &p) };
    case_raw(s, &ctx)
}
pub fn c16_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let out = match conv(Target::Bq, s, &ctx) {
        Ok(v) => v,
        Err(_) => {
            if ctx.res == Res::Drop {
                // the other half of "a non-empty array or a refusal"
                st.inc("refused_instead_of_empty");
            }
            return Verdict::Held(false);
        }
    };
    let (cols, errs) = read_bq(&out);
    if let Some(e) = errs.first() {
        return Verdict::Bad("invalid".into(), format!("{} in {}", e, short(&out)));
    }
    let cols = match cols {
        Some(c) => c,
        None => return Verdict::Bad("invalid".into(), short(&out)),
    };
    st.inc("table_schemas_validated");
    let ex = expect(s, &ctx, Target::Bq);
    if let Expect::Out(v) = &ex.out {
        let want = lower_root(v, ctx.fnull);
        let wn: Vec<(&str, bool, bool)> = want.iter().map(|c| (c.name.as_str(), c.mode == "REPEATED", c.ty == "RECORD")).collect();
        let gn: Vec<(&str, bool, bool)> = cols.iter().map(|c| (c.name.as_str(), c.mode == "REPEATED", c.ty == "RECORD")).collect();
        let rooted = |l: &[(&str, bool, bool)]| l.len() == 1 && l[0].0 == "root";
        if rooted(&wn) != rooted(&gn) || (rooted(&wn) && wn != gn) {
            return Verdict::Bad("root".into(), format!("root columns (name, repeated, record): expected {:?}, got {:?}", wn, gn));
        }
        st.inc(if rooted(&wn) { "single_root_column" } else { "record_root" });
    }
    Verdict::Held(true)
}

// --- C19 -------------------------------------------------------------------
pub fn c19_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = 0;
    p.nodes = *r.pick(&[5, 15, 30]);
    p.w_tuple = 14;
    p.w_json = if r.chance(0.6) { 0 } else { 2 };
    p.w_null = 1;
    p.w_oneof = *r.pick(&[0, 0, 4]);
    let mut ctx = Ctx::random(r);
    ctx.ts = r.chance(0.85);
    let mut s = if r.chance(0.6) { gen::kind_root(r, &p, 5) } else { gen::schema(r, &p) };
    if r.chance(0.35) {
        // perturb the arity keywords of some tuple, possibly making it illegal
        let pos: Vec<sutil::Path> = sutil::positions(&s, true)
            .into_iter()
            .filter(|q| sutil::get(&s, q).map(|x| x["type"] == "array" && x["items"].is_array()).unwrap_or(false))
            .collect();
        if !pos.is_empty() {
            let q = r.pick(&pos).clone();
            let extra = gen::atom(r);
            if let Some(m) = sutil::get_mut(&mut s, &q).and_then(|x| x.as_object_mut()) {
                let len = m["items"].as_array().map(|l| l.len()).unwrap_or(0);
                match r.below(10) {
                    7..=9 => {
                        // all of them, independently
                        for k in ["additionalItems", "minItems", "maxItems"] {
                            m.remove(k);
                        }
                        match r.below(4) {
                            0 => {}
                            1 => {
                                m.insert("additionalItems".into(), json!(r.coin()));
                            }
                            _ => {
                                m.insert("additionalItems".into(), Value::Object(extra));
                            }
                        }
                        let n = r.below(len + 4);
                        if r.chance(0.8) {
                            m.insert("maxItems".into(), json!(n));
                        }
                        if r.chance(0.8) {
                            m.insert("minItems".into(), json!(if r.chance(0.3) { n } else { r.below(len + 5) }));
                        }
                    }
                    0 => {
                        m.remove("additionalItems");
                    }
                    1 => {
                        m.remove("maxItems");
                    }
                    2 => {
                        m.insert("maxItems".into(), json!(r.below(len + 3)));
                    }
                    3 => {
                        m.insert("additionalItems".into(), json!(true));
                    }
                    4 => {
                        m.insert("additionalItems".into(), Value::Object(extra));
                        m.insert("maxItems".into(), json!(r.below(len + 4)));
                    }
                    5 => {
                        m.insert("minItems".into(), json!(r.below(len + 3)));
                    }
                    _ => {
                        m.insert("additionalItems".into(), json!(false));
                        m.insert("maxItems".into(), json!(r.below(len + 3)));
                    }
                }
            }
        }
    }
    case(s, &ctx)
}
pub fn c19_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if matches!(n, Err(crate::model::Refusal::Malformed(_))) || facts.collision {
        return Verdict::Skip;
    }
    let has = sutil::positions(s, true)
        .iter()
        .any(|q| sutil::get(s, q).map(|x| x["type"] == "array" && x["items"].is_array()).unwrap_or(false));
    if !has {
        return Verdict::Skip;
    }
    st.inc(match (ctx.ts, n.is_ok()) {
        (false, _) => "tuple_option_off",
        (true, true) => "tuples_translated",
        (true, false) => "tuples_that_must_be_refused",
    });
    judge_aspects(
        s,
        &ctx,
        st,
        &|d| {
            d.tuple
                || matches!(d.a, As::Refused | As::Accepted)
                || (d.cast && !ctx.ts)
                || d.a == As::Shape
                || (matches!(d.a, As::Null | As::Default | As::Missing | As::Extra | As::Order)
                    && d.path.rsplit('.').next().map(|l| l.starts_with('f') && l.contains('_')).unwrap_or(false))
        },
        &|_| true,
    )
}

// --- C20 -------------------------------------------------------------------
pub fn c20_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = 0;
    p.nodes = *r.pick(&[4, 10, 25]);
    p.depth = *r.pick(&[3, 6, 12]);
    p.w_array = 12;
    p.w_map = 12;
    p.w_object = 5;
    p.w_oneof = if r.chance(0.2) { 3 } else { 0 };
    p.w_tuple = 0;
    p.w_json = *r.pick(&[0, 1, 4]);
    p.w_null = *r.pick(&[0, 1, 3]);
    p.array_map = false;
    let mut ctx = Ctx::random(r);
    ctx.mw = r.coin();
    let s = match r.below(4) {
        0 => gen::kind_root(r, &p, 3),
        1 => gen::kind_root(r, &p, 4),
        2 => gen::object_root(r, &p),
        _ => gen::schema(r, &p),
    };
    case(s, &ctx)
}
pub fn c20_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    let n = match n {
        Ok(n) => n,
        Err(_) => return Verdict::Skip,
    };
    if facts.collision || (has_array_map(&n) && c["probe"] != json!(true)) {
        return Verdict::Skip;
    }
    if has_array_map(&n) {
        // the known finding, observed on its own case only
        let names = conv(Target::Bq, s, &ctx).ok().and_then(|v| read_bq(&v).0).map(|c| c[0].fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>());
        if names.as_deref() == Some(&["key".to_string(), "value".to_string()][..]) {
            return Verdict::Bad("Bq-array-of-map".into(), "the array level is missing".into());
        }
        return Verdict::Held(true);
    }
    // the option for maps without value affects nothing but BigQuery maps that
    // lose their value under drop
    let mut other = ctx.clone();
    other.mw = !ctx.mw;
    let a1 = conv(Target::Avro, s, &ctx);
    let a2 = conv(Target::Avro, s, &other);
    if a1.as_ref().ok() != a2.as_ref().ok() {
        return Verdict::Bad("avro-mw".into(), "allow_maps_without_value changes the Avro output".into());
    }
    let containers = s.to_string().matches("\"items\"").count() + s.to_string().matches("dditionalProperties").count();
    st.add("containers_seen", containers as u64);
    judge_aspects(
        s,
        &ctx,
        st,
        &|d| {
            matches!(d.a, As::Shape | As::Refused | As::Accepted)
                || (matches!(d.a, As::Missing | As::Extra))
                || (d.a == As::Type && (d.path.ends_with(".key") || d.path.ends_with(".value") || d.path.ends_with(".list")))
        },
        &|_| containers > 0,
    )
}
pub fn has_array_map(n: &crate::model::Node) -> bool {
    use crate::model::Kind::*;
    match &n.kind {
        Array(i) => i.is_map() || has_array_map(i),
        Map(i) => has_array_map(i),
        Tuple(l) => l.iter().any(has_array_map),
        Object(f, _) => f.values().any(has_array_map),
        _ => false,
    }
}

// --- C21 -------------------------------------------------------------------
const RES: &[&str] = &[
    "", ".*", "a", "b", "foo", "a|b", "a.b", "a\\.b", "x|foo|c", "a.*", "(a|b)\\.", ".*list", ".*value", "[abc]$", "a$|b",
    "foo.bar_baz", "__unknown__", "e", ".*\\.a", "c|d|e", "(?i)A", "f0_", ".*f1_", "a$", "root", "root\\.a", "\\.a", "^a", "a|^b", "zed$|x1$", "A", "ROOT", "Foo", "A|B", "zzz|", "|a", "|", "a||b", " a", "a ", "a\n", "(zzz|)", "zzz?", "(?x) a  # x\n", "(?-u)a", "[[:word:]]+b", "\\w", "\\.", "a{0}",
];
/// a pattern made for the paths that the schema has nothing for: all of one, its
/// beginning, its end, its middle, alternatives of several
fn pattern_for(r: &mut Rng, paths: &[String]) -> String {
    let a = regex::escape(r.pick(paths));
    let b = regex::escape(r.pick(paths));
    let cut = |r: &mut Rng, s: &str| -> (String, String) {
        let n = s.chars().count();
        let mut k = r.below(n + 1);
        if s.chars().take(k).last() == Some('\\') {
            k -= 1; // not between the escape and its character
        }
        (s.chars().take(k).collect(), s.chars().skip(k).collect())
    };
    let (begin, end) = cut(r, &a);
    match r.below(22) {
        0 | 1 => a,
        16 => a.to_uppercase(),
        17 => {
            // one letter of the other case
            let at: Vec<usize> = a.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            match at.is_empty() {
                true => a,
                false => {
                    let i = *r.pick(&at);
                    let c = a[i..].chars().next().unwrap();
                    let c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                    format!("{}{}{}", &a[..i], c, &a[i + 1..])
                }
            }
        }
        2 => format!("{}$", a),
        3 => format!("{}|{}", a, b),
        4 => format!("{}|{}", end, b),
        5 => begin,
        6 => end,
        7 => format!(".*{}", end),
        8 => format!(".*{}$", end),
        9 => format!("({})|({})$", b, a),
        10 => format!("(?i){}", a.to_uppercase()),
        11 => format!("^{}|zzz|^{}$", b, a),
        18 => format!("{}|", a),
        19 => format!("zzz||{}", b),
        20 => format!(" {}", a),
        21 => format!("{} ", a),
        12 => format!("nothing|{}|other", a),
        13 => a.replace("\\.", "."),
        14 => format!("(?:{}){{1,2}}", a),
        _ => format!("{}.+", begin),
    }
}
pub fn c21_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 0, 1]);
    p.w_json = 9;
    p.w_map = 4;
    p.w_array = 5;
    p.w_null = 2;
    p.nodes = *r.pick(&[3, 10, 30]);
    let mut ctx = Ctx::random(r);
    ctx.re = if r.chance(0.8) { Some(r.pick(RES).to_string()) } else { None };
    let mut s = if r.chance(0.8) { gen::object_root(r, &p) } else { gen::schema(r, &p) };
    let mut plain = ctx.with_res(Res::Cast);
    plain.re = None;
    let mut paths = expect(&s, &plain, Target::Bq).events;
    paths.retain(|x| !x.is_empty());
    if !paths.is_empty() && ctx.re.is_some() && r.chance(0.7) {
        ctx.re = Some(pattern_for(r, &paths));
    }
    let m = s.as_object_mut().unwrap();
    match r.below(8) {
        0 | 1 | 2 => {
            let re = if !paths.is_empty() && r.chance(0.7) { pattern_for(r, &paths) } else { r.pick(RES).to_string() };
            m.insert("mozPipelineMetadata".into(), json!({"json_object_path_regex": re}));
        }
        3 => {
            m.insert("mozPipelineMetadata".into(), json!({"bq_table": "x"}));
        }
        4 => {
            m.insert("mozPipelineMetadata".into(), json!(null));
        }
        _ => {}
    }
    if r.chance(0.15) {
        // metadata that is not at the root is an unknown keyword
        let pos = sutil::positions(&s, true);
        let q = r.pick(&pos).clone();
        if !q.is_empty() {
            if let Some(m) = sutil::get_mut(&mut s, &q).and_then(|x| x.as_object_mut()) {
                m.insert("mozPipelineMetadata".into(), json!({"json_object_path_regex": ".*"}));
            }
        }
    }
    case(s, &ctx)
}
pub fn c21_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    // Avro is unaffected
    let mut bare = s.clone();
    bare.as_object_mut().map(|m| m.remove("mozPipelineMetadata"));
    let mut nore = ctx.clone();
    nore.re = None;
    let a1 = conv(Target::Avro, s, &ctx);
    let a2 = conv(Target::Avro, &bare, &nore);
    if a1.as_ref().ok() != a2.as_ref().ok() {
        return Verdict::Bad("avro".into(), "the JSON-column pattern changes the Avro output".into());
    }
    let o = observe(s, &ctx, Target::Bq);
    for d in &o.diffs {
        let json = d.a == As::Type && (d.exp == "JSON" || d.act == "JSON");
        let shape = matches!(d.a, As::Shape | As::Refused | As::Accepted | As::Missing | As::Extra);
        if json || shape {
            return Verdict::Bad(d.sig(), d.text());
        }
    }
    // columns that are JSON in neither run are the same with and without pattern
    if ctx.res == Res::Cast {
        if let (Ok(x), Ok(y)) = (&o.out, conv(Target::Bq, &bare, &nore)) {
            let x2 = x.to_string().replace("\"JSON\"", "\"STRING\"");
            if x2 != y.to_string().replace("\"JSON\"", "\"STRING\"") {
                return Verdict::Bad("others".into(), "the pattern changes more than JSON columns".into());
            }
        }
    }
    st.add("json_columns_expected", o.ex.json_paths.len() as u64);
    st.add("unmatched_unrepresentable_positions", o.ex.events.len() as u64);
    Verdict::Held(!o.ex.json_paths.is_empty())
}

// --- C22 -------------------------------------------------------------------
pub fn c22_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1]);
    p.p_desc = 0.6;
    p.nodes = *r.pick(&[1, 5, 15, 40]);
    p.w_oneof = 4;
    p.w_array = 5;
    p.w_map = 5;
    p.w_tuple = 3;
    let mut ctx = Ctx::random(r);
    if r.coin() {
        ctx.res = Res::Cast;
    }
    case(gen::schema(r, &p), &ctx)
}
fn no_desc(v: &Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.iter().map(no_desc).collect()),
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "description").map(|(k, v)| (k.clone(), no_desc(v))).collect()),
        _ => v.clone(),
    }
}
pub fn c22_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    let stripped = sutil::strip_text(s);
    let a1 = conv(Target::Avro, s, &ctx);
    let a2 = conv(Target::Avro, &stripped, &ctx);
    if a1.as_ref().ok() != a2.as_ref().ok() {
        return Verdict::Bad("avro".into(), "titles/descriptions change the Avro output".into());
    }
    let o = observe(s, &ctx, Target::Bq);
    let b2 = conv(Target::Bq, &stripped, &ctx);
    if o.out.as_ref().ok().map(no_desc) != b2.as_ref().ok().cloned() {
        return Verdict::Bad("bq-rest".into(), "titles/descriptions change more than descriptions in BigQuery".into());
    }
    if let Some(d) = o.diffs.iter().find(|d| d.a == As::Desc) {
        return Verdict::Bad(d.sig(), d.text());
    }
    if let Ok(v) = &o.out {
        if let Some(e) = read_bq(v).1.iter().find(|e| e.contains("description")) {
            return Verdict::Bad("desc".into(), e.clone());
        }
        let n = v.to_string().matches("\"description\"").count();
        st.add("descriptions_compared", n as u64);
        return Verdict::Held(n > 0);
    }
    Verdict::Held(false)
}

// --- C29 -------------------------------------------------------------------
pub fn c29_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 2]);
    p.nodes = *r.pick(&[3, 10, 30]);
    p.w_json = *r.pick(&[0, 2, 5]);
    p.w_null = *r.pick(&[0, 1]);
    if p.w_json == 0 {
        p.loose = false;
    }
    let mut ctx = Ctx::random(r);
    if r.chance(0.7) {
        ctx.res = Res::Cast;
    }
    if r.chance(0.2) {
        ctx.re = Some(r.pick(&["", "a", ".*list"]).to_string());
    }
    case(gen::schema(r, &p), &ctx)
}
/// the path occurs in the text, not merely as part of a longer path
fn mentions(w: &str, p: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    // overlapping occurrences count
    w.char_indices().filter(|(i, _)| w[*i..].starts_with(p)).any(|(i, _)| {
        let before = w[..i].chars().next_back();
        let after = w[i + p.len()..].chars().next();
        !before.map(word).unwrap_or(false) && !after.map(|c| word(c) || c == '.').unwrap_or(false)
    })
}
pub fn c29_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let (n, facts) = crate::model::elaborate(s, &ctx);
    if n.is_err() || facts.collision {
        return Verdict::Skip;
    }
    let mut nt = false;
    for t in TARGETS {
        log::set_max_level(log::LevelFilter::Trace);
        let ex = expect(s, &ctx, t);
        let quiet = conv(t, s, &ctx);
        let (loud, recs) = with_log(|| conv(t, s, &ctx));
        if quiet.as_ref().ok() != loud.as_ref().ok() {
            return Verdict::Bad(format!("{:?}-log-affects", t), "logging changes the result".into());
        }
        let warns: Vec<&String> = recs.iter().filter(|(l, _)| *l <= log::Level::Warn).map(|(_, m)| m).collect();
        if loud.is_err() {
            continue;
        }
        for k in facts.renamed.iter().chain(&facts.omitted) {
            if !warns.iter().any(|w| w.contains(k.as_str())) {
                return Verdict::Bad(format!("{:?}-rename-silent", t), format!("{:?}: no warning names {:?}", t, k));
            }
            st.inc("renames_and_omissions_reported");
            nt = true;
        }
        if ctx.res == Res::Cast {
            for p in &ex.events {
                let ok = if p.is_empty() { !warns.is_empty() } else { warns.iter().any(|w| mentions(w, p)) };
                if !ok {
                    return Verdict::Bad(format!("{:?}-cast-silent", t), format!("{:?}: no warning for the cast at {:?}; warnings: {:?}", t, p, warns));
                }
                st.inc("casts_reported");
                nt = true;
            }
        }
        let nothing = facts.renamed.is_empty() && facts.omitted.is_empty() && (ctx.res != Res::Cast || ex.events.is_empty());
        if nothing {
            if ctx.res == Res::Cast || ex.events.is_empty() {
                st.inc("silent_conversions");
            }
            if !warns.is_empty() {
                return Verdict::Bad(format!("{:?}-spurious", t), format!("{:?}: spurious warning {:?}", t, warns[0]));
            }
        }
        st.add("log_records_observed", recs.len() as u64);
    }
    Verdict::Held(nt)
}

// --- C30 -------------------------------------------------------------------
pub fn c30_gen(r: &mut Rng) -> Value {
    let mut p = Profile::base();
    p.names = *r.pick(&[0, 1, 1, 2]);
    p.collisions = r.chance(0.3);
    p.nodes = *r.pick(&[8, 25, 60]);
    p.w_tuple = 4;
    p.w_oneof = 6;
    p.w_map = 4;
    p.max_fields = 9;
    let mut ctx = Ctx::random(r);
    ctx.ts |= r.coin();
    case_raw(gen::schema(r, &p), &ctx)
}
fn bq_sorted(cols: &[Col], n: &mut u64) -> Result<(), String> {
    for w in cols.windows(2) {
        *n += 1;
        if w[0].name.as_bytes() >= w[1].name.as_bytes() {
            return Err(format!("column {:?} before {:?}", w[0].name, w[1].name));
        }
    }
    for c in cols {
        bq_sorted(&c.fields, n)?;
    }
    Ok(())
}
fn av_sorted(v: &AV, ts: bool, n: &mut u64) -> Result<(), String> {
    match &v.t {
        AT::Array(x) | AT::Map(x) => av_sorted(x, ts, n),
        AT::Record(_, f) => {
            // position order is f0_, f1_, ... by number
            let num = |s: &str| s.strip_prefix('f').and_then(|s| s.strip_suffix('_')).and_then(|s| s.parse::<usize>().ok());
            let tuple_like = ts && f.iter().all(|x| num(&x.name).is_some());
            for w in f.windows(2) {
                *n += 1;
                let asc = w[0].name.as_bytes() < w[1].name.as_bytes();
                let pos = tuple_like && num(&w[0].name) < num(&w[1].name);
                if !asc && !pos {
                    return Err(format!("field {:?} before {:?}", w[0].name, w[1].name));
                }
            }
            for x in f {
                av_sorted(&x.v, ts, n)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
pub fn c30_judge(c: &Value, st: &mut Stats) -> Verdict {
    let (s, ctx) = sc(c);
    let mut n = 0u64;
    for t in TARGETS {
        let o = observe(s, &ctx, t);
        if let Ok(v) = &o.out {
            let r = match t {
                Target::Avro => read_avro(v).0.map(|a| av_sorted(&a, ctx.ts, &mut n)).unwrap_or(Ok(())),
                Target::Bq => read_bq(v).0.map(|a| bq_sorted(&a, &mut n)).unwrap_or(Ok(())),
            };
            if let Err(e) = r {
                return Verdict::Bad(format!("{:?}-order", t), format!("{:?}: {}", t, e));
            }
        }
        if let Some(d) = o.diffs.iter().find(|d| d.a == As::Order) {
            return Verdict::Bad(d.sig(), d.text());
        }
    }
    st.add("adjacent_pairs_compared", n);
    let _ = names::valid;
    Verdict::Held(n > 0)
}
