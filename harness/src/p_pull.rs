//! P14: pull expressions and direct pulls against the model's facts.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_find::cmp;
use crate::p_query::*;
use crate::p_store::{live_pal, schema_tx};
use crate::query::*;
use crate::real::*;
use crate::val::*;
use core_traits::StructuredMap;
use mentat::{Binding, CacheAction, CacheDirection, QueryInputs, QueryResults, Pullable, Queryable, TypedValue, Variable};

use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P14", rule: "A distinct pull (entities and attributes, or query with pull expressions) over a store, with at least one attribute found, compared with the model's facts.",
            case: p14, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["An entity that has none of the pulled attributes is left out of the map of direct pulls, and may be left out of a collection of pulls.",
                "A pulled variable stands for entities only. Names that are not attributes pull nothing.",
                "Attributes without an ident cannot be pulled; an attribute pulled twice, or two under one alias, is left open."] },
    ]
}

/// A pulled entity: key, and the values in order with whether they came as a vector.
pub type Pulled = BTreeMap<String, (bool, Vec<V>)>;

pub fn pulled_of(m: &StructuredMap) -> R<Pulled> {
    let mut out = Pulled::new();
    for (k, b) in m.0.iter() {
        let v = match b {
            Binding::Scalar(v) => (false, vec![V::of(v)]),
            Binding::Vec(vs) => {
                let mut l = vec![];
                for b in vs.iter() { match b { Binding::Scalar(v) => l.push(V::of(v)), _ => return bad(format!("nested value under {}", k)) } }
                l.sort();
                (true, l)
            }
            Binding::Map(_) => return bad(format!("nested map under {}", k)),
        };
        out.insert(k.to_string(), v);
    }
    Ok(out)
}

fn expected(m: &Model, e: i64, attrs: &BTreeMap<i64, String>, db_id: &Option<String>) -> Pulled {
    let mut out = Pulled::new();
    if let Some(k) = db_id { out.insert(k.clone(), (false, vec![V::Ref(e)])); }
    for (a, name) in attrs {
        let at = match m.schema.attrs.get(a) { Some(at) => at, None => continue };
        let mut vs = m.values(e, *a);
        if vs.is_empty() { continue; }
        vs.sort();
        out.insert(name.clone(), (at.many, vs));
    }
    out
}

pub fn text_of(p: &Pulled) -> String {
    format!("{{{}}}", p.iter().map(|(k, (many, vs))| format!("{} {}{}{}", k, if *many { "[" } else { "" }, vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), if *many { "]" } else { "" })).collect::<Vec<_>>().join(", "))
}

fn some_entity(ctx: &mut Ctx, m: &Model) -> i64 {
    let es: Vec<i64> = m.facts.keys().map(|f| f.0).collect();
    match ctx.rng.below(12) {
        0 => ctx.rng.below(70) as i64,
        1 => TX0 + ctx.rng.below(5) as i64,
        2 => *ctx.rng.pick(&[-1i64, 0, 65_535, 9_999_999, i64::max_value(), i64::min_value() + 1]),
        _ => { let u = user_entities(m); if u.is_empty() || ctx.rng.pct(15) { *ctx.rng.pick(&es) } else { *ctx.rng.pick(&u) } }
    }
}

/// Direct pulls by entity and attribute numbers.
fn direct(ctx: &mut Ctx, real: &mut Real, m: &Model) -> R {
    let ids: Vec<i64> = m.schema.attrs.keys().cloned().collect();
    let mut attrs: Vec<i64> = (0..1 + ctx.rng.below(6)).map(|_| *ctx.rng.pick(&ids)).collect();
    if ctx.rng.pct(30) { let user: Vec<i64> = ids.iter().cloned().filter(|a| *a >= USER0).collect(); if !user.is_empty() { attrs = user; } }
    if ctx.rng.pct(6) { attrs.push(some_entity(ctx, m)); }
    if ctx.rng.pct(5) { attrs.clear(); }
    let n = if ctx.rng.pct(3) { 1500 } else { ctx.rng.below(8) };
    let es: Vec<i64> = (0..n).map(|_| some_entity(ctx, m)).collect();
    let one = ctx.rng.pct(35);
    let how = ctx.rng.below(3);
    let es: Vec<i64> = if one { vec![some_entity(ctx, m)] } else { es };
    ctx.note(format!("pull {:?} of {:?} ({}, {})", attrs, if es.len() > 20 { &es[..20] } else { &es[..] }, if one { "one" } else { "several" }, ["connection", "in progress", "reader"][how]));
    let got: Result<BTreeMap<i64, Pulled>, String> = {
        let conv = |r: BTreeMap<i64, mentat_core::ValueRc<StructuredMap>>| -> R<BTreeMap<i64, Pulled>> { let mut o = BTreeMap::new(); for (e, m) in r { o.insert(e, pulled_of(&m)?); } Ok(o) };
        if one {
            let e = es[0];
            let r = match how {
                0 => call("pull", || real.conn.pull_attributes_for_entity(&real.sqlite, e, attrs.clone()).map_err(|e| e.to_string()))?,
                1 => call("pull", || { let ip = real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string())?; ip.pull_attributes_for_entity(e, attrs.clone()).map_err(|e| e.to_string()) })?,
                _ => call("pull", || { let ip = real.conn.begin_read(&mut real.sqlite).map_err(|e| e.to_string())?; ip.pull_attributes_for_entity(e, attrs.clone()).map_err(|e| e.to_string()) })?,
            };
            match r { Ok(m) => { let p = pulled_of(&m)?; Ok(if p.is_empty() { BTreeMap::new() } else { std::iter::once((e, p)).collect() }) }, Err(x) => Err(x) }
        } else {
            let r = match how {
                0 => call("pull", || real.conn.pull_attributes_for_entities(&real.sqlite, es.clone(), attrs.clone()).map_err(|e| e.to_string()))?,
                1 => call("pull", || { let ip = real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string())?; ip.pull_attributes_for_entities(es.clone(), attrs.clone()).map_err(|e| e.to_string()) })?,
                _ => call("pull", || { let ip = real.conn.begin_read(&mut real.sqlite).map_err(|e| e.to_string())?; ip.pull_attributes_for_entities(es.clone(), attrs.clone()).map_err(|e| e.to_string()) })?,
            };
            match r { Ok(r) => Ok(conv(r)?), Err(x) => Err(x) }
        }
    };
    let unnamed = attrs.iter().any(|a| m.schema.ident_of(*a).is_none());
    let got = match got {
        Err(x) => { if unnamed { ctx.count("unnamed_refused"); return Ok(()); } return bad(format!("pull refused: {}", x)); }
        Ok(g) => g,
    };
    if unnamed { return bad("an attribute without a name was pulled"); }
    let names: BTreeMap<i64, String> = attrs.iter().map(|a| (*a, m.schema.ident_of(*a).unwrap().clone())).collect();
    for e in got.keys() { if !es.contains(e) { return bad(format!("pulled {} which was not asked for", e)); } }
    let mut found = 0;
    for e in &es {
        let want = expected(m, *e, &names, &None);
        let g = got.get(e).cloned().unwrap_or_default();
        if g != want { return bad(format!("pull of {} gives {}, stored is {}", e, text_of(&g), text_of(&want))); }
        found += want.len();
    }
    ctx.count("direct_pulls");
    ctx.add("attributes_found", found as u64);
    ctx.eval(found > 0, &format!("{}|{:?}|{:?}", m.facts.len(), es, attrs));
    Ok(())
}

/// The caches that pulls are made of, filled by hand for some entities and attributes at a time.
fn caches(ctx: &mut Ctx, real: &mut Real, m: &Model) -> R {
    use mentat_db::cache::{AttributeCaches, AttributeSpec};
    let schema = real.conn.current_schema();
    let ids: Vec<i64> = m.schema.attrs.keys().cloned().collect();
    let mut held: BTreeSet<(i64, i64)> = BTreeSet::new();
    let mut cache = AttributeCaches::default();
    let mut steps: Vec<String> = vec![];
    let mut found = 0;
    for step in 0..1 + ctx.rng.below(4) {
        let all = ctx.rng.pct(20);
        let mut attrs: BTreeSet<i64> = (0..1 + ctx.rng.below(6)).map(|_| *ctx.rng.pick(&ids)).collect();
        if ctx.rng.pct(40) { attrs.extend(ids.iter().cloned().filter(|a| *a >= USER0)); }
        if ctx.rng.pct(5) { attrs.clear(); }
        let es: BTreeSet<i64> = (0..ctx.rng.below(8)).map(|_| some_entity(ctx, m)).collect();
        steps.push(format!("{} of {:?}", if all { "everything".to_string() } else { format!("{:?}", attrs) }, es));
        let spec = if all { AttributeSpec::all() } else { AttributeSpec::specified(&attrs, &schema) };
        if all { attrs = ids.iter().cloned().collect(); }
        let list: Vec<i64> = es.iter().cloned().collect();
        let made = if step == 0 {
            call("make cache", || AttributeCaches::make_cache_for_entities_and_attributes(&schema, &real.sqlite, spec, &list).map(|c| { cache = c; }).map_err(|e| e.to_string()))?
        } else {
            call("extend cache", || cache.extend_cache_for_entities_and_attributes(&schema, &real.sqlite, spec, &list).map_err(|e| e.to_string()))?
        };
        if let Err(x) = made { return bad(format!("caching {} refused: {}", steps.join(", then "), x)); }
        for a in &attrs { for e in &es { held.insert((*a, *e)); } }
        for (a, e) in &held {
            let got = match cache.forward_attribute_cache_for_attribute(&schema, *a).and_then(|c| c.binding_for_e(*e)) {
                None => vec![],
                Some(Binding::Scalar(v)) => vec![V::of(&v)],
                Some(Binding::Vec(vs)) => { let mut l = vec![]; for b in vs.iter() { if let Binding::Scalar(v) = b { l.push(V::of(v)); } } l.sort(); l }
                Some(_) => return bad("a map in a cache"),
            };
            let mut want = m.values(*e, *a);
            want.sort();
            if got != want { return bad_sig("cache-by-hand", format!("having cached {}, {} of {} reads {:?}, stored is {:?}", steps.join(", then "), a, e, got, want)); }
            found += want.len();
        }
    }
    ctx.count("caches_by_hand");
    ctx.add("values_cached_by_hand", found as u64);
    ctx.eval(found > 0, &format!("caches|{}|{:?}", m.facts.len(), steps));
    Ok(())
}

struct Spec { text: String, attrs: BTreeMap<i64, String>, db_id: Option<String>, unnamed: bool, repeat_id: bool }

fn pattern(ctx: &mut Ctx, m: &Model) -> Spec {
    let mut s = Spec { text: String::new(), attrs: BTreeMap::new(), db_id: None, unnamed: false, repeat_id: false };
    let named: Vec<(String, i64)> = m.schema.idents.iter().map(|(k, i)| (k.clone(), *i)).collect();
    let used: BTreeSet<i64> = m.facts.keys().map(|f| f.1).collect();
    let liked: Vec<(String, i64)> = named.iter().filter(|(_, i)| used.contains(i) && *i >= USER0).cloned().collect();
    let mut parts: Vec<String> = vec![];
    let mut aliases: BTreeSet<String> = BTreeSet::new();
    let mut ids: BTreeSet<i64> = BTreeSet::new();
    let n = 1 + ctx.rng.below(5);
    for i in 0..n {
        let alias = if ctx.rng.pct(30) { Some(ctx.rng.pick(&[":x", ":al/ias", ":name", ":db/id2", ":foo.bar/baz-q"]).to_string() + &i.to_string()) } else { None };
        if ctx.rng.pct(15) {
            if s.db_id.is_some() { if ctx.rng.pct(90) { continue; } s.repeat_id = true; }
            let k = alias.clone().unwrap_or(":db/id".into());
            parts.push(format!(":db/id{}", alias.map_or(String::new(), |a| format!(" :as {}", a))));
            s.db_id = Some(k);
            continue;
        }
        if ctx.rng.pct(5) { parts.push(format!(":no/such{}", i)); continue; }
        let (k, a) = if !liked.is_empty() && ctx.rng.pct(80) { ctx.rng.pick(&liked).clone() } else { ctx.rng.pick(&named).clone() };
        if !ids.insert(a) { continue; }
        let name = alias.clone().unwrap_or(k.clone());
        if !aliases.insert(name.clone()) { continue; }
        parts.push(format!("{}{}", k, alias.map_or(String::new(), |a| format!("{}:as {}", ctx.rng.pick(&[" ", "  ", ", "]), a))));
        s.attrs.insert(a, name);
    }
    if ctx.rng.pct(25) || parts.is_empty() {
        let i = ctx.rng.below(parts.len() + 1);
        parts.insert(i, "*".into());
        for a in m.schema.attrs.keys() {
            match m.schema.ident_of(*a) { Some(k) => { s.attrs.entry(*a).or_insert(k.clone()); }, None => s.unnamed = true }
        }
    }
    s.text = parts.join(" ");
    s
}

enum Cell { Val(V), Map(Pulled) }
fn cell_text(c: &Cell) -> String { match c { Cell::Val(v) => v.to_string(), Cell::Map(p) => text_of(p) } }
fn cell_of(b: &Binding) -> R<Cell> { match b { Binding::Scalar(v) => Ok(Cell::Val(V::of(v))), Binding::Map(m) => Ok(Cell::Map(pulled_of(m)?)), Binding::Vec(_) => bad("a vector as a result") } }

/// Pull expressions in queries.
fn query(ctx: &mut Ctx, real: &mut Real, m: &Model, user: &[Fact]) -> R {
    let mut q = match gen_body(ctx, m, user) { Some(q) => q, None => return Ok(()) };
    if type_blind(&q.wh) { return Ok(()); }
    let db = Db::new(m);
    ctx.rng.shuffle(&mut q.find);
    let spec = ctx.rng.weighted(&[50, 25, 13, 12]);
    let k = if spec == 1 || spec == 3 { 1 } else { 1 + ctx.rng.below(q.find.len().min(3)) };
    q.find.truncate(k);
    let vars = q.find.clone();
    // Only what may be an entity is pulled.
    let all = match db.run(&q) { Ok(r) => r, Err(_) => return Ok(()) };
    let refs: Vec<usize> = (0..k).filter(|i| all.iter().any(|r| if let V::Ref(_) = r[*i] { true } else { false })).collect();
    if refs.is_empty() { return Ok(()); }
    let mut pulls: BTreeMap<usize, Spec> = BTreeMap::new();
    for i in &refs { if pulls.is_empty() || ctx.rng.pct(60) { let s = pattern(ctx, m); pulls.insert(*i, s); } }
    // An input for one of the entities.
    let mut rows: Vec<Vec<V>> = all.into_iter().filter(|r| pulls.keys().all(|i| if let V::Ref(_) = r[*i] { true } else { false })).collect();
    let input = if ctx.rng.pct(20) && !rows.is_empty() { let i = *pulls.keys().next().unwrap(); let v = ctx.rng.pick(&rows)[i].clone(); rows.retain(|r| r[i] == v); Some((vars[i], v)) } else { None };
    let pr = Pr(&q.names);
    let els: Vec<String> = (0..k).map(|i| match pulls.get(&i) { Some(s) => format!("(pull {} [{}])", pr.v(vars[i]), s.text), None => pr.v(vars[i]).to_string() }).collect();
    let list = els.join(" ");
    let mut text = match spec { 0 => format!("[:find {}", list), 1 => format!("[:find [{} ...]", list), 2 => format!("[:find [{}]", list), _ => format!("[:find {} .", list) };
    if let Some((x, _)) = input { text += &format!(" :in {}", pr.v(x)); }
    text += &format!(" :where {}", pr.cls(&q.wh));
    let order: Vec<(usize, bool)> = if ctx.rng.pct(35) { vec![(ctx.rng.below(k), ctx.rng.pct(50))] } else { vec![] };
    if !order.is_empty() { text += &format!(" :order {}", order.iter().map(|(i, asc)| format!("({} {})", if *asc { "asc" } else { "desc" }, pr.v(vars[*i]))).collect::<Vec<_>>().join(" ")); }
    let limit = if spec < 2 && ctx.rng.pct(20) { Some(1 + ctx.rng.below(5)) } else { None };
    if let Some(l) = limit { text += &format!(" :limit {}", l); }
    text += "]";
    ctx.note(format!("ask {} {}", text, input.as_ref().map_or(String::new(), |(x, v)| format!("{}={}", pr.v(*x), v))));
    let ins = || match &input { None => QueryInputs::default(), Some((x, v)) => QueryInputs::with_value_sequence(vec![(Variable::from_valid_name(pr.v(*x)), v.typed())]) };
    if ctx.rng.pct(25) { gone_wrong(ctx, real, &text, &ins)?; }
    let got: Result<QueryResults, String> = match ctx.rng.below(3) {
        0 => call(&text, || real.conn.q_once(&real.sqlite, &text, ins()).map(|o| o.results).map_err(|e| e.to_string()))?,
        1 => call(&text, || { let mut p = real.conn.q_prepare(&real.sqlite, &text, ins()).map_err(|e| e.to_string())?; p.run(None).map_err(|e| e.to_string())?; p.run(None).map(|o| o.results).map_err(|e| e.to_string()) })?,
        _ => { let sq = &mut real.sqlite; let conn = &mut real.conn; call(&text, || { let ip = conn.begin_transaction(sq).map_err(|e| e.to_string())?; ip.q_once(&text, ins()).map(|o| o.results).map_err(|e| e.to_string()) })? }
    };
    let got = match got {
        Err(e) => {
            if documented_refusal(&e, &q.wh) || pulls.values().any(|s| s.unnamed || s.repeat_id) { ctx.count("refused"); return Ok(()); }
            return bad(format!("refused a query: {}", e));
        }
        Ok(r) => r,
    };
    if pulls.values().any(|s| s.repeat_id) && !rows.is_empty() { return bad(":db/id was accepted twice in one pull"); }
    if pulls.values().any(|s| s.unnamed) && !rows.is_empty() { return bad("a wildcard pulled attributes without a name"); }
    let kind = match got { QueryResults::Rel(_) => 0, QueryResults::Coll(_) => 1, QueryResults::Tuple(_) => 2, QueryResults::Scalar(_) => 3 };
    if kind != spec { return bad(format!("result of kind {} for {}", kind, spec)); }
    let raw: Vec<Vec<Binding>> = match got {
        QueryResults::Rel(r) => r.into_iter().collect(),
        QueryResults::Coll(c) => c.into_iter().map(|b| vec![b]).collect(),
        QueryResults::Tuple(t) => t.into_iter().collect(),
        QueryResults::Scalar(s) => s.into_iter().map(|b| vec![b]).collect(),
    };
    let mut have: Vec<Vec<String>> = vec![];
    for r in &raw {
        let mut o = vec![];
        for (i, b) in r.iter().enumerate() {
            let c = cell_of(b)?;
            match (&c, pulls.contains_key(&i)) { (Cell::Map(_), true) | (Cell::Val(_), false) => (), _ => return bad(format!("cell {} is {}", i, cell_text(&c))) }
            o.push(cell_text(&c));
        }
        have.push(o);
    }
    // What is due, in order, with the key of each row.
    let mut want: Vec<(Option<V>, Vec<String>)> = rows.iter().map(|r| (order.get(0).map(|(i, _)| r[*i].clone()), r.iter().enumerate().map(|(i, v)| match (pulls.get(&i), v) { (Some(s), V::Ref(e)) => text_of(&expected(m, *e, &s.attrs, &s.db_id)), (_, v) => v.to_string() }).collect())).collect();
    let found = want.iter().any(|(_, r)| pulls.keys().any(|i| r[*i] != "{}"));
    if let Some((_, asc)) = order.get(0) { want.sort_by(|a, b| { let c = cmp(a.0.as_ref().unwrap(), b.0.as_ref().unwrap()); if *asc { c } else { c.reverse() } }); }
    let lay = |w: &[Vec<String>]| w.iter().take(5).map(|r| format!("[{}]", r.join(" "))).collect::<Vec<_>>().join(" ");
    if spec >= 2 {
        if have.len() != want.len().min(1) { return bad(format!("{} results, {} candidates", have.len(), want.len())); }
        if let Some(h) = have.get(0) {
            let cand: Vec<&Vec<String>> = want.iter().filter(|w| w.0 == want[0].0).map(|w| &w.1).collect();
            if !cand.contains(&h) { return bad(format!("result {} is none of the candidates {}", h.join(" "), lay(&cand.into_iter().cloned().collect::<Vec<_>>()))); }
        }
    } else {
        // Empty pulls of a collection may be missing.
        let strip = spec == 1 && have.iter().all(|h| h[0] != "{}");
        let total = want.len();
        if strip { if limit.is_none() { want.retain(|w| w.1[0] != "{}"); have.retain(|h| h[0] != "{}"); } }
        let due = limit.map_or(want.len(), |l| l.min(total));
        let least = if strip && limit.is_some() { due.saturating_sub(want.iter().filter(|w| w.1[0] == "{}").count()) } else { due };
        if have.len() > due || have.len() < least { return bad(format!("{} rows, {} due: {} ; due {}", have.len(), due, lay(&have), lay(&want.iter().map(|w| w.1.clone()).collect::<Vec<_>>()))); }
        let mut i = 0;
        let mut hi = 0;
        while i < want.len() && hi < have.len() {
            let mut j = i + 1;
            while j < want.len() && want[i].0.as_ref().map(|v| cmp(v, want[j].0.as_ref().unwrap()) == std::cmp::Ordering::Equal).unwrap_or(true) { j += 1; }
            let mut free: Vec<&Vec<String>> = want[i..j].iter().map(|w| &w.1).collect();
            let mut n = 0;
            while hi < have.len() && n < j - i {
                match free.iter().position(|w| **w == have[hi]) {
                    Some(k) => { free.remove(k); hi += 1; n += 1; }
                    None => {
                        if strip && limit.is_some() && free.iter().any(|w| w[0] == "{}") { break; }
                        return bad(format!("row {} is wrong or out of order; due {}", have[hi].join(" "), lay(&free.into_iter().cloned().collect::<Vec<_>>())));
                    }
                }
            }
            i = j;
        }
        if hi < have.len() { return bad(format!("row {} is not due", have[hi].join(" "))); }
    }
    ctx.count("pull_queries");
    if !order.is_empty() { ctx.count("ordered"); }
    if input.is_some() { ctx.count("with_input"); }
    ctx.eval(found, &format!("{}|{}|{:?}", m.facts.len(), text, input));
    if found { ctx.sample(|| format!("{} -> {} rows", text, have.len())); }
    Ok(())
}

fn p14(ctx: &mut Ctx) -> R {
    let nf = 10 + ctx.rng.below(60);
    let (mut real, mut m, _) = populated(ctx, nf)?;
    for _ in 0..ctx.rng.below(3) {
        let pal = live_pal(&m);
        let mut rng = ctx.rng.clone();
        let t = schema_tx(&mut rng, &m, &pal);
        ctx.rng = rng;
        step(ctx, &mut real, &mut m, &t)?;
    }
    for _ in 0..ctx.rng.below(3) {
        let a = { let l: Vec<String> = m.schema.attrs.keys().filter(|a| **a >= USER0).filter_map(|a| m.schema.ident_of(*a).cloned()).collect(); if l.is_empty() { break; } ctx.rng.pick(&l).clone() };
        ctx.note(format!("cache {}", a));
        let schema = real.conn.current_schema();
        let dir = match ctx.rng.below(3) { 0 => CacheDirection::Forward, 1 => CacheDirection::Reverse, _ => CacheDirection::Both };
        if let Err(e) = call("cache", || real.conn.cache(&mut real.sqlite, &schema, &kw(&a), dir, CacheAction::Register).map_err(|e| e.to_string()))? { return bad(format!("cannot cache: {}", e)); }
    }
    let user = user_facts(&m);
    let integral = user.iter().any(|f| if let V::Dbl(d) = &f.2 { d.0.fract() == 0.0 && d.0.abs() < 1e19 } else { false });
    for i in 0..36 {
        let n = ctx.trace.len();
        if i % 12 == 9 { caches(ctx, &mut real, &m)?; } else if i % 3 == 0 { direct(ctx, &mut real, &m)?; } else if !integral { query(ctx, &mut real, &m, &user)?; }
        ctx.trace.truncate(n);
    }
    Ok(())
}
#[allow(dead_code)]
fn _t(_: TypedValue) {}
