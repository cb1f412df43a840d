//! P13: the attribute cache never changes an answer.
use crate::fw::*;
use crate::gen::*;
use crate::p_build;
use crate::model::*;
use crate::p_query::*;
use crate::p_store::{live_pal, schema_tx, Marked, Marks};
use crate::p_tx::gen_tx;
use crate::query::*;
use crate::real::*;
use crate::val::*;
use mentat::{CacheDirection, InProgress, QueryResults, Queryable};
use mentat::CacheAction;
use mentat_core::{CachedAttributes, HasSchema};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P13", rule: "A distinct answer (query with a result, or lookup of a cached attribute) after cache operations and writes, compared with the stored facts.",
            case: p13, quick: (3000, 40), thorough: (400_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["The store is written through the connection that holds the cache."] },
    ]
}

/// What is asked the same way outside and inside a transaction in progress.
trait View {
    fn q(&self, text: &str) -> R<Result<QueryResults, String>>;
    fn values(&self, e: i64, a: &str) -> R<Result<Vec<V>, String>>;
    fn value(&self, e: i64, a: &str) -> R<Result<Option<V>, String>>;
    fn prepared(&self, text: &str) -> R<Result<Vec<QueryResults>, String>>;
}
impl View for Real {
    fn q(&self, text: &str) -> R<Result<QueryResults, String>> { Real::q(self, text) }
    fn values(&self, e: i64, a: &str) -> R<Result<Vec<V>, String>> {
        call("lookup", || self.conn.lookup_values_for_attribute(&self.sqlite, e, &kw(a)).map(|v| v.iter().map(V::of).collect()).map_err(|e| e.to_string()))
    }
    fn value(&self, e: i64, a: &str) -> R<Result<Option<V>, String>> {
        call("lookup", || self.conn.lookup_value_for_attribute(&self.sqlite, e, &kw(a)).map(|v| v.as_ref().map(V::of)).map_err(|e| e.to_string()))
    }
    fn prepared(&self, text: &str) -> R<Result<Vec<QueryResults>, String>> {
        call(text, || {
            let mut p = self.conn.q_prepare(&self.sqlite, text, None).map_err(|e| e.to_string())?;
            let mut v = vec![];
            for _ in 0..2 { v.push(p.run(None).map(|o| o.results).map_err(|e| e.to_string())?); }
            Ok(v)
        })
    }
}
impl<'a, 'c> View for InProgress<'a, 'c> {
    fn q(&self, text: &str) -> R<Result<QueryResults, String>> { call(text, || self.q_once(text, None).map(|o| o.results).map_err(|e| e.to_string())) }
    fn values(&self, e: i64, a: &str) -> R<Result<Vec<V>, String>> {
        call("lookup", || self.lookup_values_for_attribute(e, &kw(a)).map(|v| v.iter().map(V::of).collect()).map_err(|e| e.to_string()))
    }
    fn value(&self, e: i64, a: &str) -> R<Result<Option<V>, String>> {
        call("lookup", || self.lookup_value_for_attribute(e, &kw(a)).map(|v| v.as_ref().map(V::of)).map_err(|e| e.to_string()))
    }
    fn prepared(&self, text: &str) -> R<Result<Vec<QueryResults>, String>> {
        call(text, || {
            let mut p = self.q_prepare(text, None).map_err(|e| e.to_string())?;
            let mut v = vec![];
            for _ in 0..2 { v.push(p.run(None).map(|o| o.results).map_err(|e| e.to_string())?); }
            Ok(v)
        })
    }
}

struct St { m: Model, cached: BTreeSet<i64>, recent: Vec<Fact> }

fn attr_name(m: &Model, a: i64) -> Option<String> { if m.schema.attrs.contains_key(&a) { m.schema.ident_of(a).cloned() } else { None } }

/// A fact to ask about: lately changed, of a cached attribute, or any.
fn target(ctx: &mut Ctx, st: &St, user: &[Fact]) -> Option<Fact> {
    let ok = |f: &&Fact| st.m.schema.attrs.contains_key(&f.1);
    let rec: Vec<&Fact> = st.recent.iter().filter(ok).collect();
    let cac: Vec<&Fact> = user.iter().filter(|f| st.cached.contains(&f.1)).filter(ok).collect();
    match ctx.rng.below(10) {
        0..=4 if !rec.is_empty() => Some((*ctx.rng.pick(&rec)).clone()),
        5..=8 if !cac.is_empty() => Some((*ctx.rng.pick(&cac)).clone()),
        _ if !user.is_empty() => Some(ctx.rng.pick(user).clone()),
        _ => None,
    }
}

/// Patterns the cache may answer: constants for entity or value, sharing variables and nested.
fn cache_query(ctx: &mut Ctx, st: &St, user: &[Fact]) -> Option<Q> {
    let mut ents: Vec<Var> = vec![];
    let mut vals: Vec<Var> = vec![];
    let mut nv = 0;
    let mut wh = vec![];
    let n = 1 + ctx.rng.weighted(&[40, 35, 25]);
    for i in 0..n {
        let (e, a, v) = target(ctx, st, user)?;
        let mut rng = ctx.rng.clone();
        let (ec, ac, vc) = { let mut g = Gen::new(&mut rng, &st.m, user); (g.entity_const(e), g.attr_const(a), g.value_const(&v)) };
        ctx.rng = rng;
        let ac = P::C(ac);
        let mut fresh = |l: &mut Vec<Var>| { l.push(nv); nv += 1; P::Var(nv - 1) };
        let ev = if !ents.is_empty() && ctx.rng.pct(45) { P::Var(*ctx.rng.pick(&ents)) } else if !vals.is_empty() && ctx.rng.pct(10) { P::Var(*ctx.rng.pick(&vals)) } else { fresh(&mut ents) };
        // no new variable stays unused
        let (p, used_e) = match ctx.rng.below(8) {
            0 | 1 | 2 => (Cl::Pat(ev.clone(), ac, P::C(vc), None), true),
            3 | 4 | 5 => { let x = if !vals.is_empty() && ctx.rng.pct(35) { P::Var(*ctx.rng.pick(&vals)) } else { fresh(&mut vals) }; (Cl::Pat(P::C(ec), ac, x, None), false) }
            6 => { let x = fresh(&mut vals); (Cl::Pat(ev.clone(), ac, x, None), true) }
            _ => (Cl::Pat(P::C(ec), ac, P::C(vc), None), false),
        };
        let _ = used_e;
        let mut vs = BTreeSet::new();
        vars_of(&p, &mut vs);
        let mut seen = BTreeSet::new();
        for c in &wh { vars_of(c, &mut seen); }
        if i > 0 && !vs.is_empty() && vs.is_subset(&seen) && ctx.rng.pct(35) { wh.push(Cl::Not(None, vec![p])); }
        else if vs.len() == 1 && ctx.rng.pct(20) {
            // the same variable found in another way
            let x = *vs.iter().next().unwrap();
            let other = target(ctx, st, user)?;
            let mut rng = ctx.rng.clone();
            let (ec, ac, vc) = { let mut g = Gen::new(&mut rng, &st.m, user); (g.entity_const(other.0), g.attr_const(other.1), g.value_const(&other.2)) };
            ctx.rng = rng;
            let is_e = match p { Cl::Pat(P::Var(_), ..) => true, _ => false };
            let q = if is_e { Cl::Pat(P::Var(x), P::C(ac), P::C(vc), None) } else { Cl::Pat(P::C(ec), P::C(ac), P::Var(x), None) };
            wh.push(Cl::Or(None, vec![vec![p], vec![q]]));
        } else { wh.push(p); }
    }
    if ctx.rng.pct(50) {
        // negation goes last, everything else in any order
        let (mut a, b): (Vec<Cl>, Vec<Cl>) = wh.into_iter().partition(|c| match c { Cl::Not(..) => false, _ => true });
        ctx.rng.shuffle(&mut a);
        a.extend(b);
        wh = a;
    }
    let mut top = BTreeSet::new();
    for c in &wh { match c { Cl::Not(..) => (), c => vars_of(c, &mut top) } }
    if top.is_empty() { return None; }
    let names = var_names(&mut ctx.rng, nv);
    let mut find: Vec<Var> = top.into_iter().collect();
    ctx.rng.shuffle(&mut find);
    let spec = ctx.rng.weighted(&[70, 15, 8, 7]) as u8;
    if spec == 1 || spec == 3 { find.truncate(1); }
    Some(Q { names, find, spec, wh })
}

fn verify(ctx: &mut Ctx, view: &dyn View, st: &St, n: usize) -> R {
    let user = user_facts(&st.m);
    let db = Db::new(&st.m);
    for i in 0..n {
        let q = if i % 4 == 3 { if user.is_empty() { None } else { gen_query(ctx, &st.m, &user) } } else { cache_query(ctx, st, &user) };
        let q = match q { Some(q) => q, None => continue };
        if type_blind(&q.wh) { continue; }
        let text = q_text(&q);
        let want = match db.run(&q) { Ok(w) => w, Err(_) => continue };
        ctx.note(format!("  ask {}", text));
        let got = if ctx.rng.pct(12) { view.prepared(&text)? } else { view.q(&text)?.map(|r| vec![r]) };
        match got {
            Err(e) => if !documented_refusal(&e, &q.wh) { return bad(format!("refused a query: {}", e)); },
            Ok(rs) => {
                for r in &rs { judge(&q, &want, r)?; }
                ctx.count("queries_answered");
                if !want.is_empty() { ctx.count("queries_with_results"); }
                ctx.eval(!want.is_empty(), &format!("{}|{}|{:?}", st.m.log.len(), text, st.cached));
            }
        }
        ctx.trace.pop();
    }
    // Lookups.
    let mut es: Vec<i64> = st.recent.iter().map(|f| f.0).collect();
    let ue = user_entities(&st.m);
    for _ in 0..2 { if !ue.is_empty() { es.push(*ctx.rng.pick(&ue)); } }
    es.sort(); es.dedup();
    ctx.rng.shuffle(&mut es);
    es.truncate(5);
    let mut attrs: Vec<i64> = st.cached.iter().cloned().collect();
    attrs.extend(st.recent.iter().map(|f| f.1));
    attrs.sort(); attrs.dedup();
    ctx.rng.shuffle(&mut attrs);
    attrs.truncate(4);
    for a in attrs {
        let name = match attr_name(&st.m, a) { Some(n) => n, None => continue };
        for e in &es {
            let want: BTreeSet<V> = st.m.values(*e, a).into_iter().collect();
            let got = match view.values(*e, &name)? { Ok(v) => v, Err(x) => return bad(format!("lookup of {} of {} failed: {}", name, e, x)) };
            let set: BTreeSet<V> = got.iter().cloned().collect();
            if set.len() != got.len() || set != want { return bad(format!("lookup of all values of {} {} gives {:?}, stored are {:?} (cached: {})", e, name, got, want, st.cached.contains(&a))); }
            let one = match view.value(*e, &name)? { Ok(v) => v, Err(x) => return bad(format!("lookup of {} of {} failed: {}", name, e, x)) };
            let fine = match one { None => want.is_empty(), Some(ref v) => want.contains(v) };
            if !fine { return bad(format!("lookup of a value of {} {} gives {:?}, stored are {:?} (cached: {})", e, name, one, want, st.cached.contains(&a))); }
            ctx.count("lookups");
            if st.cached.contains(&a) { ctx.eval(!want.is_empty(), &format!("{}|{}|{}|{:?}", st.m.log.len(), e, a, want)); }
        }
    }
    Ok(())
}

/// A transaction that works on cached attributes: replaces, repeats, retracts present and absent.
// Integral doubles equal longs in joins by design of the SQL; they stay out of the data.
fn integral_double(t: &TxAst) -> bool {
    let x = tx_text(t);
    let r = x.as_bytes().windows(3).any(|w| w[0].is_ascii_digit() && w[1] == b'.' && w[2] == b'0');
    r
}

fn mutate(ctx: &mut Ctx, st: &St) -> TxAst {
    loop {
        let t = mutate_any(ctx, st);
        if !integral_double(&t) { return t; }
    }
}

fn mutate_any(ctx: &mut Ctx, st: &St) -> TxAst {
    let pal = live_pal(&st.m);
    let o = TxOpts { spice: 4, retracts: 25, idents: true, ..TxOpts::default() };
    if ctx.rng.pct(15) && !pal.by(|a| a.unique == Uniq::Identity && a.vt != VT::Ref).is_empty() { return gen_tx(ctx, &st.m, &pal, &o); }
    if ctx.rng.pct(10) {
        let mut rng = ctx.rng.clone();
        let v = { let mut g = G::new(&mut rng, &st.m, &pal, &o); g.unique_shuffle() };
        ctx.rng = rng;
        if !v.is_empty() { return v; }
    }
    let es = user_entities(&st.m);
    let mut attrs: Vec<i64> = st.cached.iter().cloned().filter(|a| *a >= USER0 && st.m.schema.attrs.contains_key(a)).collect();
    if attrs.is_empty() || ctx.rng.pct(15) { attrs = st.m.schema.attrs.keys().cloned().filter(|a| *a >= USER0).collect(); }
    let mut out = vec![];
    let n = 1 + ctx.rng.below(5);
    let mut taken: BTreeSet<(i64, i64)> = BTreeSet::new();
    if attrs.is_empty() || es.is_empty() { return schema(ctx, &st.m); }
    for _ in 0..n {
        let a = *ctx.rng.pick(&attrs);
        let e = *ctx.rng.pick(&es);
        let at = st.m.schema.attrs[&a].clone();
        if !at.many && !taken.insert((e, a)) { continue; }
        let ap = match st.m.schema.ident_of(a) { Some(k) => AP::Ident(k.clone()), None => AP::Id(a) };
        let have = st.m.values(e, a);
        let new = data_value(ctx, &at, &es);
        let vp = |v: &V| VP::Lit(v.clone());
        match ctx.rng.below(10) {
            0 | 1 if !have.is_empty() => out.push(Item::Ret(EP::Id(e), ap, vp(ctx.rng.pick(&have)))),
            2 if !have.is_empty() => out.push(Item::Add(EP::Id(e), ap, vp(ctx.rng.pick(&have)))),
            3 => out.push(Item::Ret(EP::Id(e), ap, vp(&new))),
            4 if !have.is_empty() => { out.push(Item::Ret(EP::Id(e), ap.clone(), vp(&have[0]))); if have[0] != new { out.push(Item::Add(EP::Id(e), ap, vp(&new))); } }
            _ => out.push(Item::Add(EP::Id(e), ap, vp(&new))),
        }
    }
    if out.is_empty() { return schema(ctx, &st.m); }
    out
}

fn schema(ctx: &mut Ctx, m: &Model) -> TxAst {
    let pal = live_pal(m);
    let mut rng = ctx.rng.clone();
    let mut t = schema_tx(&mut rng, m, &pal);
    while integral_double(&t) { t = schema_tx(&mut rng, m, &pal); }
    ctx.rng = rng;
    t
}

fn note_changes(st: &mut St, before: &Facts) {
    let mut r: Vec<Fact> = before.keys().filter(|k| !st.m.facts.contains_key(*k)).cloned().collect();
    r.extend(st.m.facts.keys().filter(|k| !before.contains_key(*k)).cloned());
    r.retain(|f| f.0 < TX0);
    if r.len() < 6 { r.extend(st.recent.iter().take(6).cloned()); }
    st.recent = r;
}

/// An attribute (or something that is not one), a direction and an action.
fn cache_op(ctx: &mut Ctx, st: &St) -> (String, i64, CacheDirection, CacheAction) {
    let all: Vec<i64> = st.m.schema.attrs.keys().cloned().filter(|a| attr_name(&st.m, *a).is_some()).collect();
    let user: Vec<i64> = all.iter().cloned().filter(|a| *a >= USER0).collect();
    let de = !st.cached.is_empty() && ctx.rng.pct(30);
    let cur: Vec<i64> = st.cached.iter().cloned().filter(|a| attr_name(&st.m, *a).is_some()).collect();
    let a = if de && !cur.is_empty() && ctx.rng.pct(85) { *ctx.rng.pick(&cur) } else if !user.is_empty() && ctx.rng.pct(92) { *ctx.rng.pick(&user) } else { *ctx.rng.pick(&all) };
    let dir = match ctx.rng.below(4) { 0 => CacheDirection::Forward, 1 => CacheDirection::Reverse, _ => CacheDirection::Both };
    if ctx.rng.pct(4) {
        let bogus: Vec<String> = st.m.schema.idents.iter().filter(|(_, i)| !st.m.schema.attrs.contains_key(i)).map(|(k, _)| k.clone()).collect();
        let k = if ctx.rng.pct(50) || bogus.is_empty() { ":no/such".to_string() } else { ctx.rng.pick(&bogus).clone() };
        return (k, 0, dir, CacheAction::Register);
    }
    (attr_name(&st.m, a).unwrap(), a, dir, if de { CacheAction::Deregister } else { CacheAction::Register })
}

fn settle_cache(st: &mut St, a: i64, reg: bool, r: Result<(), String>) -> R {
    match (a, r) {
        (0, Ok(())) => bad("caching something that is not an attribute succeeded"),
        (0, Err(_)) => Ok(()),
        (_, Err(e)) => bad(format!("cache operation failed: {}", e)),
        (a, Ok(())) => { if reg { st.cached.insert(a); } else { st.cached.remove(&a); } Ok(()) }
    }
}

fn conn_cache(ctx: &mut Ctx, real: &mut Real, st: &mut St) -> R {
    let (k, a, dir, act) = cache_op(ctx, st);
    let reg = match act { CacheAction::Register => true, _ => false };
    ctx.note(format!("cache {} {} {}", k, match dir { CacheDirection::Forward => "forward", CacheDirection::Reverse => "reverse", _ => "both" }, if reg { "on" } else { "off" }));
    let schema = real.conn.current_schema();
    let r = call("cache", || real.conn.cache(&mut real.sqlite, &schema, &kw(&k), dir, act).map_err(|e| e.to_string()))?;
    ctx.count("cache_operations");
    settle_cache(st, a, reg, r)
}

/// Everything that the connection's cache holds, entry by entry.
fn contents(ctx: &mut Ctx, real: &Real, st: &St) -> R {
    let (cache, schema) = (real.conn.current_cache(), real.conn.current_schema());
    let mut by_a: BTreeMap<i64, Vec<&Fact>> = BTreeMap::new();
    for f in st.m.facts.keys() { by_a.entry(f.1).or_default().push(f); }
    let mut entries = 0;
    for (a, at) in &st.m.schema.attrs {
        let none = vec![];
        let facts = by_a.get(a).unwrap_or(&none);
        if cache.is_attribute_cached_forward(*a) {
            let mut want: BTreeMap<i64, Vec<V>> = BTreeMap::new();
            for f in facts { want.entry(f.0).or_default().push(f.2.clone()); }
            let mut got: BTreeMap<i64, Vec<V>> = BTreeMap::new();
            if at.many {
                if cache.value_pairs(&*schema, *a).is_some() { return bad(format!("the cache holds single values of {}, which has many", a)); }
                if let Some(p) = cache.values_pairs(&*schema, *a) { for (e, vs) in p { if !vs.is_empty() { got.insert(*e, vs.iter().map(V::of).collect()); } } }
            } else {
                if cache.values_pairs(&*schema, *a).is_some() { return bad(format!("the cache holds collections of values of {}, which has one", a)); }
                if let Some(p) = cache.value_pairs(&*schema, *a) { for (e, v) in p { if let Some(v) = v { got.insert(*e, vec![V::of(v)]); } } }
            }
            for l in want.values_mut().chain(got.values_mut()) { l.sort(); }
            entries += got.len();
            if want != got {
                let e = *want.keys().chain(got.keys()).find(|e| want.get(e) != got.get(e)).unwrap();
                return bad(format!("the cache holds {:?} for {} {}, stored is {:?}", got.get(&e), e, a, want.get(&e)));
            }
        }
        if cache.is_attribute_cached_reverse(*a) {
            let mut want: BTreeMap<V, BTreeSet<i64>> = BTreeMap::new();
            for f in facts { want.entry(f.2.clone()).or_default().insert(f.0); }
            for f in st.recent.iter().filter(|f| f.1 == *a) { want.entry(f.2.clone()).or_default(); }
            for (v, es) in want {
                let got: BTreeSet<i64> = if at.unique != Uniq::No { cache.get_entid_for_value(*a, &v.typed()).into_iter().collect() } else { cache.get_entids_for_value(*a, &v.typed()).cloned().unwrap_or_default() };
                entries += 1;
                if got != es { return bad(format!("the cache finds {:?} by {} {}, stored are {:?}", got, a, v, es)); }
            }
        }
    }
    ctx.add("cache_entries_checked", entries as u64);
    Ok(())
}

/// A transaction in progress with writes, cache operations and reads.
fn episode(ctx: &mut Ctx, real: &mut Real, st: &mut St) -> R {
    let held = if ctx.rng.pct(25) { Some((real.conn.current_cache(), real.conn.current_schema(), st.m.facts.clone(), st.cached.clone())) } else { None };
    let mut s2 = St { m: st.m.clone(), cached: st.cached.clone(), recent: st.recent.clone() };
    let end = ctx.rng.weighted(&[60, 20, 20]);
    {
        let mut ip = match real.conn.begin_transaction(&mut real.sqlite) { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
        ctx.note(format!("begin, holding the cache: {}", held.is_some()));
        let mut marks = Marks::new();
        let mut then: Vec<BTreeSet<i64>> = vec![];
        let with_marks = ctx.rng.pct(25);
        for _ in 0..(1 + ctx.rng.below(4) + if with_marks { 3 } else { 0 }) {
            match if with_marks { marks.act(ctx, &mut ip, &mut s2.m)? } else { Marked::No } {
                Marked::No => {}
                Marked::Set => { then.push(s2.cached.clone()); continue; }
                Marked::Released(i) => { then.truncate(i); continue; }
                Marked::Back(i) => { then.truncate(i + 1); s2.cached = then[i].clone(); verify(ctx, &ip, &s2, 6)?; continue; }
            }
            if ctx.rng.pct(3) {
                ctx.note(" cache nothing at all");
                ip.cache.unregister_all();
                s2.cached.clear();
                if ip.cache.has_cached_attributes() { return bad("something is cached although nothing should be"); }
            } else if ctx.rng.pct(30) {
                let (k, a, dir, act) = cache_op(ctx, &s2);
                let reg = match act { CacheAction::Register => true, _ => false };
                ctx.note(format!(" cache {} {} {}", k, match dir { CacheDirection::Forward => "forward", CacheDirection::Reverse => "reverse", _ => "both" }, if reg { "on" } else { "off" }));
                let r = call("cache", || ip.cache(&kw(&k), dir, act).map_err(|e| e.to_string()))?;
                ctx.count("cache_operations_in_progress");
                settle_cache(&mut s2, a, reg, r)?;
            } else {
                let t = if ctx.rng.pct(8) { schema(ctx, &s2.m) } else { mutate(ctx, &s2) };
                let text = tx_text(&t);
                ctx.note(format!(" step {}", text));
                let out = s2.m.eval(&t);
                let before = s2.m.facts.clone();
                let got = p_build::send(ctx, &mut ip, &s2.m, &t, &text)?;
                settle_on(ctx, &ip.transaction, &mut s2.m, out, got)?;
                note_changes(&mut s2, &before);
            }
            verify(ctx, &ip, &s2, 4)?;
            if ctx.rng.pct(4) { let on = ctx.rng.pct(50); ip.use_caching(on); ctx.note(format!(" use caches: {}", on)); }
        }
        let r = match end {
            0 => call("commit", || ip.commit().map_err(|e| e.to_string()))?,
            1 => call("rollback", || ip.rollback().map_err(|e| e.to_string()))?,
            _ => { drop(ip); Ok(()) }
        };
        ctx.note(["commit", "rollback", "drop"][end]);
        if let Err(e) = r { return bad(format!("ending the transaction failed: {}", e)); }
    }
    ctx.count(["committed", "rolled_back", "dropped"][end]);
    if end == 0 { *st = s2; } else { st.recent = s2.recent; }
    if let Some((cache, schema, facts, cached)) = held {
        // Whoever had the cache before still sees the store as it was then.
        for a in cached {
            if !cache.is_attribute_cached_forward(a) { continue; }
            let multi = schema.attribute_for_entid(a).map_or(false, |x| x.multival);
            let mut want: BTreeMap<i64, BTreeSet<V>> = BTreeMap::new();
            for f in facts.keys().filter(|f| f.1 == a) { want.entry(f.0).or_default().insert(f.2.clone()); }
            let mut es: BTreeSet<i64> = want.keys().cloned().collect();
            es.extend(st.recent.iter().filter(|f| f.1 == a).map(|f| f.0));
            for e in es {
                let got: BTreeSet<V> = if multi { cache.get_values_for_entid(&*schema, a, e).map_or(BTreeSet::new(), |v| v.iter().map(V::of).collect()) } else { cache.get_value_for_entid(&*schema, a, e).iter().map(|v| V::of(v)).collect() };
                let w = want.get(&e).cloned().unwrap_or_default();
                if got != w { return bad(format!("a cache taken before the transaction now says {:?} for {} {} (it was {:?})", got, e, a, w)); }
                ctx.count("held_cache_reads");
            }
        }
    }
    Ok(())
}

fn p13(ctx: &mut Ctx) -> R {
    let nf = 10 + ctx.rng.below(40);
    let (mut real, m, _) = populated(ctx, nf)?;
    let mut st = St { m, cached: BTreeSet::new(), recent: vec![] };
    for _ in 0..(1 + ctx.rng.below(5)) { conn_cache(ctx, &mut real, &mut st)?; }
    verify(ctx, &real, &st, 4)?;
    for _ in 0..10 {
        match ctx.rng.weighted(&[30, 15, 47, 8]) {
            0 | 3 if false => (),
            1 => conn_cache(ctx, &mut real, &mut st)?,
            2 => episode(ctx, &mut real, &mut st)?,
            k => {
                let t = if k == 3 { schema(ctx, &st.m) } else { mutate(ctx, &st) };
                let before = st.m.facts.clone();
                step(ctx, &mut real, &mut st.m, &t)?;
                note_changes(&mut st, &before);
            }
        }
        verify(ctx, &real, &st, 5)?;
        contents(ctx, &real, &st)?;
    }
    Ok(())
}
