//! P01–P03: what a transaction does to the facts, the log, and the identities in it.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::real::*;
use crate::val::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", rule: "A distinct (state, transaction) pair judged by the reference model, where the transaction changed facts or was refused.",
            case: p01, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 500, workers: 8,
            assumptions: &["Transactions whose outcome the language leaves open (transitive merging of new tempids) are not judged."] },
        Prop { id: "P02", rule: "A distinct committed transaction whose log entry was compared with the net change, in a history whose every prefix was replayed.",
            case: p02, quick: (3000, 35), thorough: (400_000, 600), min_nontrivial: 500, workers: 8, assumptions: &[] },
        Prop { id: "P03", rule: "A distinct transaction using tempids, upserts or lookup references whose resolution was compared with the reference model.",
            case: p03, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 500, workers: 8,
            assumptions: &["Transactions whose outcome the language leaves open (transitive merging of new tempids) are not judged."] },
    ]
}

/// Fresh in-memory store with the palette installed on both sides.
pub fn start(ctx: &mut Ctx, path: &str) -> R<(Real, Model, Pal)> {
    let mut rng = ctx.rng.clone();
    let pal = palette(&mut rng);
    ctx.rng = rng;
    let mut real = Real::open(path)?;
    small_statements(ctx, &real);
    let mut m = real.model()?;
    if step(ctx, &mut real, &mut m, &pal.install())? != Did::Accepted { return bad("schema installation not accepted"); }
    Ok((real, m, pal))
}

/// Sometimes allow few parameters per statement, so that transactions are written in several chunks.
pub fn small_statements(ctx: &mut Ctx, real: &Real) {
    if ctx.rng.pct(30) {
        let n = *ctx.rng.pick(&[60, 61, 96, 97, 133]);
        real.sqlite.set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
        ctx.note(format!("at most {} parameters per statement", n));
        ctx.count("stores_with_small_statements");
    }
}

pub fn gen_tx(ctx: &mut Ctx, m: &Model, pal: &Pal, o: &TxOpts) -> TxAst {
    let mut rng = ctx.rng.clone();
    let t = G::new(&mut rng, m, pal, o).tx();
    ctx.rng = rng;
    t
}

fn net_changed(m: &Model) -> bool { m.log.last().map_or(false, |l| l.1.len() > 1) }

/// Change the uniqueness, indexing or cardinality of attributes that have facts.
fn strengthen(ctx: &mut Ctx, m: &Model) -> TxAst {
    let mut t = vec![];
    let used: Vec<(i64, Attr)> = m.schema.attrs.iter().filter(|(k, a)| **k >= USER0 && !a.fulltext && m.facts.keys().any(|f| f.1 == **k)).map(|(k, a)| (*k, a.clone())).collect();
    for (k, a) in used {
        if !ctx.rng.pct(25) { continue; }
        let kw = |s: &str| VP::Lit(V::Kw(s.into()));
        let ap = |s: &str| AP::Ident(s.into());
        let mut add = |n: &str, v: VP| t.push(Item::Add(EP::Id(k), ap(n), v));
        match ctx.rng.below(5) {
            0 | 1 => { if !a.index || ctx.rng.pct(20) { add(":db/index", VP::Lit(V::Bool(true))); } add(":db/unique", kw(if ctx.rng.pct(75) { ":db.unique/identity" } else { ":db.unique/value" })); }
            2 => if a.unique != Uniq::No { add(":db/unique", kw(if a.unique == Uniq::Value { ":db.unique/identity" } else { ":db.unique/value" })) } else { add(":db/index", VP::Lit(V::Bool(!a.index))) },
            3 => add(":db/cardinality", kw(":db.cardinality/many")),
            _ => if !a.many { } else { add(":db/cardinality", kw(":db.cardinality/one")) },
        }
    }
    t
}

fn mixed(ctx: &mut Ctx, o: &TxOpts, n: usize) -> R {
    let (mut real, mut m, mut pal) = start(ctx, "")?;
    let alter = ctx.rng.pct(30);
    let big = TxOpts { max_items: 60, spice: 2, ..*o };
    for i in 0..n {
        if alter && i > 2 && ctx.rng.pct(30) {
            // One attribute at a time, so that one impossible change doesn't stop the others.
            for it in strengthen(ctx, &m).chunks(2).map(|c| c.to_vec()).collect::<Vec<_>>() {
                if step(ctx, &mut real, &mut m, &it)? == Did::Accepted { ctx.count("alterations"); }
            }
            pal = crate::p_store::live_pal(&m);
        }
        let t = if ctx.rng.pct(7) { gen_tx(ctx, &m, &pal, &big) } else { gen_tx(ctx, &m, &pal, o) };
        let d = step(ctx, &mut real, &mut m, &t)?;
        let key = format!("{}|{}", m.facts.len(), tx_text(&t));
        ctx.eval(d == Did::Refused || (d == Did::Accepted && net_changed(&m)), &key);
        if d == Did::Accepted && i < 3 { ctx.sample(|| tx_text(&t)); }
        if d == Did::Refused {
            // A refusal must change nothing.
            let f = real.facts()?;
            if let Some(x) = diff_facts(&m.facts, &f) { return bad(format!("facts changed by a refused transaction: {}", x)); }
        }
    }
    let f = facts_by_query(&real)?;
    if let Some(x) = diff_facts(&m.facts, &f) { return bad(format!("queried facts differ: {}", x)); }
    Ok(())
}

fn kw_lit(s: &str) -> VP { VP::Lit(V::Kw(s.into())) }
pub fn attr_place(s: &str) -> AP { AP::Ident(s.into()) }
/// A store with a few attributes to hold very many values.
pub fn large_store(ctx: &mut Ctx) -> R<(Real, Model)> {
    let mut real = Real::memory()?;
    let mut m = real.model()?;
    let (kw, ap) = (kw_lit, attr_place);
    let mut t: TxAst = vec![];
    for (i, many, unique, ft) in [(":l/many", true, false, false), (":l/one", false, false, false), (":l/id", false, true, false), (":l/texts", true, false, true), (":l/text", false, false, true)].iter() {
        let mut kvs = vec![(ap(":db/ident"), kw(i)), (ap(":db/valueType"), kw(if *ft { ":db.type/string" } else { ":db.type/long" })), (ap(":db/cardinality"), kw(if *many { ":db.cardinality/many" } else { ":db.cardinality/one" }))];
        if *unique { kvs.push((ap(":db/index"), VP::Lit(V::Bool(true)))); kvs.push((ap(":db/unique"), kw(":db.unique/identity"))); }
        if *ft { kvs.push((ap(":db/index"), VP::Lit(V::Bool(true)))); kvs.push((ap(":db/fulltext"), VP::Lit(V::Bool(true)))); }
        t.push(Item::Map(MapN { id: Some(EP::Temp(i[1..].into())), kvs }));
    }
    step(ctx, &mut real, &mut m, &t)?;
    Ok((real, m))
}
pub fn large_step(ctx: &mut Ctx, real: &mut Real, m: &mut Model, t: TxAst, what: &str) -> R {
    ctx.trace.clear();
    if step(ctx, real, m, &t)? != Did::Accepted { return bad(format!("{}: refused", what)); }
    ctx.eval(true, what);
    ctx.trace.clear();
    Ok(())
}
/// Transactions larger than what SQLite takes in one statement.
fn large(ctx: &mut Ctx) -> R {
    let (mut real, mut m) = large_store(ctx)?;
    let ap = attr_place;
    let long = |i: usize| VP::Lit(V::Long(i as i64));
    for n in [5460usize, 5461, 5462].iter().cloned() {
        let e = EP::Temp("e".into());
        let t: TxAst = (0..n).map(|i| Item::Add(e.clone(), ap(":l/many"), long(i))).collect();
        large_step(ctx, &mut real, &mut m, t, &format!("{} values", n))?;
    }
    for round in 0..2 {
        // New entities with identities, then again by identity with another value.
        let t: TxAst = (0..5461).flat_map(|i| { let e = EP::Temp(format!("e{}", i)); vec![Item::Add(e.clone(), ap(":l/id"), long(i)), Item::Add(e, ap(":l/one"), long(i + round))] }).collect();
        large_step(ctx, &mut real, &mut m, t, &format!("5461 entities, {}", round))?;
    }
    Ok(())
}
/// More identities and lookup references than are looked up at once.
fn many_identities(ctx: &mut Ctx) -> R {
    let (mut real, mut m) = large_store(ctx)?;
    let ap = attr_place;
    let long = |i: usize| VP::Lit(V::Long(i as i64));
    let t: TxAst = (0..8193).map(|i| Item::Add(EP::Temp(format!("e{}", i)), ap(":l/id"), long(i))).collect();
    large_step(ctx, &mut real, &mut m, t, "8193 identities")?;
    let t: TxAst = (0..8193).map(|i| { let e = EP::Temp(format!("e{}", i)); if i % 3 == 0 { Item::Add(EP::Lookup(ap(":l/id"), V::Long(i as i64)), ap(":l/one"), long(i)) } else { Item::Map(MapN { id: Some(e), kvs: vec![(ap(":l/id"), long(i)), (ap(":l/one"), long(i))] }) } }).collect();
    large_step(ctx, &mut real, &mut m, t, "8193 identities again")
}

fn p01(ctx: &mut Ctx) -> R { if ctx.index == 0 { large(ctx)?; } mixed(ctx, &TxOpts::default(), 14) }

fn p03(ctx: &mut Ctx) -> R {
    if ctx.index == 0 { many_identities(ctx)?; }
    mixed(ctx, &TxOpts { lookups: 30, retracts: 15, maps: 35, ..TxOpts::default() }, 14)
}

fn p02(ctx: &mut Ctx) -> R {
    let (mut real, mut m, pal) = start(ctx, "")?;
    let o = TxOpts { spice: 8, retracts: 40, ..TxOpts::default() };
    for _ in 0..14 {
        let t = gen_tx(ctx, &m, &pal, &o);
        let before = m.facts.clone();
        let d = step(ctx, &mut real, &mut m, &t)?;
        check_log(&real.sqlite, &m)?;
        if d == Did::Accepted { ctx.eval(net_changed(&m), &format!("{}|{}", before.len(), tx_text(&t))); }
    }
    let log = real.log()?;
    // Replay the stored log, every prefix, against the facts recorded by the model.
    let all = match Model::replay_log(&log) { Ok(f) => f, Err(e) => return bad(format!("log does not replay: {}", e)) };
    let f = real.facts()?;
    if let Some(x) = diff_facts(&all, &f) { return bad(format!("facts differ from the replayed log: {}", x)); }
    ctx.sample(|| format!("{} transactions, last entry {:?}", log.len(), log.last()));
    Ok(())
}
