//! P04 constraints, P05 no trace, P06 reopening, P08 live schema, P09 identifiers.
use crate::fw::*;
use crate::gen::*;
use crate::p_build;
use crate::model::*;
use crate::p_tx::{gen_tx, start};
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use mentat::{InProgress, Queryable};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P04", rule: "A distinct accepted or refused step (data, unique-value shuffle or schema alteration) after which every stored fact was scanned against the schema.",
            case: p04, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 500, workers: 8, assumptions: &[] },
        Prop { id: "P05", rule: "A distinct refused, rolled back, dropped or committed episode compared with a raw dump from before and with a twin store that never had it.",
            case: p05, quick: (2000, 35), thorough: (400_000, 600), min_nontrivial: 300, workers: 8, assumptions: &[] },
        Prop { id: "P06", rule: "A distinct step taken on a store reopened during its history, compared with a twin that was never closed.",
            case: p06, quick: (1500, 35), thorough: (400_000, 600), min_nontrivial: 300, workers: 8, assumptions: &[] },
        Prop { id: "P08", rule: "A distinct schema-changing transaction after which live, materialised, derived and reopened schema were compared.",
            case: p08, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 500, workers: 8, assumptions: &[] },
        Prop { id: "P09", rule: "A distinct episode (transaction, refusal, rollback, multi-step commit, reopen) whose identifiers were checked against every identifier ever used.",
            case: p09, quick: (2000, 35), thorough: (400_000, 600), min_nontrivial: 300, workers: 8, assumptions: &["Identifiers handed out by rolled back transactions were never committed, so they may be handed out again."] },
    ]
}

/// The palette as the schema now is (attributes get renamed and altered).
pub fn live_pal(m: &Model) -> Pal {
    let mut defs = vec![];
    for (k, id) in &m.schema.idents {
        if *id < USER0 { continue; }
        if let Some(a) = m.schema.attrs.get(id) { defs.push(AttrDef { ident: k.clone(), attr: a.clone() }); }
    }
    Pal { defs }
}

const DBU: [&str; 2] = [":db.unique/value", ":db.unique/identity"];

/// One schema-changing transaction, legal or not.
pub fn schema_tx(rng: &mut Rng, m: &Model, pal: &Pal) -> TxAst {
    let kw = |s: &str| VP::Lit(V::Kw(s.to_string()));
    let ap = |s: &str| AP::Ident(s.to_string());
    let attrs: Vec<(i64, &Attr)> = m.schema.attrs.iter().filter(|(k, _)| **k >= USER0).map(|(k, a)| (*k, a)).collect();
    if attrs.is_empty() { return vec![Item::Add(EP::Temp("n".into()), ap(":db/ident"), kw(":ent/x"))]; }
    let mut out: TxAst = vec![];
    let n = 1 + rng.below(2);
    for _ in 0..n {
        // favour attributes that have data
        let used: Vec<(i64, &Attr)> = attrs.iter().filter(|(k, _)| m.facts.keys().any(|f| f.1 == *k)).cloned().collect();
        let (a, at) = if !used.is_empty() && rng.pct(65) { *rng.pick(&used) } else { *rng.pick(&attrs) };
        let name = m.schema.ident_of(a).cloned();
        let e = match name { Some(ref s) if rng.pct(70) => EP::Ident(s.clone()), _ => EP::Id(a) };
        let named: Vec<(String, i64)> = m.schema.idents.iter().filter(|(_, i)| **i >= USER0).map(|(k, i)| (k.clone(), *i)).collect();
        match rng.below(24) {
            0 | 1 => out.push(Item::Add(e, ap(":db/cardinality"), kw(if at.many { ":db.cardinality/one" } else { ":db.cardinality/many" }))),
            2 | 3 => { if !at.index && rng.pct(80) { out.push(Item::Add(e.clone(), ap(":db/index"), VP::Lit(V::Bool(true)))); } out.push(Item::Add(e, ap(":db/unique"), kw(*rng.pick(&DBU)))) }
            4 => { let u = match at.unique { Uniq::Identity => DBU[1], Uniq::Value => DBU[0], Uniq::No => *rng.pick(&DBU) }; out.push(Item::Ret(e, ap(":db/unique"), kw(u))) }
            5 => out.push(Item::Add(e, ap(":db/index"), VP::Lit(V::Bool(!at.index)))),
            6 => out.push(Item::Add(e, ap(":db/noHistory"), VP::Lit(V::Bool(!at.no_history)))),
            7 => out.push(Item::Add(e, ap(":db/isComponent"), VP::Lit(V::Bool(!at.component)))),
            8 => out.push(Item::Ret(e, ap(":db/isComponent"), VP::Lit(V::Bool(at.component)))),
            9 => out.push(Item::Add(e, ap(":db/valueType"), kw(rng.pick(&ALL_VT).kw()))),
            10 => out.push(Item::Add(e, ap(":db/fulltext"), VP::Lit(V::Bool(!at.fulltext)))),
            11 => { let k = format!(":ren/r{}", rng.below(6)); out.push(Item::Add(e, ap(":db/ident"), kw(&k))) }
            12 => {
                // move or swap idents
                if named.len() < 2 { continue; }
                let x = rng.pick(&named).clone();
                let y = rng.pick(&named).clone();
                match rng.below(5) {
                    0 => { out.push(Item::Add(EP::Id(x.1), ap(":db/ident"), kw(&y.0))); out.push(Item::Add(EP::Id(y.1), ap(":db/ident"), kw(&x.0))); }
                    1 => { out.push(Item::Add(EP::Id(x.1), ap(":db/ident"), kw(&y.0))); out.push(Item::Add(EP::Id(y.1), ap(":db/ident"), kw(&format!(":ren/s{}", rng.below(6))))); }
                    2 => { out.push(Item::Ret(EP::Id(x.1), ap(":db/ident"), kw(&x.0))); let es = user_entities(m); if !es.is_empty() { out.push(Item::Add(EP::Id(*rng.pick(&es)), ap(":db/ident"), kw(&x.0))); } }
                    3 => { out.push(Item::Add(EP::Id(x.1), ap(":db/ident"), kw(&y.0))); out.push(Item::Ret(EP::Id(y.1), ap(":db/ident"), kw(&y.0))); }
                    _ => { let z = rng.pick(&named).clone(); out.push(Item::Add(EP::Id(x.1), ap(":db/ident"), kw(&y.0))); out.push(Item::Add(EP::Id(y.1), ap(":db/ident"), kw(&z.0))); out.push(Item::Add(EP::Id(z.1), ap(":db/ident"), kw(&x.0))); }
                }
            }
            13 => { let es = user_entities(m); if !es.is_empty() { out.push(Item::Add(EP::Id(*rng.pick(&es)), ap(":db/ident"), kw(&format!(":ent/e{}", rng.below(5))))); } }
            14 => { if let Some(s) = name { out.push(Item::Ret(EP::Id(a), ap(":db/ident"), kw(&s))); } }
            15 => {
                // remove an attribute, completely or partially; facts of full-text attributes can't be told from others afterwards
                let free: Vec<(i64, &Attr)> = attrs.iter().filter(|(k, at)| !m.facts.keys().any(|f| f.1 == *k) || !at.fulltext && rng.pct(30)).cloned().collect();
                if free.is_empty() { continue; }
                let (a, at) = *rng.pick(&free);
                let full = rng.pct(70);
                let b = |k: &str| m.boot.get(k);
                for (f, _) in m.facts.iter().filter(|(f, _)| f.0 == a) {
                    let essential = [b(":db/ident"), b(":db/valueType"), b(":db/cardinality")].contains(&f.1);
                    if full && (essential || rng.pct(80)) || !full && rng.pct(50) { out.push(Item::Ret(EP::Id(a), AP::Id(f.1), VP::Lit(f.2.clone()))); }
                }
                let _ = at;
            }
            16 | 17 => {
                let vt = *rng.pick(&ALL_VT);
                let unique = *rng.pick(&[Uniq::No, Uniq::No, Uniq::Value, Uniq::Identity]);
                let d = AttrDef { ident: format!(":new/a{}", rng.below(8)), attr: Attr { vt, many: rng.pct(40), unique, index: unique != Uniq::No || rng.pct(30), fulltext: vt == VT::Str && rng.pct(20), component: vt == VT::Ref && rng.pct(30), no_history: rng.pct(10) } };
                let mut d = d;
                if d.attr.fulltext { d.attr.index = true; }
                let mut it = install_item(30 + out.len(), &d);
                if let Item::Map(ref mut mp) = it {
                    if rng.pct(30) { let i = rng.below(mp.kvs.len()); mp.kvs.remove(i); }
                    if rng.pct(10) { mp.id = Some(match rng.pct(50) { true => EP::Id(a), _ => EP::Temp("attr90".into()) }); }
                }
                out.push(it);
            }
            18 => {
                // malformed installation
                let mut d = rng.pick(&pal.defs).clone();
                d.ident = format!(":bad/b{}", rng.below(5));
                match rng.below(4) {
                    0 => { d.attr.unique = Uniq::Identity; d.attr.index = false; }
                    1 => { d.attr.fulltext = true; d.attr.index = rng.pct(50); }
                    2 => d.attr.component = true,
                    _ => (),
                }
                out.push(install_item(60 + out.len(), &d));
            }
            19 => {
                // two entities claiming one ident
                let k = format!(":dup/d{}", rng.below(3));
                let es = user_entities(m);
                if es.len() < 2 { continue; }
                out.push(Item::Add(EP::Id(*rng.pick(&es)), ap(":db/ident"), kw(&k)));
                out.push(Item::Add(EP::Id(*rng.pick(&es)), ap(":db/ident"), kw(&k)));
            }
            22 | 23 => {
                // install a removed attribute anew
                let vt = m.boot.get(":db/valueType");
                let gone: Vec<i64> = m.log.iter().flat_map(|l| l.1.iter()).filter(|x| x.1 == vt && !x.3 && !m.schema.attrs.contains_key(&x.0)).map(|x| x.0).collect();
                if gone.is_empty() { continue; }
                let e = *rng.pick(&gone);
                let old = m.log.iter().rev().flat_map(|l| l.1.iter()).find(|x| x.0 == e && x.1 == vt && !x.3).map(|x| x.2.clone());
                let mut d = rng.pick(&pal.defs).clone();
                d.ident = format!(":re/a{}", rng.below(4));
                if rng.pct(75) { if let (Some(V::Ref(r)), false) = (old, d.attr.fulltext || d.attr.component) { d.attr.vt = ALL_VT.iter().cloned().find(|t| m.boot.get(t.kw()) == r).unwrap_or(d.attr.vt); } }
                let mut it = install_item(70, &d);
                if let Item::Map(ref mut mp) = it { mp.id = Some(EP::Id(e)); if rng.pct(40) { let i = rng.below(mp.kvs.len()); mp.kvs.remove(i); } }
                out.push(it);
            }
            20 => { // alteration together with data for the attribute
                out.push(Item::Add(e.clone(), ap(":db/cardinality"), kw(if rng.pct(50) { ":db.cardinality/one" } else { ":db.cardinality/many" })));
                if at.vt != VT::Ref { let v = scalar(rng, at); let es = user_entities(m); if !es.is_empty() { out.push(Item::Add(EP::Id(*rng.pick(&es)), AP::Id(a), VP::Lit(v))); } }
            }
            _ => { let d = *rng.pick(&[":db/valueType", ":db/cardinality", ":db/index", ":db/fulltext", ":db/noHistory"]); let id = m.boot.get(d); if let Some((f, _)) = m.facts.iter().find(|(f, _)| f.0 == a && f.1 == id) { out.push(Item::Ret(e, ap(d), VP::Lit(f.2.clone()))); } }
        }
    }
    if out.is_empty() { out.push(Item::Add(EP::Temp("n".into()), ap(":db/ident"), kw(":ent/x"))); }
    out
}

fn gen_schema_tx(ctx: &mut Ctx, m: &Model) -> TxAst {
    let pal = live_pal(m);
    let mut rng = ctx.rng.clone();
    let t = schema_tx(&mut rng, m, &pal);
    ctx.rng = rng;
    t
}

/// Data or schema transaction against the schema as it is.
pub fn gen_any(ctx: &mut Ctx, m: &Model, schema_pct: u32, o: &TxOpts) -> TxAst {
    let pal = live_pal(m);
    if ctx.rng.pct(schema_pct) || pal.by(|a| a.unique == Uniq::Identity && a.vt != VT::Ref).is_empty() { gen_schema_tx(ctx, m) } else { gen_tx(ctx, m, &pal, o) }
}

/// Every stored fact against the live schema, scanned directly.
pub fn scan(real: &Real) -> R {
    let s = real.schema();
    let f = real.facts()?;
    for c in &[check_types(&s, &f), check_card(&s, &f), check_unique(&s, &f)] {
        if let Err(e) = c { return bad(format!("stored facts break the schema: {}", e)); }
    }
    Ok(())
}

fn p04(ctx: &mut Ctx) -> R {
    let (mut real, mut m, _) = start(ctx, "")?;
    let o = TxOpts { spice: 25, retracts: 20, idents: false, ..TxOpts::default() };
    for i in 0..18 {
        let t = gen_any(ctx, &m, if i < 4 { 5 } else { 40 }, &o);
        let d = step(ctx, &mut real, &mut m, &t)?;
        scan(&real)?;
        ctx.add("facts_scanned", m.facts.len() as u64);
        ctx.eval(d != Did::Open, &format!("{:?}|{}|{}", d, m.facts.len(), tx_text(&t)));
        if d == Did::Accepted && i < 12 { ctx.sample(|| tx_text(&t)); }
    }
    gone_wrong(ctx, &mut real, &m, &o)
}

const ODD: [&str; 46] = [":db/add", ":db/retract", ":db/id", ":db/ident", ":db/valueType", ":db/cardinality", ":db/unique", ":db/index", ":db/fulltext", ":db/isComponent", ":db/noHistory", ":db/txInstant", ":db/doc", ":db.type/ref", ":db.type/string", ":db.type/long", ":db.cardinality/one", ":db.cardinality/many",
    ":db.unique/identity", ":db.unique/value", ":k/new", "\"n\"", "\"m\"", "\"\"", "1", "0", "-1", "65600", "268435456", "9223372036854775807", "1N", "1.5", "true", "false", "nil", "#inst \"2020-01-01T00:00:00Z\"", "#uuid \"00000000-0000-0000-0000-000000000000\"", "[", "]", "{", "}", "(", ")", "lookup-ref", "transaction-tx", "#{1}"];

/// Transactions gone wrong somewhere are applied whole or refused without a trace, and what the store
/// then holds is consistent, whatever they might mean.
fn gone_wrong(ctx: &mut Ctx, real: &mut Real, m: &Model, o: &TxOpts) -> R {
    let n: usize = std::env::var("MV_GW").ok().and_then(|x| x.parse().ok()).unwrap_or(12);
    let mut facts = real.facts()?;
    for _ in 0..n {
        let t = gen_any(ctx, m, 25, o);
        let mut toks = crate::p_edn::tokens(&tx_text(&t));
        for _ in 0..1 + ctx.rng.below(3) {
            if toks.len() < 4 { break; }
            let at = |ctx: &mut Ctx, n: usize| 1 + ctx.rng.below(n - 2);
            let i = at(ctx, toks.len());
            let odd = if ctx.rng.pct(40) { let j = at(ctx, toks.len()); toks[j].clone() } else { ctx.rng.pick(&ODD).to_string() };
            match ctx.rng.below(6) {
                0 => { toks.remove(i); }
                1 => toks.insert(i, odd),
                2 => { let j = at(ctx, toks.len()); toks.swap(i, j); }
                _ => toks[i] = odd,
            }
        }
        let text = toks.join(" ");
        ctx.note(format!("gone wrong: {}", text));
        let (schema, last) = (real.schema(), real.conn.last_tx_id());
        let r = real.transact(&text)?;
        let got = real.facts()?;
        match r {
            Err(_) => {
                ctx.count("wrong_transactions_refused");
                if let Some(x) = diff_facts(&facts, &got) { return bad(format!("refused, yet changed the facts: {}", x)); }
                if real.schema() != schema || real.conn.last_tx_id() != last { return bad("refused, yet changed the schema or the next transaction's identity"); }
            }
            Ok(r) => {
                ctx.count("wrong_transactions_applied");
                ctx.note("  applied");
                if r.tx_id <= last { return bad(format!("transaction {} after {}", r.tx_id, last)); }
                // What the store's own vocabulary means is not for transactions to redefine.
                let core = |f: &&Fact| f.0 < USER0 && f.1 < USER0 && f.1 != m.schema.idents[":db/doc"];
                if facts.keys().filter(core).ne(got.keys().filter(core)) { ctx.count("own_vocabulary_redefined"); return Ok(()); }
                facts = got;
            }
        }
        scan(real)?;
        check_schema_internal(&real.conn.current_schema())?;
        let d = derive_schema(&m.boot, &facts);
        if real.schema() != d { return bad(format!("live schema differs from the stored facts: {}", diff_schema(&d, &real.schema()))); }
        ctx.eval(true, &text);
    }
    match Model::replay_log(&real.log()?) { Err(e) => bad(format!("the log does not replay: {}", e)), Ok(f) => match diff_facts(&f, &facts) { Some(x) => bad(format!("the facts are not the log replayed: {}", x)), None => Ok(()) } }
}

/// Live schema = derived from stored facts = materialised tables = model, and internally consistent.
pub fn schema_agrees(real: &Real, m: &Model) -> R {
    let live = real.schema();
    if live != m.schema { return bad(format!("live schema differs from what the transactions describe: {}", diff_schema(&m.schema, &live))); }
    check_schema_internal(&real.conn.current_schema())?;
    let f = real.facts()?;
    let d = derive_schema(&m.boot, &f);
    if live != d { return bad(format!("live schema differs from the stored facts: {}", diff_schema(&d, &live))); }
    let (ids, sch) = metadata_tables(&real.sqlite)?;
    let want_ids: BTreeSet<Fact> = f.keys().filter(|x| x.1 == DB_IDENT).cloned().collect();
    if ids != want_ids { return bad(format!("materialised idents differ: want {:?} got {:?}", want_ids.difference(&ids).collect::<Vec<_>>(), ids.difference(&want_ids).collect::<Vec<_>>())); }
    // The materialised table may spell a default out (or keep it spelled out); its meaning must agree.
    let mut sf: Facts = sch.into_iter().map(|k| (k, 0)).collect();
    for i in ids { sf.insert(i, 0); }
    let t = derive_schema(&m.boot, &sf);
    if t.attrs != d.attrs { return bad(format!("materialised schema differs: {}", diff_schema(&d, &t))); }
    Ok(())
}

pub fn diff_schema(want: &Schema, got: &Schema) -> String {
    let mut o = vec![];
    for (k, a) in &want.attrs { if got.attrs.get(k) != Some(a) { o.push(format!("attribute {}: want {:?} got {:?}", k, a, got.attrs.get(k))); } }
    for k in got.attrs.keys() { if !want.attrs.contains_key(k) { o.push(format!("unexpected attribute {}", k)); } }
    for (k, i) in &want.idents { if got.idents.get(k) != Some(i) { o.push(format!("ident {}: want {} got {:?}", k, i, got.idents.get(k))); } }
    for k in got.idents.keys() { if !want.idents.contains_key(k) { o.push(format!("unexpected ident {}", k)); } }
    o.truncate(8);
    o.join("; ")
}

fn p08(ctx: &mut Ctx) -> R {
    let file = if ctx.rng.pct(15) { Some(ctx.file("s.db")) } else { None };
    if let Some(ref f) = file { let _ = std::fs::remove_file(f); }
    let (mut real, mut m, _) = start(ctx, file.as_ref().map_or("", |f| f.to_str().unwrap()))?;
    let o = TxOpts { spice: 3, idents: true, ..TxOpts::default() };
    for i in 0..16 {
        let t = gen_any(ctx, &m, if i < 2 { 10 } else { 75 }, &o);
        let before = m.schema.clone();
        let d = step(ctx, &mut real, &mut m, &t)?;
        schema_agrees(&real, &m)?;
        if d == Did::Accepted && before != m.schema { ctx.count("schema_changes"); }
        ctx.eval(d == Did::Refused || before != m.schema, &format!("{:?}|{}|{}", d, m.facts.len(), tx_text(&t)));
        if before != m.schema && i < 8 { ctx.sample(|| tx_text(&t)); }
        if let (Some(f), true) = (&file, ctx.rng.pct(30)) {
            let f = f.clone();
            drop(real);
            real = Real::open_path(&f)?;
            ctx.count("reopened");
            schema_agrees(&real, &m)?;
        }
    }
    // Whatever happened, the schema read back from the store is the same.
    if file.is_none() {
        let Real { mut sqlite, .. } = real;
        let conn = match call("reconnect", || mentat::Conn::connect(&mut sqlite).map_err(|e| e.to_string()))? { Ok(c) => c, Err(e) => return bad(format!("the store cannot be opened again: {}", e)) };
        let real = Real { sqlite, conn };
        ctx.count("reopened");
        schema_agrees(&real, &m)?;
    }
    Ok(())
}

pub fn ip_q(ip: &InProgress, q: &str) -> R<Result<mentat::QueryResults, String>> {
    call(q, || ip.q_once(q, None).map(|o| o.results).map_err(|e| e.to_string()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End { Commit, Rollback, Drop }

/// Run a transaction in progress of several steps; the model advances only on commit.
/// Returns the texts of the steps that were accepted, when committed.
fn episode(ctx: &mut Ctx, real: &mut Real, m: &mut Model, o: &TxOpts, schema_pct: u32, end: End) -> R<Option<Vec<String>>> {
    let n = 1 + ctx.rng.below(4);
    let mut m2 = m.clone();
    let mut done = vec![];
    let mut open = false;
    {
        let mut ip = match real.conn.begin_transaction(&mut real.sqlite) { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
        ctx.note(format!("begin ({:?})", end));
        let mut marks = Marks::new();
        let mut states: Vec<(Vec<String>, usize, bool)> = vec![];
        let with_marks = ctx.rng.pct(50);
        for _ in 0..(if with_marks { n + 3 } else { n }) {
            match if with_marks { marks.act(ctx, &mut ip, &mut m2)? } else { Marked::No } {
                Marked::No => {}
                Marked::Set => { states.push((dump(&ip.transaction)?, done.len(), open)); continue; }
                Marked::Released(i) => { states.truncate(i); continue; }
                Marked::Back(i) => {
                    states.truncate(i + 1);
                    if let Some(x) = diff_lines(&states[i].0, &dump(&ip.transaction)?) { return bad(format!("returning to a savepoint left a trace: {}", x)); }
                    done.truncate(states[i].1);
                    open = states[i].2;
                    if ip.last_tx_id() + 1 != m2.next_tx { return bad(format!("last transaction id after returning to a savepoint {} expected {}", ip.last_tx_id(), m2.next_tx - 1)); }
                    let live = schema_of(&ip.schema);
                    if live != m2.schema { return bad(format!("schema after returning to a savepoint: {}", diff_schema(&m2.schema, &live))); }
                    let f = facts_by(|q| ip_q(&ip, q))?;
                    if let Some(x) = diff_facts(&m2.facts, &f) { return bad(format!("reads after returning to a savepoint: {}", x)); }
                    ip_lookups(&ip, &m2)?;
                    continue;
                }
            }
            let t = gen_any(ctx, &m2, schema_pct, o);
            let text = tx_text(&t);
            ctx.note(format!(" step {}", text));
            let out = m2.eval(&t);
            let before = dump(&ip.transaction)?;
            let got = p_build::send(ctx, &mut ip, &m2, &t, &text)?;
            let d = settle_on(ctx, &ip.transaction, &mut m2, out, got.clone())?;
            if got.is_err() {
                if let Some(x) = diff_lines(&before, &dump(&ip.transaction)?) { return bad(format!("a refused step left a trace: {}", x)); }
                ctx.count("refused_steps");
            } else { done.push(text); }
            if d == Did::Open { open = true; }
            if ip.last_tx_id() + 1 != m2.next_tx { return bad(format!("last transaction id in progress {} expected {}", ip.last_tx_id(), m2.next_tx - 1)); }
            let f = facts_by(|q| ip_q(&ip, q))?;
            if let Some(x) = diff_facts(&m2.facts, &f) { return bad(format!("reads in the transaction differ from its writes: {}", x)); }
        }
        ctx.note(format!("{:?}", end));
        let r = match end {
            End::Commit => call("commit", || ip.commit().map_err(|e| e.to_string()))?,
            End::Rollback => call("rollback", || ip.rollback().map_err(|e| e.to_string()))?,
            End::Drop => { drop(ip); Ok(()) }
        };
        if let Err(e) = r { return bad(format!("{:?} failed: {}", end, e)); }
    }
    ctx.count(&format!("episodes_{:?}", end).to_lowercase());
    if end == End::Commit { *m = m2; if open { return inconclusive_free(); } return Ok(Some(done)); }
    Ok(None)
}

/// Savepoints within a transaction in progress, innermost last, with the model as of each.
pub struct Marks { set: Vec<(&'static str, Model)> }
pub enum Marked { No, Set, Back(usize), Released(usize) }
impl Marks {
    pub fn new() -> Marks { Marks { set: vec![] } }
    /// Perhaps set a savepoint, return to one, or release one.
    pub fn act(&mut self, ctx: &mut Ctx, ip: &mut mentat::InProgress, m: &mut Model) -> R<Marked> {
        let what = ctx.rng.below(10);
        if what < 3 && self.set.len() < 4 {
            let name = *ctx.rng.pick(&["one", "two", "three"]);
            ctx.note(format!(" savepoint {}", name));
            if let Err(e) = call("savepoint", || ip.savepoint(name).map_err(|e| e.to_string()))? { return bad(format!("cannot set a savepoint: {}", e)); }
            self.set.push((name, m.clone()));
            ctx.count("savepoints");
            return Ok(Marked::Set);
        }
        if what > 5 || self.set.is_empty() { return Ok(Marked::No); }
        let name = self.set[ctx.rng.below(self.set.len())].0;
        // of several of a name, the innermost is meant
        let i = self.set.iter().rposition(|x| x.0 == name).unwrap();
        if what < 5 {
            ctx.note(format!(" back to {}", name));
            if let Err(e) = call("rollback_savepoint", || ip.rollback_savepoint(name).map_err(|e| e.to_string()))? { return bad(format!("cannot return to a savepoint: {}", e)); }
            self.set.truncate(i + 1);
            *m = self.set[i].1.clone();
            ctx.count("returns_to_savepoints");
            Ok(Marked::Back(i))
        } else {
            ctx.note(format!(" release {}", name));
            if let Err(e) = call("release_savepoint", || ip.release_savepoint(name).map_err(|e| e.to_string()))? { return bad(format!("cannot release a savepoint: {}", e)); }
            self.set.truncate(i);
            Ok(Marked::Released(i))
        }
    }
}

/// What a transaction in progress answers, cached or not, is what its model holds.
fn ip_lookups(ip: &mentat::InProgress, m: &Model) -> R {
    for e in user_entities(m).into_iter().take(6) {
        for (k, id) in m.schema.idents.iter().filter(|(_, i)| **i >= USER0).take(12) {
            if m.schema.attrs.get(id).map_or(true, |a| a.fulltext) { continue; }
            let k2 = kw(k);
            let mut v: Vec<V> = match call("lookup", || ip.lookup_values_for_attribute(e, &k2).map_err(|e| e.to_string()))? { Ok(v) => v.iter().map(V::of).collect(), Err(e) => return bad(format!("lookup {} {}: {}", e, k, e)) };
            v.sort();
            let want: Vec<V> = m.values(e, *id).into_iter().collect();
            if v != want { return bad(format!("in the transaction {} {} is {:?}, expected {:?}", e, k, v, want)); }
        }
    }
    Ok(())
}

// An episode with an outcome the language leaves open cannot be replayed on a twin by text alone.
fn inconclusive_free() -> R<Option<Vec<String>>> { Ok(None) }

const QS: [&str; 3] = [
    "[:find ?e ?v ?tx :where [?e :db/ident ?v ?tx]]",
    "[:find ?tx ?t :where [?tx :db/txInstant ?t]]",
    "[:find (count ?e) . :where [?e ?a ?v]]",
];

fn observe(real: &Real, m: &Model) -> R<Vec<String>> {
    let mut out = dump(&real.sqlite)?;
    for q in &QS { out.push(format!("{} -> {:?}", q, sorted_results(real.q(q)?))); }
    out.push(format!("facts {:?}", facts_by_query(real)?));
    out.push(format!("schema {:?}", real.schema()));
    out.push(format!("last tx {}", real.conn.last_tx_id()));
    let _ = m;
    Ok(out)
}
fn sorted_results(r: Result<mentat::QueryResults, String>) -> String {
    match r {
        Ok(q) => match rel_rows(&q) { Some(mut rows) => { rows.sort(); format!("{:?}", rows) } None => format!("{:?}", q) },
        Err(e) => e,
    }
}

/// Facts and log without the wall-clock instants.
fn timeless(m_boot: &Boot, f: &Facts) -> Facts {
    let inst = m_boot.get(":db/txInstant");
    f.iter().filter(|(k, _)| k.1 != inst).map(|(k, v)| (k.clone(), *v)).collect()
}
fn timeless_log(b: &Boot, l: &[(i64, LogEntry)]) -> Vec<(i64, LogEntry)> {
    let inst = b.get(":db/txInstant");
    l.iter().map(|(t, e)| (*t, e.iter().filter(|x| x.1 != inst).cloned().collect())).collect()
}

fn twin_step(twin: &mut Real, texts: &[String]) -> R<Vec<Result<Report, String>>> {
    let mut v = vec![];
    for t in texts { v.push(twin.transact(t)?.map(|mut r| { r.instant = 0; r })); }
    Ok(v)
}

fn twins_agree(real: &Real, twin: &Real, b: &Boot) -> R {
    let (f, g) = (timeless(b, &real.facts()?), timeless(b, &twin.facts()?));
    if let Some(x) = diff_facts(&g, &f) { return bad(format!("facts differ from a store without the undone work: {}", x)); }
    if timeless_log(b, &real.log()?) != timeless_log(b, &twin.log()?) { return bad("logs differ from a store without the undone work"); }
    if real.schema() != twin.schema() { return bad("schemas differ from a store without the undone work"); }
    if real.conn.last_tx_id() != twin.conn.last_tx_id() { return bad("last transaction ids differ"); }
    Ok(())
}

/// A statement that means nothing, and can't be accepted whatever surrounds it.
fn nonsense(rng: &mut Rng, m: &Model, pal: &Pal) -> String {
    let attrs: Vec<(String, &Attr)> = m.schema.attrs.iter().filter(|(a, _)| **a >= USER0).filter_map(|(a, at)| m.schema.ident_of(*a).map(|k| (k.clone(), at))).collect();
    if attrs.is_empty() { return "[:db/add \"n\" :no/such 1]".into(); }
    let _ = pal;
    let (k, at) = rng.pick(&attrs).clone();
    let refs: Vec<&String> = attrs.iter().filter(|x| x.1.vt == VT::Ref).map(|x| &x.0).collect();
    let plain: Vec<&String> = attrs.iter().filter(|x| x.1.vt != VT::Ref).map(|x| &x.0).collect();
    let good = if at.vt == VT::Ref { "\"n2\"".to_string() } else { scalar(rng, at).text() };
    let e = match user_entities(m) { u if u.is_empty() => "\"n\"".to_string(), u => if rng.pct(50) { "\"n\"".into() } else { rng.pick(&u).to_string() } };
    let rev = |k: &str| { let i = k.find('/').unwrap(); format!("{}_{}", &k[..i + 1], &k[i + 1..]) };
    let mut l: Vec<String> = vec![
        format!("[:db/add {} {} (no-such-function)]", e, k),
        format!("[:db/add {} {} (transaction-txs)]", e, k),
        format!("[:db/add (no-such-function) {} {}]", k, good),
        format!("{{:db/id (no-such-function) {} {}}}", k, good),
        format!("{{:db/id {} {} (no-such-function)}}", e, k),
        format!("[:db/add {} :no/such {}]", e, good),
        format!("[:db/retract {} :no/such {}]", e, good),
        format!("[:db/add :no/such {} {}]", k, good),
        format!("{{:db/id {} :no/such {}}}", e, good),
        format!("[:db/add (lookup-ref :no/such {}) {} {}]", good, k, good),
        format!("[:db/cas {} {} {} {}]", e, k, good, good),
        format!("[:db/retractEntity {}]", e),
        format!("[:db/retract {} {}]", e, k),
        format!("[:db/add {} {}]", e, k),
        format!("[:db/add {} {} {} {} {}]", e, k, good, good, good),
        format!("[:db/add {} {} nil]", e, k),
        format!("[:db/add nil {} {}]", k, good),
        format!("[:db/add {} {} #{{{}}}]", e, k, good),
        format!("[:db/add {} {} 9223372036854775808]", e, k),
        format!("[:db/add 9223372036854775808 {} {}]", k, good),
        format!("[:db/add {} 9223372036854775808 {}]", e, good),
        format!("[:db/add {} {} no-such-symbol]", e, k),
        format!("[:db/add {} {} {}", e, k, good),
        format!("{{:db/id {} {}}}", e, k),
        format!("{{:db/id \"n\" :db/id \"n3\" {} {}}}", k, good),
        format!("{{:db/id \"n\" {} {} {} {}}}", k, good, k, good),
        format!("{{:db/id {} {} {} {} {}}}", e, k, good, k, if at.vt == VT::Ref { "\"n3\"".to_string() } else { scalar(rng, at).text() }),
        "[]".into(), "[:db/add]".into(), ":db/add".into(), "nil".into(),
    ];
    if let Some(p) = plain.first() {
        l.push(format!("{{:db/id {} {} \"n2\"}}", e, rev(p)));
        l.push(format!("[:db/add {} {} {{:db/id \"n2\" {} {}}}]", e, p, k, good));
        l.push(format!("{{:db/id {} {} {{{} {}}}}}", e, p, k, good));
    }
    if !refs.is_empty() {
        let r = *rng.pick(&refs);
        l.push(format!("{{:db/id {} {} [\"n2\" \"n3\"]}}", e, rev(r)));
        l.push(format!("{{:db/id {} {} 5.5}}", e, rev(r)));
        l.push(format!("{{:db/id {} {} true}}", e, rev(r)));
        l.push(format!("{{:db/id {} {} (no-such-function)}}", e, rev(r)));
        l.push(format!("{{:db/id {} {} :no/such}}", e, rev(r)));
        l.push(format!("{{:db/id {} {} {{{} {}}}}}", e, rev(r), k, good));
        l.push(format!("[:db/add {} {} :no/such]", e, r));
        l.push(format!("[:db/add {} {} (lookup-ref :no/such 1)]", e, r));
        l.push(format!("[:db/add {} {} 5.5]", e, r));
        l.push(format!("{{:db/id {} {} {{:no/such 1}}}}", e, r));
    }
    if !at.many { l.push(format!("[:db/add {} {} [{} {}]]", e, k, good, good)); }
    if at.unique == Uniq::No { l.push(format!("[:db/add (lookup-ref {} {}) {} {}]", k, good, k, good)); }
    rng.pick(&l).clone()
}

/// Sends a transaction that contains nonsense, which must be refused.
fn send_nonsense(ctx: &mut Ctx, real: &mut Real, m: &Model, pal: &Pal, o: &TxOpts) -> R {
    let bad_item = nonsense(&mut ctx.rng, m, pal);
    let mut items: Vec<String> = if ctx.rng.pct(60) { gen_any(ctx, m, 10, o).iter().map(|i| { let t = tx_text(&[i.clone()]); t[1..t.len() - 1].to_string() }).collect() } else { vec![] };
    let at = ctx.rng.below(items.len() + 1);
    items.insert(at, bad_item.clone());
    let text = format!("[{}]", items.join(" "));
    let inside = ctx.rng.pct(40);
    ctx.note(format!("nonsense{}: {}", if inside { " in a transaction in progress" } else { "" }, text));
    let r = if inside {
        call("transact", || { let mut ip = real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string())?; let r = ip.transact(text.as_str()).map(|_| ()).map_err(|e| e.to_string()); ip.rollback().map_err(|e| e.to_string())?; r })?
    } else {
        call("transact", || real.conn.transact(&mut real.sqlite, text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?
    };
    if r.is_ok() { return bad_sig("nonsense-accepted", format!("accepted: {}", bad_item)); }
    ctx.count("nonsense_refused");
    Ok(())
}

fn p05(ctx: &mut Ctx) -> R {
    let (mut real, mut m, pal) = start(ctx, "")?;
    let mut twin = Real::memory()?;
    twin_step(&mut twin, &[tx_text(&pal.install())])?;
    let o = TxOpts { spice: 35, idents: false, ..TxOpts::default() };
    let mut synced = true;
    // some attributes cached, so that undone work would show there too
    for d in &pal.defs {
        if ctx.rng.pct(25) {
            let k = kw(&d.ident);
            let dir = *ctx.rng.pick(&[mentat::CacheDirection::Forward, mentat::CacheDirection::Reverse, mentat::CacheDirection::Both]);
            let s = real.conn.current_schema();
            if let Err(e) = call("cache", || real.conn.cache(&mut real.sqlite, &s, &k, dir, mentat::CacheAction::Register).map_err(|e| e.to_string()))? { return bad(format!("cannot cache {}: {}", d.ident, e)); }
        }
    }
    for i in 0..8 {
        let before = observe(&real, &m)?;
        let lookups_before = lookups(&real, &m)?;
        let kind = if ctx.rng.pct(10) { 9 } else { ctx.rng.below(6) };
        let key = ctx.trace.len();
        let mut undone = false;
        match kind {
            9 => {
                send_nonsense(ctx, &mut real, &m, &pal, &o)?;
                undone = true;
            }
            0 | 1 => {
                let t = gen_any(ctx, &m, 20, &o);
                let d = step(ctx, &mut real, &mut m, &t)?;
                match d {
                    Did::Refused => undone = true,
                    Did::Accepted => {
                        let text = tx_text(&t);
                        if synced { let r = twin_step(&mut twin, &[text])?; check_ids(&m, &r)?; }
                    }
                    Did::Open => synced = false,
                }
            }
            2 | 3 => {
                let end = if ctx.rng.pct(50) { End::Rollback } else { End::Drop };
                episode(ctx, &mut real, &mut m, &o, 25, end)?;
                undone = true;
            }
            _ => {
                match episode(ctx, &mut real, &mut m, &o, 20, End::Commit)? {
                    Some(texts) => if synced { twin_step(&mut twin, &texts)?; },
                    None => synced = false,
                }
            }
        }
        if undone {
            if let Some(x) = diff_lines(&before, &observe(&real, &m)?) { return bad(format!("undone work left a trace: {}", x)); }
            if lookups_before != lookups(&real, &m)? { return bad("undone work changed attribute lookups"); }
        }
        if synced { twins_agree(&real, &twin, &m.boot)?; ctx.count("twin_comparisons"); }
        let f = facts_by_query(&real)?;
        if let Some(x) = diff_facts(&m.facts, &f) { return bad(format!("queried facts differ: {}", x)); }
        let key = ctx.trace[key..].join("\n");
        ctx.eval(undone || kind > 3, &key);
        if i == 3 { ctx.sample(|| key); }
    }
    if synced {
        // Later transactions behave as if the undone ones never happened.
        let mut rng = ctx.rng.clone();
        let d = rng.pick(&pal.defs).clone();
        ctx.rng = rng;
        let t = format!("[[:db/add \"x1\" :db/doc \"a\"] [:db/add \"x2\" :db/doc \"{}\"]]", d.ident);
        let (a, b) = (real.transact(&t)?.map(|mut r| { r.instant = 0; r }), twin.transact(&t)?.map(|mut r| { r.instant = 0; r }));
        if a != b { return bad(format!("the next transaction gives {:?}, and {:?} on a store without the undone work", a, b)); }
        ctx.count("continuations");
    }
    Ok(())
}

fn check_ids(_m: &Model, r: &[Result<Report, String>]) -> R {
    for x in r { if let Err(e) = x { return bad(format!("a store without the undone work refuses what this one accepted: {}", e)); } }
    Ok(())
}

/// Attribute lookups through the API (they go through the cache).
fn lookups(real: &Real, m: &Model) -> R<Vec<String>> {
    let mut out = vec![];
    let s = real.conn.current_schema();
    let _ = &s;
    for e in user_entities(m).into_iter().take(4) {
        for (k, id) in m.schema.idents.iter().filter(|(_, i)| **i >= USER0).take(12) {
            if m.schema.attrs.get(id).map_or(true, |a| a.fulltext) { continue; }
            let k2 = kw(k);
            let r = call("lookup", || real.conn.lookup_values_for_attribute(&real.sqlite, e, &k2).map_err(|e| e.to_string()))?;
            let mut v: Vec<V> = match r { Ok(v) => v.iter().map(V::of).collect(), Err(e) => return bad(format!("lookup {} {}: {}", e, k, e)) };
            v.sort();
            out.push(format!("{} {} {:?}", e, k, v));
        }
    }
    Ok(out)
}

/// A store of a version that isn't ours, or a file that is no store, is refused and left as it is.
fn strangers(ctx: &mut Ctx, path: &std::path::Path) -> R {
    let open = |p: &std::path::Path| call("open", || mentat::Store::open(p.to_str().unwrap()).map(|_| ()).map_err(|e| e.to_string()));
    let v = *ctx.rng.pick(&[2i64, 3, -1, 7, 2147483647]);
    ctx.note(format!("open it as if it were of version {}", v));
    let version = |c: &rusqlite::Connection| c.query_row("PRAGMA user_version", rusqlite::NO_PARAMS, |r| r.get::<_, i64>(0)).h("version");
    let raw = rusqlite::Connection::open(path).h("open raw")?;
    let ours = version(&raw)?;
    raw.execute_batch(&format!("PRAGMA user_version = {}", v)).h("set version")?;
    let before = dump(&raw)?;
    drop(raw);
    if open(path)?.is_ok() { return bad(format!("a store of version {} was opened", v)); }
    let raw = rusqlite::Connection::open(path).h("open raw")?;
    if version(&raw)? != v { return bad(format!("opening a store of version {} made it one of {}", v, version(&raw)?)); }
    if let Some(x) = diff_lines(&before, &dump(&raw)?) { return bad(format!("opening a store of version {} changed it: {}", v, x)); }
    raw.execute_batch(&format!("PRAGMA user_version = {}", ours)).h("set version")?;
    drop(raw);
    let junk = ctx.file("junk.db");
    let n = *ctx.rng.pick(&[512usize, 513, 5000, 40000]);
    let bytes: Vec<u8> = (0..n).map(|_| ctx.rng.u64() as u8 | 128).collect();
    std::fs::write(&junk, &bytes).h("write")?;
    if open(&junk)?.is_ok() { return bad(format!("a file of {} random bytes was opened as a store", n)); }
    if std::fs::read(&junk).h("read")? != bytes { return bad("opening a file that is no store changed it"); }
    let _ = std::fs::remove_file(&junk);
    if open(&ctx.scratch)?.is_ok() { return bad("a directory was opened as a store"); }
    ctx.count("strange_files");
    Ok(())
}

fn p06(ctx: &mut Ctx) -> R {
    let path = ctx.file("p06.db");
    let _ = std::fs::remove_file(&path);
    let (mut real, mut m, pal) = start(ctx, path.to_str().unwrap())?;
    let mut twin = Real::memory()?;
    twin_step(&mut twin, &[tx_text(&pal.install())])?;
    let o = TxOpts { spice: 15, ..TxOpts::default() };
    for i in 0..10 {
        if ctx.rng.pct(45) {
            let before = observe(&real, &m)?;
            drop(real);
            if ctx.rng.pct(10) { strangers(ctx, &path)?; }
            real = Real::open_path(&path)?;
            ctx.note("reopen");
            ctx.count("reopened");
            if let Some(x) = diff_lines(&before, &observe(&real, &m)?) { return bad(format!("reopening changed what is observed: {}", x)); }
            check_schema_internal(&real.conn.current_schema())?;
        }
        let t = gen_any(ctx, &m, 20, &o);
        let text = tx_text(&t);
        ctx.note(format!("transact {}", text));
        let a = real.transact(&text)?;
        let b = twin.transact(&text)?;
        let strip = |r: &Result<Report, String>| match r { Ok(r) => Ok((r.tx_id, r.temps.clone())), Err(_) => Err(()) };
        if strip(&a) != strip(&b) { return bad(format!("the reopened store gives {:?}, the one never closed {:?}", a, b)); }
        let out = m.eval(&t);
        let d = settle(ctx, &real, &mut m, out, a)?;
        twins_agree(&real, &twin, &m.boot)?;
        for q in &QS[..1] {
            let (x, y) = (sorted_results(real.q(q)?), sorted_results(twin.q(q)?));
            if x != y { return bad(format!("{} differs after reopening: {} / {}", q, x, y)); }
        }
        ctx.eval(d != Did::Open, &text);
        if i == 4 { ctx.sample(|| text); }
    }
    drop(real);
    let _ = std::fs::remove_file(&path);
    Ok(())
}

fn p09(ctx: &mut Ctx) -> R {
    let file = if ctx.rng.pct(60) { Some(ctx.file("p09.db")) } else { None };
    if let Some(ref f) = file { let _ = std::fs::remove_file(f); }
    let (mut real, mut m, pal) = start(ctx, file.as_ref().map_or("", |f| f.to_str().unwrap()))?;
    let o = TxOpts { spice: 25, tx_facts: 8, ..TxOpts::default() };
    // every identifier ever committed, as entity or as reference
    let mut ever: BTreeSet<i64> = BTreeSet::new();
    let collect = |real: &Real, ever: &mut BTreeSet<i64>| -> R {
        for (tx, es) in real.log()? { ever.insert(tx); for (e, _, v, _) in es { ever.insert(e); if let V::Ref(r) = v { ever.insert(r); } } }
        Ok(())
    };
    for i in 0..10 {
        collect(&real, &mut ever)?;
        let mark = ctx.trace.len();
        let next = m.next_tx;
        match ctx.rng.below(8) {
            0 | 1 => { let end = *ctx.rng.pick(&[End::Commit, End::Commit, End::Rollback, End::Drop]); episode(ctx, &mut real, &mut m, &o, 10, end)?; }
            2 => {
                if let Some(ref f) = file {
                    drop(real);
                    real = Real::open_path(f)?;
                    ctx.note("reopen");
                    ctx.count("reopened");
                }
            }
            3 => {
                // entities that exist only as values
                let d = pal.find(":many/ref").cloned();
                if let Some(d) = d {
                    if m.schema.idents.contains_key(&d.ident) {
                        let n = 1 + ctx.rng.below(3);
                        let vs = (0..n).map(|k| VP::Lit(V::Str(format!("only{}", k)))).collect();
                        step(ctx, &mut real, &mut m, &vec![Item::Add(EP::Temp("holder".into()), AP::Ident(d.ident), VP::Vec(vs))])?;
                    }
                }
            }
            _ => { let t = gen_any(ctx, &m, 10, &o); step(ctx, &mut real, &mut m, &t)?; }
        }
        // every new tx id is above all earlier ones, has one instant, and new entities are new
        let log = real.log()?;
        let mut prev = 0;
        for (tx, es) in &log {
            if *tx <= prev { return bad(format!("transaction id {} does not increase", tx)); }
            prev = *tx;
            if *tx < TX0 { return bad(format!("transaction id {} outside its range", tx)); }
            let inst = m.boot.get(":db/txInstant");
            let n = es.iter().filter(|x| x.0 == *tx && x.1 == inst && x.3).count();
            if n != 1 { return bad(format!("transaction {} has {} instants", tx, n)); }
        }
        let last = log.last().map_or(0, |x| x.0);
        if real.conn.last_tx_id() != last { return bad(format!("last transaction id {} but the log ends with {}", real.conn.last_tx_id(), last)); }
        if m.next_tx < next { return bad("transaction ids went back"); }
        let key = ctx.trace[mark..].join("\n");
        ctx.eval(!key.is_empty(), &key);
        if i == 2 { ctx.sample(|| key); }
    }
    // A fresh entity now must be one never seen.
    collect(&real, &mut ever)?;
    if let Some(ref f) = file { if ctx.rng.pct(50) { drop(real); real = Real::open_path(f)?; ctx.count("reopened"); } }
    let far: BTreeSet<i64> = ever.iter().cloned().filter(|x| *x >= USER0 && *x < TX0).collect();
    match real.transact("[[:db/add \"p\" :db/doc \"p\"] [:db/add \"q\" :db/doc \"q\"]]")? {
        Ok(r) => {
            for (t, e) in &r.temps { if far.contains(e) || *e < USER0 || *e >= TX0 { return bad(format!("tempid {} got {}, already used or out of range", t, e)); } }
            if ever.contains(&r.tx_id) { return bad(format!("transaction id {} was used before", r.tx_id)); }
        }
        Err(e) => return bad(format!("refused a valid transaction: {}", e)),
    }
    // Identifiers that were never handed out are refused as entities.
    let top = far.iter().max().cloned().unwrap_or(USER0) + 2;
    for e in &[top + 1 + ctx.rng.below(1000) as i64, TX0 + 5000, 5000, -1, i64::max_value()] {
        let t = format!("[[:db/add {} :db/doc \"z\"]]", e);
        if real.transact(&t)?.is_ok() { return bad(format!("accepted {} whose entity was never allocated", t)); }
        ctx.count("unallocated_refused");
    }
    drop(real);
    if let Some(f) = file { let _ = std::fs::remove_file(f); }
    Ok(())
}
