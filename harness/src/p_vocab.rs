//! P22: vocabularies, against what their definitions mean as transactions.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::{diff_schema, gen_any, scan, schema_agrees};
use crate::p_tx::start;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use core_traits::attribute::Unique;
use mentat::vocabulary::{Definition, HasVocabularies, SimpleVocabularySource, VersionedStore, Vocabulary, VocabularyCheck, VocabularyOutcome, VocabularySource, VocabularyStatus};
use mentat::{InProgress, MentatError};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P22", rule: "A distinct request for vocabularies (its definitions, as text, and what the store had of them) that was carried out, or found to be satisfied.",
            case: p22, quick: (1500, 35), thorough: (200_000, 600), min_nontrivial: 1200, workers: 8,
            assumptions: &["Versions lie between 1 and 2^32 - 2, and the names of vocabularies are no attributes.",
                "A definition means the transaction that asserts all it says about its attributes, and retracts a uniqueness that it doesn't have; that transaction may be invalid, and the request is then refused."] },
    ]
}

type Def = (String, u32, Vec<(String, Attr)>);

#[derive(Clone, Debug, PartialEq)]
enum Want { Existed, Installed, Missing(Vec<usize>), Upgrade(u32), TooNew, Conflict }

/// What the facts say about a vocabulary: entity, version, attributes.
fn vocab(m: &Model, name: &str) -> Option<(i64, i64, BTreeSet<i64>)> {
    let e = *m.schema.idents.get(name)?;
    let v = m.values(e, m.boot.get(":db.schema/version")).into_iter().next()?;
    let n = if let V::Long(n) = v { n } else { return None };
    Some((e, n, m.values(e, m.boot.get(":db.schema/attribute")).into_iter().filter_map(|v| if let V::Ref(r) = v { Some(r) } else { None }).filter(|a| m.schema.attrs.contains_key(a)).collect()))
}

fn check(m: &Model, d: &Def) -> Want {
    let (_, v, attrs) = match vocab(m, &d.0) { None => return Want::Installed, Some(x) => x };
    if v < d.1 as i64 { return Want::Upgrade(v as u32); }
    if v > d.1 as i64 { return Want::TooNew; }
    let mut missing = vec![];
    for (i, (k, at)) in d.2.iter().enumerate() {
        match m.schema.idents.get(k).filter(|e| attrs.contains(e)) {
            Some(e) => if m.schema.attrs[e] != *at { return Want::Conflict; },
            None => missing.push(i),
        }
    }
    if missing.is_empty() { Want::Existed } else { Want::Missing(missing) }
}

/// The transaction that a definition, or some of its attributes, amounts to.
fn meaning(m: &Model, d: &Def, which: &[usize]) -> TxAst {
    let s = EP::Temp("s".into());
    let id = |k: &str| AP::Ident(k.into());
    let kwd = |k: &str| VP::Lit(V::Kw(k.into()));
    let mut t = vec![Item::Add(s.clone(), id(":db.schema/version"), VP::Lit(V::Long(d.1 as i64))), Item::Add(s.clone(), id(":db/ident"), kwd(&d.0))];
    for i in which {
        let (k, a) = &d.2[*i];
        let e = EP::Temp(k.clone());
        t.push(Item::Add(e.clone(), id(":db/ident"), kwd(k)));
        t.push(Item::Add(s.clone(), id(":db.schema/attribute"), VP::Lit(V::Str(k.clone()))));
        t.push(Item::Add(e.clone(), id(":db/valueType"), kwd(a.vt.kw())));
        t.push(Item::Add(e.clone(), id(":db/cardinality"), kwd(if a.many { ":db.cardinality/many" } else { ":db.cardinality/one" })));
        for (p, b) in &[(":db/index", a.index), (":db/fulltext", a.fulltext), (":db/isComponent", a.component), (":db/noHistory", a.no_history)] { t.push(Item::Add(e.clone(), id(p), VP::Lit(V::Bool(*b)))); }
        let uniq = |u: Uniq| kwd(if u == Uniq::Identity { ":db.unique/identity" } else { ":db.unique/value" });
        if a.unique != Uniq::No { t.push(Item::Add(e, id(":db/unique"), uniq(a.unique))); }
        else if let Some(old) = m.schema.idents.get(k).and_then(|e| m.schema.attrs.get(e)) {
            if old.unique != Uniq::No { t.push(Item::Ret(e, id(":db/unique"), uniq(old.unique))); }
        }
    }
    t
}

fn real_attr(rng: &mut Rng, a: &Attr) -> R<mentat::Attribute> {
    let unique = match a.unique { Uniq::No => None, Uniq::Value => Some(Unique::Value), Uniq::Identity => Some(Unique::Identity) };
    let at = mentat::Attribute { value_type: a.vt.core(), multival: a.many, unique, index: a.index, fulltext: a.fulltext, component: a.component, no_history: a.no_history };
    if rng.pct(40) { return Ok(at); }
    // The same by way of a builder, one call after another in any order.
    let helped = rng.pct(50) && (at.index || unique != Some(Unique::Identity) && !at.fulltext);
    let mut b = if helped { mentat::vocabulary::AttributeBuilder::helpful() } else { mentat::vocabulary::AttributeBuilder::default() };
    let mut calls: Vec<usize> = (0..7).collect();
    rng.shuffle(&mut calls);
    for c in calls {
        match c {
            0 => { b.value_type(at.value_type); }
            1 => { if at.multival || rng.pct(40) { b.multival(at.multival); } }
            2 => match unique { Some(u) => { b.unique(u); } None => { if rng.pct(30) { b.non_unique(); } } },
            // a helpful builder indexes what must be
            3 => { if at.index && !(helped && (unique == Some(Unique::Identity) || at.fulltext)) || !at.index && rng.pct(30) { b.index(at.index); } }
            4 => { if at.fulltext || rng.pct(30) { b.fulltext(at.fulltext); } }
            5 => { if at.component || rng.pct(30) { b.component(at.component); } }
            _ => { if at.no_history || rng.pct(30) { b.no_history(at.no_history); } }
        }
    }
    let built = b.build();
    if built != at { return bad(format!("an attribute builder makes {:?} of {:?}", built, a)); }
    Ok(built)
}

thread_local! {
    static SEEN: RefCell<Vec<(bool, u32)>> = RefCell::new(vec![]);
    static WORK: RefCell<Vec<String>> = RefCell::new(vec![]);
    static FAIL: RefCell<u8> = RefCell::new(0);
}
fn injected() -> MentatError { MentatError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "injected")) }
fn pre(ip: &mut InProgress<'_, '_>, from: &Vocabulary) -> mentat::Result<()> {
    SEEN.with(|s| s.borrow_mut().push((true, from.version)));
    if FAIL.with(|f| *f.borrow()) == 1 { return Err(injected()); }
    let w = WORK.with(|w| std::mem::replace(&mut *w.borrow_mut(), vec![]));
    for t in w { ip.transact(t)?; }
    Ok(())
}
fn post(_ip: &mut InProgress<'_, '_>, from: &Vocabulary) -> mentat::Result<()> {
    SEEN.with(|s| s.borrow_mut().push((false, from.version)));
    if FAIL.with(|f| *f.borrow()) == 2 { return Err(injected()); }
    Ok(())
}

struct Source { defs: Vec<Definition>, calls: Vec<String>, fail: u8 }
impl VocabularySource for Source {
    fn definitions(&mut self) -> Vec<Definition> { self.defs.clone() }
    fn pre(&mut self, _ip: &mut InProgress<'_, '_>, st: &dyn VocabularyStatus) -> mentat::Result<()> {
        let mut s = vec![];
        for d in &self.defs {
            s.push(match st.get(&d.name) {
                None => "-".to_string(),
                Some((e, c)) => format!("{}{}", if e.name == d.name && st.version(&d.name) == Some(d.version) { "" } else { "?" }, match c { VocabularyCheck::NotPresent => "new", VocabularyCheck::PresentButNeedsUpdate { .. } => "old", VocabularyCheck::PresentButMissingAttributes { .. } => "part", _ => "?" }),
            });
        }
        self.calls.push(format!("pre {}", s.join(" ")));
        if self.fail == 1 { return Err(injected()); }
        Ok(())
    }
    fn post(&mut self, _ip: &mut InProgress<'_, '_>) -> mentat::Result<()> {
        self.calls.push("post".into());
        if self.fail == 2 { return Err(injected()); }
        Ok(())
    }
}

const NAMES: &[&str] = &[":v/people", ":v/places", ":v/things"];

fn gen_attr(rng: &mut Rng, k: usize) -> Attr {
    let vt = if rng.pct(92) { ALL_VT[k % 8] } else { *rng.pick(&ALL_VT) };
    let unique = *rng.pick(&[Uniq::No, Uniq::No, Uniq::No, Uniq::Value, Uniq::Identity]);
    let odd = rng.pct(3);
    let fulltext = vt == VT::Str && k >= 8 && !odd;
    Attr { vt, many: rng.pct(35), unique, index: rng.pct(40) || (!odd && (unique != Uniq::No || fulltext)), fulltext, component: vt == VT::Ref && rng.pct(40) || odd && rng.pct(50), no_history: rng.pct(20) }
}

fn gen_def(rng: &mut Rng, m: &Model, pal: &Pal) -> Def {
    let name = rng.pick(NAMES).to_string();
    let version = match vocab(m, &name) {
        _ if rng.pct(6) => *rng.pick(&[127u32, 255, 256, 32768, 65534, 65535, 65536, i32::max_value() as u32, 1 << 31, u32::max_value() - 2, u32::max_value() - 1]),
        Some((_, v, _)) if rng.pct(80) => (v + rng.range(0, 1)).max(1).min(u32::max_value() as i64 - 1) as u32,
        _ => 1 + rng.below(3) as u32,
    };
    let mut ks: Vec<usize> = (0..12).collect();
    rng.shuffle(&mut ks);
    let mut attrs: Vec<(String, Attr)> = vec![];
    for k in &ks[..rng.below(5)] {
        // an attribute belongs to one vocabulary
        let other = rng.pct(4);
        let kw = format!(":va/{}-{}", if other { rng.pick(NAMES)[3..].to_string() } else { name[3..].to_string() }, k);
        let at = match m.schema.idents.get(&kw).and_then(|e| m.schema.attrs.get(e)) {
            Some(a) if rng.pct(75) => a.clone(),
            Some(a) => { // altered in ways that may be allowed
                let mut a = a.clone();
                match rng.below(5) { 0 => a.many = !a.many, 1 => { a.unique = *rng.pick(&[Uniq::No, Uniq::No, Uniq::Value, Uniq::Identity]); if a.unique != Uniq::No { a.index = true; } }, 2 => { a.index = !a.index; }, 3 => a.no_history = !a.no_history, _ => a = gen_attr(rng, *k) }
                a
            }
            None => gen_attr(rng, *k),
        };
        attrs.push((kw, at));
    }
    // attributes that exist for other reasons
    if rng.pct(6) {
        let d = rng.pick(&pal.defs).clone();
        if let Some(a) = m.schema.idents.get(&d.ident).and_then(|e| m.schema.attrs.get(e)) {
            let mut a = a.clone();
            match rng.below(4) { 0 => a.unique = Uniq::No, 1 => a.index = true, _ => () }
            attrs.push((d.ident, a));
        }
    }
    (name, version, attrs)
}

fn def_text(d: &Def) -> String { format!("{} version {}: {}", d.0, d.1, d.2.iter().map(|(k, a)| format!("{} {:?}", k, a)).collect::<Vec<_>>().join("; ")) }

/// Apply a predicted transaction to the model; the numbers of new entities come from the store's idents.
fn play(m: &mut Model, plan: &Plan, idents: &BTreeMap<String, i64>, name: &str, facts: &Facts) -> R {
    let mut ids: Vec<Option<i64>> = vec![None; plan.nfresh];
    for (t, e) in &plan.temps {
        if let Ent::Fresh(i) = e {
            let k = if t == "s" { name } else { t.as_str() };
            match idents.get(k) { Some(x) => ids[*i] = Some(*x), None => return bad(format!("{} doesn't name anything afterwards", k)) }
        }
    }
    let ids: Vec<i64> = match ids.into_iter().collect::<Option<Vec<i64>>>() { Some(i) => i, None => return inconclusive("an entity without a name") };
    let tx = m.next_tx;
    let inst = m.boot.get(":db/txInstant");
    let at = match facts.keys().find(|f| f.0 == tx && f.1 == inst) { Some((_, _, V::Inst(us))) => *us, _ => return bad(format!("there's no transaction {}", tx)) };
    for i in &ids { if *i < m.next_user { return bad(format!("{} isn't a new entity, but it's {:?} now", i, idents.iter().find(|x| x.1 == i))); } }
    if let Err(e) = m.apply(plan, &ids, at) { return inconclusive(format!("model cannot apply: {}", e)); }
    if let Some(x) = ids.iter().max() { m.next_user = m.next_user.max(x + 1); }
    Ok(())
}

fn agree(real: &mut Real, m: &Model) -> R {
    if let Some(d) = diff_facts(&m.facts, &real.facts()?) { return bad(format!("facts differ: {}", d)); }
    check_log(&real.sqlite, m)?;
    schema_agrees(real, m)?;
    scan(real)?;
    let Real { ref mut sqlite, ref mut conn, .. } = *real;
    let ip = conn.begin_transaction(sqlite).h("begin")?;
    if let Err(e) = call("verify_core_schema", || ip.verify_core_schema().map_err(|e| e.to_string()))? { return bad(format!("the core vocabulary doesn't verify: {}", e)); }
    let got = match call("read_vocabularies", || ip.read_vocabularies().map_err(|e| e.to_string()))? { Ok(v) => v, Err(e) => return bad(format!("cannot read vocabularies: {}", e)) };
    let have: BTreeSet<String> = got.iter().map(|(k, _)| k.to_string()).collect();
    let want: BTreeSet<String> = m.schema.idents.keys().filter(|k| vocab(m, k).is_some()).cloned().collect();
    if have != want { return bad(format!("there are vocabularies {:?}, expected {:?}", have, want)); }
    for (k, v) in got.iter() {
        let (e, n, attrs) = vocab(m, &k.to_string()).unwrap();
        let said: BTreeMap<i64, Attr> = v.attributes().iter().map(|(e, a)| (*e, attr_of(a))).collect();
        let should: BTreeMap<i64, Attr> = attrs.iter().map(|a| (*a, m.schema.attrs[a].clone())).collect();
        if v.entity != e || v.version as i64 != n || said != should || v.attributes().len() != said.len() { return bad(format!("vocabulary {} reads as {:?}, expected entity {}, version {}, attributes {:?}", k, v, e, n, should)); }
        match call("read_vocabulary_named", || ip.read_vocabulary_named(k).map_err(|e| e.to_string()))? {
            Ok(Some(o)) => { let o_said: BTreeMap<i64, Attr> = o.attributes().iter().map(|(e, a)| (*e, attr_of(a))).collect(); if o.entity != e || o.version as i64 != n || o_said != should { return bad(format!("vocabulary {} reads by name as {:?}, among all as {:?}", k, o, v)); } }
            o => return bad(format!("vocabulary {} reads by name as {:?}", k, o)),
        }
    }
    Ok(())
}

fn p22(ctx: &mut Ctx) -> R {
    let (mut real, mut m, pal) = start(ctx, "")?;
    let o = TxOpts { spice: 5, ..TxOpts::default() };
    for round in 0..8 {
        // data, for vocabularies to be in conflict with
        let lp = crate::p_store::live_pal(&m);
        let _ = &lp;
        for _ in 0..ctx.rng.below(3) { let t = gen_any(ctx, &m, 6, &o); step(ctx, &mut real, &mut m, &t)?; }
        let mut rng = ctx.rng.clone();
        let many = rng.pct(40);
        let mut defs: Vec<Def> = vec![];
        for _ in 0..if many { 1 + rng.below(3) } else { 1 } { let d = gen_def(&mut rng, &m, &pal); if defs.iter().all(|x| x.0 != d.0) { defs.push(d); } }
        ctx.rng = rng;
        for d in &defs { ctx.note(format!("{} {}", if many { "ensure among others" } else { "ensure" }, def_text(d))); }
        // what should happen
        let wants: Vec<Want> = defs.iter().map(|d| check(&m, d)).collect();
        ctx.note(format!("  expect {:?}", wants));
        let mut refuse = wants.iter().any(|w| *w == Want::TooNew || *w == Want::Conflict);
        let busy = wants.iter().any(|w| *w != Want::Existed);
        let fail = if ctx.rng.pct(6) { 1 + ctx.rng.below(2) as u8 } else { 0 };
        let upgrades = wants.iter().filter(|w| match w { Want::Upgrade(_) => true, _ => false }).count();
        if fail > 0 && (many && busy || upgrades > 0) { refuse = true; }
        // work that an upgrade does first
        let mut work: Vec<TxAst> = vec![];
        if upgrades > 0 && ctx.rng.pct(40) { work.push(gen_tx_small(ctx, &m, &lp)); }
        let mut order: Vec<usize> = vec![];
        let mut by_name: Vec<usize> = (0..defs.len()).collect();
        by_name.sort_by(|a, b| defs[*a].0.cmp(&defs[*b].0));
        for pass in 0..3 { for i in &by_name { match (&wants[*i], pass) { (Want::Installed, 0) | (Want::Upgrade(_), 1) | (Want::Missing(_), 2) => order.push(*i), _ => () } } }
        SEEN.with(|s| s.borrow_mut().clear());
        WORK.with(|w| *w.borrow_mut() = work.iter().map(|t| tx_text(t)).collect());
        FAIL.with(|f| *f.borrow_mut() = fail);
        let rdefs: Vec<Definition> = defs.iter().map(|d| Ok(Definition { name: kw(&d.0), version: d.1, attributes: d.2.iter().map(|(k, a)| Ok((kw(k), real_attr(&mut ctx.rng, a)?))).collect::<R<Vec<_>>>()?, pre, post })).collect::<R<Vec<_>>>()?;
        let mut src = Source { defs: rdefs.clone(), calls: vec![], fail };
        let before = dump(&real.sqlite)?;
        let simple = many && ctx.rng.pct(25);
        if simple && fail > 0 && upgrades == 0 { refuse = wants.iter().any(|w| *w == Want::TooNew || *w == Want::Conflict); }
        let Real { ref mut sqlite, ref mut conn, .. } = real;
        let mut ip = conn.begin_transaction(sqlite).h("begin")?;
        let got = call("ensure", || {
            if simple { ip.ensure_vocabularies(&mut SimpleVocabularySource::with_definitions(rdefs.clone())).map_err(|e| e.to_string()) }
            else if many { ip.ensure_vocabularies(&mut src).map_err(|e| e.to_string()) }
            else { ip.ensure_vocabulary(&rdefs[0]).map(|o| std::iter::once((rdefs[0].name.clone(), o)).collect()).map_err(|e| e.to_string()) }
        })?;
        let seen = SEEN.with(|s| s.borrow().clone());
        match got {
            Err(e) => {
                ctx.note(format!("  refused: {}", e));
                drop(ip);
                if let Some(x) = diff_lines(&before, &dump(&real.sqlite)?) { return bad(format!("a refused vocabulary left a trace: {}", x)); }
                if real.schema() != m.schema { return bad(format!("a refused vocabulary changed the schema: {}", diff_schema(&m.schema, &real.schema()))); }
                // is there a reason?
                let mut n = m.clone();
                let mut todo: Vec<TxAst> = vec![];
                let mut reason = refuse;
                let mut first_upgrade = true;
                for i in &order {
                    if reason { break; }
                    todo.clear();
                    if let Want::Upgrade(_) = wants[*i] { if first_upgrade { todo.extend(work.iter().cloned()); first_upgrade = false; } }
                    let which: Vec<usize> = match wants[*i] { Want::Missing(ref w) => w.clone(), _ => (0..defs[*i].2.len()).collect() };
                    for t in &todo { reason = reason || !advance(&mut n, t); }
                    if !reason { let t = meaning(&n, &defs[*i], &which); reason = !advance(&mut n, &t); }
                }
                if !reason { return bad(format!("refused, although nothing stands in the way: {}", e)); }
                ctx.count(if refuse { "requests_refused" } else { "definitions_refused_by_the_transactor" });
                ctx.eval(false, "");
            }
            Ok(out) => {
                if refuse { return bad(format!("accepted, with {:?}", out)); }
                let facts = facts_of(&ip.transaction)?;
                let idents: BTreeMap<String, i64> = schema_of(&ip.schema).idents.iter().map(|(k, v)| (k.clone(), *v)).collect();
                let mut first_upgrade = true;
                let had = format!("{:?}", defs.iter().map(|d| vocab(&m, &d.0).map(|v| (v.1, v.2.len()))).collect::<Vec<_>>());
                let mut next = m.clone();
                for i in &order {
                    if let Want::Upgrade(_) = wants[*i] {
                        if first_upgrade {
                            for t in &work {
                                match next.eval(t) { Outcome::Accept(p) => { if p.nfresh > 0 { return inconclusive("work with new entities"); } play(&mut next, &p, &idents, "", &facts)? } Outcome::Open(_) => return inconclusive("work is open"), Outcome::Reject(w) => return bad(format!("accepted invalid work ({})", w)) }
                            }
                            first_upgrade = false;
                        }
                    }
                    let which: Vec<usize> = match wants[*i] { Want::Missing(ref w) => w.clone(), _ => (0..defs[*i].2.len()).collect() };
                    let t = meaning(&next, &defs[*i], &which);
                    match next.eval(&t) {
                        Outcome::Accept(p) => play(&mut next, &p, &idents, &defs[*i].0, &facts)?,
                        Outcome::Open(w) => return inconclusive(format!("a definition's outcome is open: {}", w)),
                        Outcome::Reject(w) => return bad(format!("accepted {}, although {}", def_text(&defs[*i]), w)),
                    }
                }
                // outcomes, and what was called
                for (i, d) in defs.iter().enumerate() {
                    let want = match wants[i] { Want::Existed => VocabularyOutcome::Existed, Want::Installed => VocabularyOutcome::Installed, Want::Missing(_) => VocabularyOutcome::InstalledMissingAttributes, _ => VocabularyOutcome::Upgraded };
                    if out.get(&kw(&d.0)) != Some(&want) { return bad(format!("{} is reported as {:?}, expected {:?}", d.0, out.get(&kw(&d.0)), want)); }
                }
                if out.len() != defs.len() { return bad("outcomes for other vocabularies"); }
                let want_seen: Vec<(bool, u32)> = order.iter().filter_map(|i| if let Want::Upgrade(v) = wants[*i] { Some(v) } else { None }).flat_map(|v| vec![(true, v), (false, v)]).collect();
                let (mut a, mut b) = (seen.clone(), want_seen.clone());
                a.sort(); b.sort();
                if a != b { return bad(format!("migrations called {:?}, expected {:?}", seen, want_seen)); }
                if many && !simple {
                    let st: Vec<&str> = wants.iter().map(|w| match w { Want::Existed => "-", Want::Installed => "new", Want::Upgrade(_) => "old", _ => "part" }).collect();
                    let want = if busy { vec![format!("pre {}", st.join(" ")), "post".to_string()] } else { vec![] };
                    if src.calls != want { return bad(format!("the source was called {:?}, expected {:?}", src.calls, want)); }
                }
                if next.next_tx != ip.last_tx_id() + 1 { return bad(format!("the last transaction is {}, expected {}", ip.last_tx_id(), next.next_tx - 1)); }
                // what was asked for is now there, unless another definition disagrees
                for d in &rdefs {
                    let md = defs.iter().find(|x| kw(&x.0) == d.name).unwrap();
                    let c = call("check", || ip.check_vocabulary(d).map_err(|e| e.to_string()))?;
                    let ok = match (check(&next, md), &c) { (Want::Existed, Ok(VocabularyCheck::Present)) => true, (Want::Conflict, Err(_)) => true, _ => false };
                    if !ok { return bad(format!("{} checks as {:?} right after it was ensured", d.name, c)); }
                }
                let commit = ctx.rng.pct(90);
                let text = format!("{} {}", had, defs.iter().map(def_text).collect::<Vec<_>>().join(" & "));
                if commit {
                    if let Err(e) = call("commit", || ip.commit().map_err(|e| e.to_string()))? { return bad(format!("cannot commit: {}", e)); }
                    m = next;
                } else { drop(ip); ctx.note("  rolled back"); }
                for w in &wants { ctx.count(match w { Want::Existed => "existed", Want::Installed => "installed", Want::Missing(_) => "completed", _ => "upgraded" }); }
                if !work.is_empty() { ctx.count("upgrades_with_work"); }
                ctx.eval(true, &text);
                if round == 2 { ctx.sample(|| text.chars().take(400).collect()); }
            }
        }
        if round % 3 == 2 { agree(&mut real, &m)?; }
    }
    agree(&mut real, &m)
}

/// Advance a copy of the model without a store; new entities get any numbers. False if that's impossible or open.
fn advance(n: &mut Model, t: &TxAst) -> bool {
    match n.eval(t) {
        Outcome::Accept(p) => {
            let ids: Vec<i64> = (0..p.nfresh as i64).map(|i| n.next_user + i).collect();
            let ok = n.apply(&p, &ids, 1_700_000_000_000_000).is_ok();
            n.next_user += p.nfresh as i64;
            ok
        }
        _ => false,
    }
}

/// Retractions of some facts, as a migration might do.
fn gen_tx_small(ctx: &mut Ctx, m: &Model, _pal: &Pal) -> TxAst {
    let fs: Vec<(i64, i64, V)> = m.facts.keys().filter(|f| f.1 >= USER0 && f.0 < TX0 && m.schema.attrs.contains_key(&f.1)).cloned().collect();
    let mut t = vec![];
    if fs.is_empty() { return t; }
    for _ in 0..1 + ctx.rng.below(4) { let (e, a, v) = ctx.rng.pick(&fs).clone(); let i = Item::Ret(EP::Id(e), AP::Id(a), VP::Lit(v)); if !t.contains(&i) { t.push(i); } }
    t
}
