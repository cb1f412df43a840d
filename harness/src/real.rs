//! Driving the real store and observing it (raw tables and API), plus model/real agreement.
use crate::fw::*;
use crate::model::*;
use crate::val::*;
use mentat::{Conn, QueryResults, Binding};
use mentat_core::HasSchema;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub struct Real {
    pub sqlite: rusqlite::Connection,
    pub conn: Conn,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Report {
    pub tx_id: i64,
    pub instant: i64,
    pub temps: BTreeMap<String, i64>,
}

impl Real {
    pub fn memory() -> R<Real> { Real::open("") }
    pub fn open(path: &str) -> R<Real> {
        let r = call("open store", || -> Result<Real, String> {
            let mut sqlite = mentat::new_connection(path).map_err(|e| e.to_string())?;
            limit_work(&sqlite);
            let conn = Conn::connect(&mut sqlite).map_err(|e| e.to_string())?;
            Ok(Real { sqlite, conn })
        })?;
        r.map_err(|e| Bad::Violation { sig: String::new(), msg: format!("cannot open store {:?}: {}", path, e) })
    }
    pub fn open_path(p: &Path) -> R<Real> { Real::open(p.to_str().unwrap()) }

    /// Run a transaction; the outer error is a panic, the inner one a refusal.
    pub fn transact(&mut self, text: &str) -> R<Result<Report, String>> {
        let (s, c) = (&mut self.sqlite, &mut self.conn);
        call(&format!("transact {}", text), || c.transact(s, text).map(|r| report(&r)).map_err(|e| e.to_string()))
    }
    pub fn schema(&self) -> Schema { schema_of(&self.conn.current_schema()) }
    pub fn q(&self, query: &str) -> R<Result<QueryResults, String>> {
        call(&format!("query {}", query), || self.conn.q_once(&self.sqlite, query, None).map(|o| o.results).map_err(|e| e.to_string()))
    }
    pub fn facts(&self) -> R<Facts> { facts_of(&self.sqlite) }
    pub fn log(&self) -> R<Vec<(i64, LogEntry)>> { log_of(&self.sqlite, 0) }
    /// (next user id, next tx id) as the live connection would allocate them.
    pub fn next_tx(&self) -> i64 { self.conn.last_tx_id() + 1 }
    pub fn model(&self) -> R<Model> {
        let f = self.facts()?;
        let log = self.log()?;
        let nu = stored_next_user(&log);
        Ok(Model::new(f, log, nu, self.next_tx()))
    }
}

pub fn report(r: &mentat::TxReport) -> Report {
    Report { tx_id: r.tx_id, instant: inst_micros(&r.tx_instant), temps: r.tempids.iter().map(|(k, v)| (k.to_string(), *v)).collect() }
}

/// Highest user-partition entity mentioned in the log, plus one.
pub fn stored_next_user(log: &[(i64, LogEntry)]) -> i64 {
    let mut n = USER0;
    for (_, es) in log {
        for (e, _, v, _) in es {
            for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
                if x >= n && x < TX0 { n = x + 1; }
            }
        }
    }
    n
}

pub fn fulltext_map(s: &rusqlite::Connection) -> R<BTreeMap<i64, String>> {
    let mut st = s.prepare("SELECT rowid, text FROM fulltext_values").h("fulltext_values")?;
    let it = st.query_map(rusqlite::NO_PARAMS, |r| Ok((r.get::<_, i64>(0)?, r.get::<_, String>(1)?))).h("fulltext_values")?;
    let mut m = BTreeMap::new();
    for x in it { let (k, v) = x.h("fulltext row")?; m.insert(k, v); }
    Ok(m)
}

fn decode(v: rusqlite::types::Value, tag: i64, ft: &BTreeMap<i64, String>) -> R<V> {
    if let (rusqlite::types::Value::Integer(r), 10) = (&v, tag) {
        return match ft.get(r) { Some(s) => Ok(V::Str(s.clone())), None => bad(format!("fact refers to missing full-text value {}", r)) };
    }
    V::of_sql(v, tag).map_err(|e| Bad::Violation { sig: String::new(), msg: format!("stored fact unreadable: {}", e) })
}

pub fn facts_of(s: &rusqlite::Connection) -> R<Facts> {
    let ft = fulltext_map(s)?;
    let mut st = s.prepare("SELECT e, a, v, value_type_tag, tx FROM datoms").h("datoms")?;
    let mut rows = st.query(rusqlite::NO_PARAMS).h("datoms")?;
    let mut f = Facts::new();
    while let Some(r) = rows.next().h("datoms row")? {
        let v = decode(r.get(2).h("v")?, r.get(3).h("tag")?, &ft)?;
        let k = (r.get(0).h("e")?, r.get(1).h("a")?, v);
        if f.insert(k.clone(), r.get(4).h("tx")?).is_some() { return bad(format!("fact stored twice: {:?}", k)); }
    }
    Ok(f)
}

pub fn log_of(s: &rusqlite::Connection, timeline: i64) -> R<Vec<(i64, LogEntry)>> {
    let ft = fulltext_map(s)?;
    let mut st = s.prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline = ? ORDER BY tx").h("log")?;
    let mut rows = st.query(&[&timeline]).h("log")?;
    let mut m: Vec<(i64, LogEntry)> = vec![];
    while let Some(r) = rows.next().h("log row")? {
        let v = decode(r.get(2).h("v")?, r.get(3).h("tag")?, &ft)?;
        let tx: i64 = r.get(4).h("tx")?;
        let k = (r.get(0).h("e")?, r.get(1).h("a")?, v, r.get::<_, bool>(5).h("added")?);
        if m.last().map(|x| x.0) != Some(tx) { m.push((tx, LogEntry::new())); }
        if !m.last_mut().unwrap().1.insert(k.clone()) { return bad(format!("log entry recorded twice in tx {}: {:?}", tx, k)); }
    }
    Ok(m)
}

pub fn attr_of(a: &core_traits::Attribute) -> Attr {
    use core_traits::attribute::Unique;
    Attr {
        vt: VT::of_core(a.value_type), many: a.multival,
        unique: match a.unique { None => Uniq::No, Some(Unique::Value) => Uniq::Value, Some(Unique::Identity) => Uniq::Identity },
        index: a.index, fulltext: a.fulltext, component: a.component, no_history: a.no_history,
    }
}
pub fn schema_of(s: &mentat_core::Schema) -> Schema {
    Schema {
        attrs: s.attribute_map.iter().map(|(k, v)| (*k, attr_of(v))).collect(),
        idents: s.ident_map.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
    }
}
/// The materialised idents and schema tables, read with our own code.
pub fn metadata_tables(s: &rusqlite::Connection) -> R<(BTreeSet<Fact>, BTreeSet<Fact>)> {
    let get = |t: &str| -> R<BTreeSet<Fact>> {
        let mut st = s.prepare(&format!("SELECT e, a, v, value_type_tag FROM {}", t)).h(t)?;
        let mut rows = st.query(rusqlite::NO_PARAMS).h(t)?;
        let mut o = BTreeSet::new();
        let ft = BTreeMap::new();
        while let Some(r) = rows.next().h(t)? { o.insert((r.get(0).h("e")?, r.get(1).h("a")?, decode(r.get(2).h("v")?, r.get(3).h("tag")?, &ft)?)); }
        Ok(o)
    };
    Ok((get("idents")?, get("schema")?))
}

/// Raw dump of every persistent table, for exact before/after comparison.
pub fn dump(s: &rusqlite::Connection) -> R<Vec<String>> {
    let mut out = vec![];
    for (t, cols) in &[("datoms", "e,a,v,tx,value_type_tag,index_avet,index_vaet,index_fulltext,unique_value"), ("timelined_transactions", "e,a,v,tx,added,value_type_tag,timeline"),
        ("fulltext_values", "rowid,text"), ("idents", "e,a,v,value_type_tag"), ("schema", "e,a,v,value_type_tag"), ("known_parts", "part,start,end,allow_excision"), ("parts", "part,start,idx")] {
        let mut st = s.prepare(&format!("SELECT {} FROM {}", cols, t)).h(t)?;
        let n = st.column_count();
        let mut rows = st.query(rusqlite::NO_PARAMS).h(t)?;
        while let Some(r) = rows.next().h(t)? {
            let mut l = t.to_string();
            for i in 0..n { l.push_str(&format!(" {:?}", r.get::<_, rusqlite::types::Value>(i).h("col")?)); }
            out.push(l);
        }
    }
    out.sort();
    Ok(out)
}
pub fn diff_lines(a: &[String], b: &[String]) -> Option<String> {
    let (x, y): (BTreeSet<&String>, BTreeSet<&String>) = (a.iter().collect(), b.iter().collect());
    let mut o: Vec<String> = x.difference(&y).map(|l| format!("lost {}", l)).collect();
    o.extend(y.difference(&x).map(|l| format!("new {}", l)));
    if o.is_empty() { return if a.len() != b.len() { Some("row count changed".into()) } else { None }; }
    o.truncate(10);
    Some(o.join("; "))
}

/// Check the lookup directions and the component list of a live schema agree with its maps.
pub fn check_schema_internal(s: &mentat_core::Schema) -> R {
    for (k, e) in &s.ident_map {
        if s.get_ident(*e) != Some(k) { return bad(format!("ident {} names {} but {} is named {:?}", k, e, e, s.get_ident(*e))); }
        if s.get_entid(k).map(|x| x.0) != Some(*e) { return bad(format!("ident {} does not resolve to {}", k, e)); }
    }
    for (e, k) in &s.entid_map {
        if s.ident_map.get(k) != Some(e) { return bad(format!("entity {} is named {} but that ident names {:?}", e, k, s.ident_map.get(k))); }
    }
    // Every way of asking, for what is there and what isn't.
    let nobody: mentat::Keyword = kw(":nobody.at/all");
    for k in s.ident_map.keys().chain(std::iter::once(&nobody)) {
        let e = s.ident_map.get(k).cloned();
        let a = e.and_then(|e| s.attribute_map.get(&e).map(|a| (e, a)));
        if s.get_entid(k).map(|x| x.0) != e { return bad(format!("get_entid({}) is not {:?}", k, e)); }
        if s.identifies_attribute(k) != a.is_some() { return bad(format!("identifies_attribute({}) but attribute {:?}", k, a)); }
        if s.attribute_for_ident(k).map(|(a, e)| (e.0, a)) != a { return bad(format!("attribute_for_ident({}) is not {:?}", k, a)); }
    }
    for e in s.entid_map.keys().chain(s.attribute_map.keys()).cloned().chain(vec![0, -1, 1 << 50]) {
        let a = s.attribute_map.get(&e);
        if s.is_attribute(e) != a.is_some() || s.attribute_for_entid(e) != a { return bad(format!("the schema's accessors disagree with its map on {}: {:?}", e, a)); }
        if s.get_ident(e) != s.entid_map.get(&e) { return bad(format!("get_ident({}) is not {:?}", e, s.entid_map.get(&e))); }
    }
    let want: BTreeSet<i64> = s.attribute_map.iter().filter(|(_, a)| a.component).map(|(k, _)| *k).collect();
    let got: BTreeSet<i64> = s.component_attributes().iter().cloned().collect();
    if want != got { return bad(format!("component attributes {:?} but schema says {:?}", got, want)); }
    Ok(())
}

/// Rows of a relation result as our values.
pub fn rel_rows(r: &QueryResults) -> Option<Vec<Vec<V>>> {
    match r {
        QueryResults::Rel(rel) => {
            let mut out = vec![];
            for row in rel.rows() {
                let mut o = vec![];
                for b in row { match b { Binding::Scalar(tv) => o.push(V::of(tv)), _ => return None } }
                out.push(o);
            }
            Some(out)
        }
        _ => None,
    }
}

/// All facts through the query interface.
pub fn facts_by_query(r: &Real) -> R<Facts> { facts_by(|q| r.q(q)) }
pub fn facts_by(run: impl Fn(&str) -> R<Result<QueryResults, String>>) -> R<Facts> {
    let q = "[:find ?e ?a ?v ?tx :where [?e ?a ?v ?tx]]";
    let res = match run(q)? { Ok(x) => x, Err(e) => return bad(format!("{} failed: {}", q, e)) };
    let rows = match rel_rows(&res) { Some(x) => x, None => return bad("relation expected") };
    let mut f = Facts::new();
    for row in rows {
        match (&row[0], &row[1], &row[3]) {
            (V::Ref(e), V::Ref(a), V::Ref(tx)) => {
                if f.insert((*e, *a, row[2].clone()), *tx).is_some() { return bad(format!("query returned fact twice {:?}", row)); }
            }
            _ => return bad(format!("query returned oddly typed row {:?}", row)),
        }
    }
    Ok(f)
}

pub fn diff_facts(want: &Facts, got: &Facts) -> Option<String> {
    let mut o = vec![];
    for (k, t) in want {
        match got.get(k) {
            None => o.push(format!("missing [{} {} {}] (tx {})", k.0, k.1, k.2, t)),
            Some(x) if x != t => o.push(format!("[{} {} {}] has tx {} instead of {}", k.0, k.1, k.2, x, t)),
            _ => (),
        }
    }
    for (k, t) in got { if !want.contains_key(k) { o.push(format!("unexpected [{} {} {}] (tx {})", k.0, k.1, k.2, t)); } }
    if o.is_empty() { None } else { o.truncate(12); Some(o.join("; ")) }
}

pub fn diff_entry(want: &LogEntry, got: &LogEntry) -> Option<String> {
    let mut o = vec![];
    for x in want.difference(got) { o.push(format!("missing {:?}", x)); }
    for x in got.difference(want) { o.push(format!("unexpected {:?}", x)); }
    if o.is_empty() { None } else { o.truncate(12); Some(o.join("; ")) }
}

/// Number the fresh entities of a plan from the report and, for unnamed ones, from the facts.
/// Returns the numbering that makes the model agree with the store, if there is one.
pub fn number_fresh(m: &Model, plan: &Plan, rep: &Report, got: &Facts) -> R<Vec<i64>> {
    let mut ids: Vec<Option<i64>> = vec![None; plan.nfresh];
    let want: BTreeSet<&String> = plan.temps.keys().collect();
    let have: BTreeSet<&String> = rep.temps.keys().collect();
    if want != have { return bad(format!("report names tempids {:?}, the transaction uses {:?}", have, want)); }
    for (t, e) in &plan.temps {
        let n = rep.temps[t];
        match e {
            Ent::Known(k) => if *k != n { return bad(format!("tempid {:?} should resolve to existing {} but the report says {}", t, k, n)); },
            Ent::Fresh(i) => match ids[*i] {
                None => ids[*i] = Some(n),
                Some(o) if o != n => return bad(format!("tempid {:?} should be the same new entity as another ({}), report says {}", t, o, n)),
                _ => (),
            },
        }
    }
    let named: BTreeSet<i64> = ids.iter().filter_map(|x| *x).collect();
    if named.len() != ids.iter().filter(|x| x.is_some()).count() { return bad(format!("distinct tempids share one new entity: {:?}", rep.temps)); }
    for n in &named { if *n < m.next_user || *n >= TX0 { return bad(format!("fresh entity {} is not fresh (next was {})", n, m.next_user)); } }
    let open: Vec<usize> = (0..plan.nfresh).filter(|i| ids[*i].is_none()).collect();
    if open.is_empty() { return Ok(ids.into_iter().map(|x| x.unwrap()).collect()); }
    // Candidates: new entities in the store (as e or v) that the report does not name.
    let mut cand: BTreeSet<i64> = BTreeSet::new();
    for ((e, _, v), t) in got {
        if *t != rep.tx_id { continue; }
        for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
            if x >= m.next_user && x < m.next_user + plan.nfresh as i64 + 8 && !named.contains(&x) { cand.insert(x); }
        }
    }
    let cand: Vec<i64> = cand.into_iter().collect();
    if cand.len() < open.len() { return bad(format!("expected {} unnamed new entities, store shows {:?}", open.len(), cand)); }
    let inst = m.boot.get(":db/txInstant");
    let _ = inst;
    // Backtracking over assignments (few unknowns).
    let mut tries = 0usize;
    fn rec(m: &Model, plan: &Plan, rep: &Report, got: &Facts, ids: &mut Vec<Option<i64>>, open: &[usize], cand: &[i64], tries: &mut usize) -> Option<Vec<i64>> {
        if open.is_empty() {
            *tries += 1;
            let full: Vec<i64> = ids.iter().map(|x| x.unwrap()).collect();
            let mut c = m.clone();
            if c.apply(plan, &full, rep.instant).is_ok() && c.facts == *got { return Some(full); }
            return None;
        }
        for c in cand {
            if ids.iter().any(|x| *x == Some(*c)) { continue; }
            ids[open[0]] = Some(*c);
            if *tries < 3000 { if let Some(r) = rec(m, plan, rep, got, ids, &open[1..], cand, tries) { return Some(r); } }
            ids[open[0]] = None;
        }
        None
    }
    if let Some(r) = rec(m, plan, rep, got, &mut ids, &open, &cand, &mut tries) { return Ok(r); }
    if tries >= 3000 { return inconclusive("too many unnamed new entities to match"); }
    // No numbering agrees: return any, the comparison that follows reports the difference.
    for (i, o) in open.iter().enumerate() { ids[*o] = Some(cand[i]); }
    Ok(ids.into_iter().map(|x| x.unwrap()).collect())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Did { Accepted, Refused, Open }

/// Transact on both sides and check they agree; the model is advanced.
/// This is the core of several monitors.
pub fn step(ctx: &mut Ctx, real: &mut Real, m: &mut Model, tx: &[Item]) -> R<Did> {
    let text = tx_text(tx);
    ctx.note(format!("transact {}", text));
    let out = m.eval(tx);
    let got = real.transact(&text)?;
    settle(ctx, real, m, out, got)
}

pub fn settle(ctx: &mut Ctx, real: &Real, m: &mut Model, out: Outcome, got: Result<Report, String>) -> R<Did> {
    settle_on(ctx, &real.sqlite, m, out, got)
}

pub fn settle_on(ctx: &mut Ctx, sqlite: &rusqlite::Connection, m: &mut Model, out: Outcome, got: Result<Report, String>) -> R<Did> {
    match (out, got) {
        (Outcome::Reject(why), Ok(rep)) => bad(format!("accepted a transaction that must be refused ({}): tx {}", why, rep.tx_id)),
        (Outcome::Accept(_), Err(e)) => bad(format!("refused a valid transaction: {}", e)),
        (Outcome::Reject(why), Err(e)) => {
            ctx.note(format!("  refused as expected ({}): {}", why, e.chars().take(100).collect::<String>()));
            ctx.count("tx_refused");
            Ok(Did::Refused)
        }
        (Outcome::Open(w), Err(e)) => { ctx.note(format!("  open ({}), refused: {}", w, e)); ctx.count("tx_open"); Ok(Did::Open) }
        (Outcome::Open(w), Ok(_)) => {
            ctx.note(format!("  open ({}), accepted: resync", w));
            ctx.count("tx_open");
            let f = facts_of(sqlite)?;
            let log = log_of(sqlite, 0)?;
            let (nu, nt) = (stored_next_user(&log).max(m.next_user), m.next_tx + 1);
            *m = Model { boot: m.boot.clone(), schema: m.schema.clone(), facts: f, log, next_user: nu, next_tx: nt };
            m.schema = m.derive_schema();
            Ok(Did::Open)
        }
        (Outcome::Accept(plan), Ok(rep)) => {
            ctx.note(format!("  ok tx {} {:?}", rep.tx_id, rep.temps));
            if rep.tx_id != m.next_tx { return bad(format!("transaction id {} but {} was next", rep.tx_id, m.next_tx)); }
            if let Some(us) = plan.tx_instant { if us != rep.instant { return bad(format!("reported instant {} but the transaction asserts {}", rep.instant, us)); } }
            let got = facts_of(sqlite)?;
            let ids = number_fresh(m, &plan, &rep, &got)?;
            if let Err(e) = m.apply(&plan, &ids, rep.instant) { return inconclusive(format!("model cannot apply: {}", e)); }
            if let Some(x) = ids.iter().max() { m.next_user = m.next_user.max(x + 1); }
            if let Some(d) = diff_facts(&m.facts, &got) { return bad(format!("facts after tx {} differ from what it asserts: {}", rep.tx_id, d)); }
            ctx.count("tx_accepted");
            ctx.add("fresh_entities", plan.nfresh as u64);
            ctx.add("upserts", plan.upserted as u64);
            let e = &m.log.last().unwrap().1;
            ctx.add("log_additions", e.iter().filter(|x| x.3).count() as u64);
            ctx.add("log_retractions", e.iter().filter(|x| !x.3).count() as u64);
            Ok(Did::Accepted)
        }
    }
}

pub fn check_log(real: &rusqlite::Connection, m: &Model) -> R {
    let log = log_of(real, 0)?;
    if log.len() != m.log.len() { return bad(format!("log has {} transactions, expected {}", log.len(), m.log.len())); }
    for ((t, g), (wt, w)) in log.iter().zip(m.log.iter()) {
        if t != wt { return bad(format!("log transaction id {} expected {}", t, wt)); }
        if let Some(d) = diff_entry(w, g) { return bad(format!("log of tx {}: {}", t, d)); }
    }
    Ok(())
}
