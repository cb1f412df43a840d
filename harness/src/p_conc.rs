//! P25: readers on other connections and threads, while one connection writes.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_pull::{pulled_of, text_of, Pulled};
use crate::p_store::{diff_schema, gen_any};
use crate::p_tx::start;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use crate::vfs;
use mentat::Queryable;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P25", rule: "A distinct observation (a read transaction, a query or an opening on a reader's connection) that overlapped the writer's work, matched with a committed prefix.",
        case: p25, quick: (1200, 40), thorough: (100_000, 600), min_nontrivial: 300, workers: 3,
        assumptions: &["One connection writes; readers have a connection each, as SQLite's WAL mode allows. A reader that is told that the store is busy has observed nothing.",
            "Readers' own attribute caches aren't in use: they are filled on the connection that caches."] }]
}

const ALL: &str = "[:find ?e ?a ?v ?tx :where [?e ?a ?v ?tx]]";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How { Query, Transaction, Open, Lookups, Pull }

struct Seen {
    reader: usize,
    how: How,
    /// Commits acknowledged before it began, and begun before it ended.
    acked: usize,
    begun: usize,
    facts: Vec<Facts>,
    /// (entity, attribute) and its values.
    values: Vec<((i64, i64), Vec<V>)>,
    last_tx: Option<i64>,
    schema: Option<Schema>,
    /// The attributes pulled (the first is the one that entities were found by), and what was found.
    pulled: Option<(Vec<Probe>, BTreeMap<i64, Pulled>)>,
}

/// An attribute: id, whether many, ident.
type Probe = (i64, bool, String);

struct Shared { acked: AtomicUsize, begun: AtomicUsize, done: AtomicBool, reads: AtomicUsize }

fn busy(e: &str) -> bool { e.contains("database is locked") || e.contains("database table is locked") || e.contains("busy") }

fn read_one(rng: &mut Rng, real: &mut Real, path: &PathBuf, me: usize, sh: &Shared, probes: &[(i64, i64, String)], attrs: &[Probe]) -> R<Option<Seen>> {
    let how = [How::Query, How::Transaction, How::Open, How::Lookups, How::Pull][rng.weighted(&[45, 35, if probes.is_empty() { 25 } else { 8 }, if probes.is_empty() { 0 } else { 12 }, if attrs.is_empty() { 0 } else { 40 }])];
    let acked = sh.acked.load(Ordering::SeqCst);
    let mut s = Seen { reader: me, how, acked, begun: 0, facts: vec![], values: vec![], last_tx: None, schema: None, pulled: None };
    let err: Option<String> = match how {
        How::Query => match real.q(ALL)? { Ok(r) => { s.facts.push(facts_by(|_| Ok(Ok(r.clone())))?); None } Err(e) => Some(e) },
        How::Transaction => {
            let n = 2 + rng.below(3);
            let rd = call("begin_read", || real.conn.begin_read(&mut real.sqlite).map_err(|e| e.to_string()))?;
            match rd {
                Err(e) => Some(e),
                Ok(rd) => {
                    let mut err = None;
                    for _ in 0..n {
                        match call("read", || rd.q_once(ALL, None).map(|o| o.results).map_err(|e| e.to_string()))? { Ok(r) => s.facts.push(facts_by(|_| Ok(Ok(r.clone())))?), Err(e) => { err = Some(e); break; } }
                        if rng.pct(40) { std::thread::sleep(std::time::Duration::from_micros(rng.below(1500) as u64)); }
                    }
                    err
                }
            }
        }
        How::Open => {
            let r = call("open store", || -> Result<Real, String> {
                let mut sqlite = mentat::new_connection(path).map_err(|e| e.to_string())?;
                limit_work(&sqlite);
                let conn = mentat::Conn::connect(&mut sqlite).map_err(|e| e.to_string())?;
                Ok(Real { sqlite, conn })
            })?;
            match r {
                Err(e) => Some(e),
                Ok(other) => {
                    s.last_tx = Some(other.conn.last_tx_id());
                    s.schema = Some(other.schema());
                    match other.q(ALL)? { Ok(r) => { s.facts.push(facts_by(|_| Ok(Ok(r.clone())))?); None } Err(e) => Some(e) }
                }
            }
        }
        How::Pull => {
            let mut at = attrs.to_vec();
            rng.shuffle(&mut at);
            at.truncate(1 + rng.below(4));
            let text = format!("[:find ?e (pull ?e [{}]) :where [?e {} _]]", at.iter().map(|a| a.2.as_str()).collect::<Vec<_>>().join(" "), at[0].2);
            // "The caller is responsible for ensuring that the SQLite connection has an open transaction if isolation is required."
            let rd = match call("begin_read", || real.conn.begin_read(&mut real.sqlite).map_err(|e| e.to_string()))? { Err(e) => return if busy(&e) { Ok(None) } else { bad(format!("begin_read failed: {}", e)) }, Ok(rd) => rd };
            match call("pull", || rd.q_once(&text, None).map(|o| o.results).map_err(|e| e.to_string()))? {
                Err(e) => Some(e),
                Ok(mentat::QueryResults::Rel(rel)) => {
                    let mut found = BTreeMap::new();
                    for row in rel.rows() {
                        match (&row[0], &row[1]) {
                            (mentat::Binding::Scalar(mentat::TypedValue::Ref(e)), mentat::Binding::Map(p)) => { found.insert(*e, pulled_of(p)?); }
                            x => return bad(format!("{} gave {:?}", text, x)),
                        }
                    }
                    s.pulled = Some((at, found));
                    None
                }
                Ok(x) => return bad(format!("{} gave {:?}", text, x)),
            }
        }
        How::Lookups => {
            let rd = call("begin_read", || real.conn.begin_read(&mut real.sqlite).map_err(|e| e.to_string()))?;
            match rd {
                Err(e) => Some(e),
                Ok(rd) => {
                    let mut err = None;
                    for _ in 0..4 {
                        let p = rng.pick(probes).clone();
                        match call("lookup", || rd.lookup_values_for_attribute(p.0, &kw(&p.2)).map_err(|e| e.to_string()))? {
                            Ok(v) => { let mut v: Vec<V> = v.iter().map(V::of).collect(); v.sort(); s.values.push(((p.0, p.1), v)); }
                            Err(e) => { err = Some(e); break; }
                        }
                    }
                    if err.is_none() { match call("read", || rd.q_once(ALL, None).map(|o| o.results).map_err(|e| e.to_string()))? { Ok(r) => s.facts.push(facts_by(|_| Ok(Ok(r.clone())))?), Err(e) => err = Some(e) } }
                    err
                }
            }
        }
    };
    s.begun = sh.begun.load(Ordering::SeqCst);
    sh.reads.fetch_add(1, Ordering::SeqCst);
    match err {
        None => Ok(Some(s)),
        Some(e) => if busy(&e) { Ok(None) } else { bad(format!("{:?} by reader {} failed: {}", how, me, e)) },
    }
}

fn reader(mut rng: Rng, path: PathBuf, me: usize, sh: Arc<Shared>, probes: Vec<(i64, i64, String)>, attrs: Vec<Probe>, max: usize) -> R<(Vec<Seen>, u64)> {
    let mut real = Real::open_path(&path)?;
    let mut out = vec![];
    let mut busy = 0;
    while out.len() < max {
        let last = sh.done.load(Ordering::SeqCst);
        match read_one(&mut rng, &mut real, &path, me, &sh, &probes, &attrs)? { Some(s) => out.push(s), None => busy += 1 }
        if last { break; }
        if rng.pct(30) { std::thread::sleep(std::time::Duration::from_micros(rng.below(2500) as u64)); }
    }
    Ok((out, busy))
}

fn p25(ctx: &mut Ctx) -> R {
    vfs::install();
    let path = ctx.file("p25.db");
    for s in &["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", path.display(), s)); }
    vfs::name(path.clone());
    let (mut real, mut m, _) = start(ctx, path.to_str().unwrap())?;
    let o = TxOpts::default();
    for _ in 0..2 { let t = gen_any(ctx, &m, 0, &o); step(ctx, &mut real, &mut m, &t)?; }
    // with a changing vocabulary only whole reads are compared
    let schema_pct = if ctx.rng.pct(35) { 20 } else { 0 };
    let probes: Vec<(i64, i64, String)> = if schema_pct > 0 { vec![] } else {
        let ks: Vec<(String, i64)> = m.schema.idents.iter().filter(|(_, i)| **i >= USER0 && m.schema.attrs.get(i).map_or(false, |a| !a.fulltext)).map(|(k, i)| (k.clone(), *i)).collect();
        let es = user_entities(&m);
        if es.is_empty() { vec![] } else { (0..12).map(|_| { let k = ctx.rng.pick(&ks).clone(); (*ctx.rng.pick(&es), k.1, k.0) }).collect() }
    };
    let attrs: Vec<Probe> = if schema_pct > 0 { vec![] } else { m.schema.idents.iter().filter(|(_, i)| **i >= USER0).filter_map(|(k, i)| m.schema.attrs.get(i).map(|a| (*i, a.many, k.clone()))).collect() };
    let o = if schema_pct > 0 { o } else { TxOpts { idents: false, ..o } };
    let sh = Arc::new(Shared { acked: AtomicUsize::new(0), begun: AtomicUsize::new(0), done: AtomicBool::new(false), reads: AtomicUsize::new(0) });
    let mut states: Vec<Facts> = vec![m.facts.clone()];
    let mut schemas: Vec<Schema> = vec![m.schema.clone()];
    let mut txs: Vec<i64> = vec![m.next_tx - 1];
    let readers = 1 + ctx.rng.below(3);
    vfs::delays(if ctx.rng.pct(70) { *ctx.rng.pick(&[5u32, 20, 60]) } else { 0 });
    let handles: Vec<_> = (0..readers).map(|i| {
        let (p, sh, probes, attrs, rng) = (path.clone(), sh.clone(), probes.clone(), attrs.clone(), Rng::new(ctx.rng.u64()));
        std::thread::spawn(move || match guard(|| reader(rng, p, i, sh, probes, attrs, 60)) { Ok(r) => r, Err((loc, msg)) => bad(format!("reader panicked at {}: {}", loc, msg)) })
    }).collect();
    let w = write(ctx, &mut real, &mut m, &o, schema_pct, &sh, &mut states, &mut txs, &mut schemas);
    sh.done.store(true, Ordering::SeqCst);
    let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    vfs::delays(0);
    w?;
    let mut all = vec![];
    for r in results {
        let (s, b) = match r { Ok(r) => r?, Err(_) => return inconclusive("a reader's thread died") };
        ctx.add("reads_busy", b);
        all.push(s);
    }
    // by the last transaction: every commit asserts its own instant
    let by_tx: BTreeMap<i64, usize> = txs.iter().enumerate().map(|(i, t)| (*t, i)).collect();
    let mut prefixes: BTreeSet<usize> = BTreeSet::new();
    for seen in &all {
        let mut at0 = 0usize;
        for s in seen {
            let what = format!("{:?} by reader {} between {} acknowledged and {} begun commits", s.how, s.reader, s.acked, s.begun);
            let mut mine: Option<usize> = None;
            for f in &s.facts {
                let top = f.values().max().cloned().unwrap_or(0);
                let i = match by_tx.get(&top) { Some(i) => *i, None => return bad(format!("{} saw transaction {}, which was never committed", what, top)) };
                if let Some(d) = diff_facts(&states[i], f) { return bad(format!("{} saw part of a transaction or more than is committed: against the facts as of {}: {}", what, top, d)); }
                if let Some(p) = mine { if p != i { return bad(format!("{} saw two states in one read transaction: {} and {}", what, txs[p], txs[i])); } }
                mine = Some(i);
            }
            if let Some((at, found)) = &s.pulled {
                let want = |j: usize| -> BTreeMap<i64, Pulled> {
                    let mut w: BTreeMap<i64, Pulled> = BTreeMap::new();
                    for (e, _, _) in states[j].keys().filter(|f| f.1 == at[0].0) { w.entry(*e).or_default(); }
                    for (e, a, v) in states[j].keys() { if let (Some(p), Some(x)) = (w.get_mut(e), at.iter().find(|x| x.0 == *a)) { let c = p.entry(x.2.clone()).or_insert((x.1, vec![])); c.1.push(v.clone()); } }
                    for p in w.values_mut() { for c in p.values_mut() { c.1.sort(); } }
                    w
                };
                let fits: Vec<usize> = (s.acked.max(at0)..=s.begun.min(states.len() - 1)).filter(|j| want(*j) == *found).collect();
                match fits.first() {
                    None => return bad(format!("{}: pulled {:?} into {}, which is what no single state in between gives", what, at, found.iter().map(|(e, p)| format!("{} {}", e, text_of(p))).collect::<Vec<_>>().join(" "))),
                    Some(j) => { at0 = *j; ctx.count("observations_pull"); if s.acked < s.begun { ctx.count("observations_during_commits"); } ctx.eval(s.begun > 0, &format!("{}|{}|{}|pull|{}", ctx.index, s.acked, s.begun, j)); }
                }
                continue;
            }
            let i = match mine { Some(i) => i, None => continue };
            if i < s.acked { return bad(format!("{} missed commits that had been acknowledged: saw {}", what, i)); }
            if i > s.begun { return bad(format!("{} saw a commit that hadn't begun: {}", what, i)); }
            if i < at0 { return bad(format!("{} went back from {} to {}", what, at0, i)); }
            at0 = i;
            for ((e, a), v) in &s.values {
                let mut w: Vec<V> = states[i].keys().filter(|f| f.0 == *e && f.1 == *a).map(|f| f.2.clone()).collect();
                w.sort();
                if w != *v { return bad(format!("{}: lookup of {} {} gave {:?}, all facts {:?}", what, e, a, v, w)); }
            }
            if let Some(t) = s.last_tx { match by_tx.get(&t) { Some(j) if *j <= i && *j >= s.acked => (), _ => return bad(format!("{}: opened with last transaction {}, saw {}", what, t, txs[i])) } }
            if let (Some(t), Some(sc)) = (s.last_tx, &s.schema) { if let Some(j) = by_tx.get(&t) { let d = diff_schema(&schemas[*j], sc); if !d.is_empty() { return bad(format!("{}: opened with the schema of another moment than its last transaction {}: {}", what, t, d)); } } }
            prefixes.insert(i);
            ctx.count(&format!("observations_{:?}", s.how).to_lowercase());
            if s.acked < s.begun { ctx.count("observations_during_commits"); }
            ctx.eval(s.begun > 0, &format!("{}|{}|{}|{:?}|{}", ctx.index, s.acked, s.begun, s.how, i));
        }
    }
    if ctx.rng.pct(25) { side_by_side(ctx, &mut real, &mut m, &path, &o)?; }
    ctx.add("prefixes_observed", prefixes.len() as u64);
    ctx.add("commits", (states.len() - 1) as u64);
    ctx.sample(|| format!("{} commits, {} readers, prefixes {:?}", states.len() - 1, readers, prefixes));
    drop(real);
    for s in &["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", path.display(), s)); }
    Ok(())
}

fn write(ctx: &mut Ctx, real: &mut Real, m: &mut Model, o: &TxOpts, schema_pct: u32, sh: &Shared, states: &mut Vec<Facts>, txs: &mut Vec<i64>, schemas: &mut Vec<Schema>) -> R {
    for _ in 0..10 {
        let n = if ctx.rng.pct(50) { 1 } else { 1 + ctx.rng.below(4) };
        let end = ctx.rng.weighted(&[65, 20, 15]);
        let single = n == 1 && ctx.rng.pct(60);
        if single {
            let t = gen_any(ctx, m, schema_pct, o);
            let text = tx_text(&t);
            ctx.note(format!("transact {}", text));
            let out = m.eval(&t);
            if let Outcome::Open(_) = out { continue; }
            sh.begun.fetch_add(1, Ordering::SeqCst);
            let got = real.transact(&text)?;
            let ok = got.is_ok();
            if let Err(e) = &got { if busy(e) { return inconclusive("the writer found the store busy"); } }
            if ok { sh.acked.fetch_add(1, Ordering::SeqCst); } else { sh.begun.fetch_sub(1, Ordering::SeqCst); }
            settle(ctx, real, m, out, got)?;
            if ok { states.push(m.facts.clone()); schemas.push(m.schema.clone()); txs.push(m.next_tx - 1); }
        } else {
            let mut m2 = m.clone();
            let mut any = 0;
            {
                let mut ip = match call("begin", || real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string()))? { Ok(i) => i, Err(e) => return if busy(&e) { inconclusive("the writer found the store busy") } else { bad(format!("cannot begin: {}", e)) } };
                ctx.note("begin");
                for _ in 0..n {
                    let t = gen_any(ctx, &m2, schema_pct, o);
                    let text = tx_text(&t);
                    let out = m2.eval(&t);
                    if let Outcome::Open(_) = out { continue; }
                    ctx.note(format!(" step {}", text));
                    let got = call(&text, || ip.transact(text.as_str()).map(|r| report(&r)).map_err(|e| e.to_string()))?;
                    if got.is_ok() { any += 1; }
                    settle_on(ctx, &ip.transaction, &mut m2, out, got)?;
                    // let readers look at the store before it is committed
                    if ctx.rng.pct(50) { let r0 = sh.reads.load(Ordering::SeqCst); for _ in 0..20 { if sh.reads.load(Ordering::SeqCst) > r0 { break; } std::thread::sleep(std::time::Duration::from_micros(200)); } }
                }
                ctx.note(["commit", "rollback", "drop"][end]);
                match end {
                    0 => {
                        if any > 0 { sh.begun.fetch_add(1, Ordering::SeqCst); }
                        if let Err(e) = call("commit", || ip.commit().map_err(|e| e.to_string()))? { return if busy(&e) { inconclusive("busy") } else { bad(format!("commit failed: {}", e)) }; }
                        if any > 0 { sh.acked.fetch_add(1, Ordering::SeqCst); }
                    }
                    1 => { if let Err(e) = call("rollback", || ip.rollback().map_err(|e| e.to_string()))? { return bad(format!("rollback failed: {}", e)); } ctx.count("rolled_back"); }
                    _ => { drop(ip); ctx.count("dropped"); }
                }
            }
            if end == 0 { *m = m2; } if end == 0 && any > 0 { states.push(m.facts.clone()); schemas.push(m.schema.clone()); txs.push(m.next_tx - 1); if any > 1 { ctx.count("commits_of_several_transactions"); } }
        }
    }
    Ok(())
}

/// With a transaction in progress on one connection, another reads what is committed, at once, and cannot begin to write.
fn side_by_side(ctx: &mut Ctx, real: &mut Real, m: &mut Model, path: &PathBuf, o: &TxOpts) -> R {
    let mut other = Real::open_path(path)?;
    other.sqlite.busy_timeout(std::time::Duration::from_millis(0)).h("busy_timeout")?;
    let before = m.facts.clone();
    let mut m2 = m.clone();
    {
        let mut ip = match call("begin", || real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string()))? { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
        for _ in 0..ctx.rng.below(3) {
            let t = gen_any(ctx, &m2, 0, o);
            let text = tx_text(&t);
            let out = m2.eval(&t);
            if let Outcome::Open(_) = out { continue; }
            ctx.note(format!(" step {}", text));
            let got = call(&text, || ip.transact(text.as_str()).map(|r| report(&r)).map_err(|e| e.to_string()))?;
            settle_on(ctx, &ip.transaction, &mut m2, out, got)?;
        }
        for cached in &[true, false] {
            let rd = call("begin_read", || if *cached { other.conn.begin_read(&mut other.sqlite) } else { other.conn.begin_uncached_read(&mut other.sqlite) }.map_err(|e| e.to_string()))?;
            let rd = match rd { Ok(r) => r, Err(e) => return bad(format!("a reader was shut out by a transaction in progress elsewhere: {}", e)) };
            match call("read", || rd.q_once(ALL, None).map(|o| o.results).map_err(|e| e.to_string()))? {
                Ok(r) => { let f = facts_by(|_| Ok(Ok(r.clone())))?; if let Some(d) = diff_facts(&before, &f) { return bad(format!("beside a transaction in progress a reader saw: {}", d)); } }
                Err(e) => return bad(format!("a reader was shut out by a transaction in progress elsewhere: {}", e)),
            }
        }
        if call("begin", || other.conn.begin_transaction(&mut other.sqlite).map(|_| ()).map_err(|e| e.to_string()))?.is_ok() { return bad("two connections had transactions in progress at once"); }
        ctx.count("observations_side_by_side");
        if ctx.rng.pct(60) { if let Err(e) = call("commit", || ip.commit().map_err(|e| e.to_string()))? { return bad(format!("commit failed: {}", e)); } *m = m2; }
    }
    match other.q(ALL)? {
        Ok(r) => { let f = facts_by(|_| Ok(Ok(r.clone())))?; if let Some(d) = diff_facts(&m.facts, &f) { return bad(format!("after a transaction in progress elsewhere ended a reader saw: {}", d)); } Ok(()) }
        Err(e) => bad(format!("a reader was shut out: {}", e)),
    }
}
