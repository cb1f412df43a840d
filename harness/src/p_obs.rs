//! P19: what observers are told, against the log.
use crate::p_store;
use crate::fw::*;
use crate::gen::*;
use crate::p_build;
use crate::model::*;
use crate::p_store::gen_any;
use crate::p_tx::start;
use crate::real::*;
use mentat::{AttributeSet, TxObserver};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P19", rule: "A distinct commit about which at least one observer must be told.",
            case: p19, quick: (1500, 35), thorough: (100_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["The order of delivery is judged per observer, not between observers.",
                "An observer that panics is left out.",
                "That everything was delivered is judged once the connection is gone and its worker let go of the observers (within 60 s)."] },
    ]
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Event { key: String, reports: Vec<(i64, BTreeSet<i64>)> }

/// What happened: per observer, the events; and complaints of the observers themselves.
#[derive(Default)]
struct Heard { events: Vec<(usize, Event)>, early: Vec<String>, looked: u64 }

struct Obs { id: usize, attrs: AttributeSet, o: Arc<TxObserver> }

struct World {
    heard: Arc<Mutex<Heard>>,
    regs: BTreeMap<String, Arc<Obs>>,
    made: Vec<Arc<Obs>>,
    want: Vec<(usize, Event)>,
    nobs: usize,
}

fn observer(ctx: &mut Ctx, w: &mut World, m: &Model, path: &str) -> Arc<Obs> {
    let mut attrs = AttributeSet::new();
    let all: Vec<i64> = m.schema.attrs.keys().cloned().collect();
    let user: Vec<i64> = all.iter().filter(|a| **a >= USER0).cloned().collect();
    match ctx.rng.below(10) {
        0 => {}
        1 => { attrs.insert(m.boot.get(":db/txInstant")); }
        2 => { attrs.insert(ctx.rng.range(1, 70000)); }
        3 => { for a in &all { if ctx.rng.pct(50) { attrs.insert(*a); } } }
        4 => { for k in &[":db/ident", ":db/cardinality", ":db/valueType", ":db/doc"] { if ctx.rng.pct(60) { attrs.insert(m.boot.get(k)); } } }
        _ => { for _ in 0..1 + ctx.rng.below(3) { if !user.is_empty() { attrs.insert(*ctx.rng.pick(&user)); } } }
    }
    let id = w.nobs;
    w.nobs += 1;
    let heard = w.heard.clone();
    let slow = if ctx.rng.pct(25) { ctx.rng.below(1500) as u64 } else { 0 };
    let look = if !path.is_empty() && ctx.rng.pct(50) { Some(path.to_string()) } else { None };
    let o = TxObserver::new(attrs.clone(), move |key, reports| {
        if slow > 0 { std::thread::sleep(Duration::from_micros(slow)); }
        let reports: Vec<(i64, BTreeSet<i64>)> = reports.iter().map(|(t, a)| (**t, a.iter().cloned().collect())).collect();
        if let Some(ref p) = look {
            // what is reported must be there for others to see
            if let Ok(c) = rusqlite::Connection::open_with_flags(p, rusqlite::OpenFlags::SQLITE_OPEN_READ_WRITE) {
                let _ = c.busy_timeout(Duration::from_secs(20));
                for (t, _) in &reports {
                    let n: Result<i64, _> = c.query_row("SELECT count(*) FROM timelined_transactions WHERE tx = ? AND timeline = 0", &[t], |r| r.get(0));
                    let mut h = heard.lock().unwrap();
                    match n { Ok(0) => h.early.push(format!("{} was told of tx {} before another connection could see it", key, t)), Ok(_) => h.looked += 1, Err(_) => {} }
                }
            }
        }
        heard.lock().unwrap().events.push((id, Event { key: key.to_string(), reports }));
    });
    let o = Arc::new(Obs { id, attrs, o: Arc::new(o) });
    w.made.push(o.clone());
    o
}

/// The events a commit of these transactions must cause.
fn expect(w: &mut World, txs: &[(i64, LogEntry)]) -> bool {
    let mut any = false;
    for (key, o) in &w.regs {
        let reports: Vec<(i64, BTreeSet<i64>)> = txs.iter()
            .map(|(t, e)| (*t, e.iter().map(|x| x.1).collect::<BTreeSet<i64>>()))
            .filter(|(_, a)| a.iter().any(|x| o.attrs.contains(x))).collect();
        if reports.is_empty() { continue; }
        any = true;
        w.want.push((o.id, Event { key: key.clone(), reports }));
    }
    any
}

fn finish(ctx: &mut Ctx, w: &mut World, real: Real) -> R {
    drop(real);
    w.regs.clear();
    w.made.clear();
    let t0 = Instant::now();
    while Arc::strong_count(&w.heard) > 1 {
        if t0.elapsed() > Duration::from_secs(60) { return bad("a minute after the connection was closed, observers are still held"); }
        std::thread::sleep(Duration::from_micros(200));
    }
    let h = std::mem::take(&mut *w.heard.lock().unwrap());
    let want = std::mem::take(&mut w.want);
    if let Some(e) = h.early.first() { return bad(e.clone()); }
    ctx.add("looked_from_another_connection", h.looked);
    ctx.add("events", h.events.len() as u64);
    let mut chans: BTreeSet<(usize, String)> = BTreeSet::new();
    for (i, e) in h.events.iter().chain(want.iter()) { chans.insert((*i, e.key.clone())); }
    for (i, k) in chans {
        let f = |l: &[(usize, Event)]| -> Vec<Event> { l.iter().filter(|x| x.0 == i && x.1.key == k).map(|x| x.1.clone()).collect() };
        let (got, wanted) = (f(&h.events), f(&want));
        ctx.count("observer_histories");
        if got != wanted {
            let n = got.iter().zip(wanted.iter()).take_while(|(a, b)| a == b).count();
            return bad(format!("observer {} as {:?}: told {} times, expected {}; first difference: told {:?}, expected {:?}", i, k, got.len(), wanted.len(), got.get(n), wanted.get(n)));
        }
    }
    Ok(())
}

const KEYS: [&str; 4] = ["a", "b", "", "ключ"];

fn register(ctx: &mut Ctx, w: &mut World, real: &mut Real, m: &Model, path: &str) {
    let key = ctx.rng.pick(&KEYS).to_string();
    let o = if !w.made.is_empty() && ctx.rng.pct(20) { let i = ctx.rng.below(w.made.len()); w.made[i].clone() } else { observer(ctx, w, m, path) };
    ctx.note(format!("register {:?}: observer {} of {:?}", key, o.id, o.attrs));
    if w.regs.contains_key(&key) { ctx.count("replaced"); }
    real.conn.register_observer(key.clone(), o.o.clone());
    w.regs.insert(key, o);
}

fn unregister(ctx: &mut Ctx, w: &mut World, real: &mut Real) {
    let key = ctx.rng.pick(&KEYS).to_string();
    ctx.note(format!("unregister {:?}", key));
    real.conn.unregister_observer(&key);
    w.regs.remove(&key);
    ctx.count("unregistered");
}

fn p19(ctx: &mut Ctx) -> R {
    let path = if ctx.rng.pct(30) { let p = ctx.file("p19.db"); p.to_str().unwrap().to_string() } else { String::new() };
    if !path.is_empty() { for x in &["", "-wal", "-shm"] { let _ = std::fs::remove_file(format!("{}{}", path, x)); } }
    let (mut real, mut m, pal) = start(ctx, &path)?;
    let o = TxOpts { spice: 20, tx_facts: 10, ..TxOpts::default() };
    let mut w = World { heard: Arc::new(Mutex::new(Heard::default())), regs: BTreeMap::new(), made: vec![], want: vec![], nobs: 0 };
    for _ in 0..ctx.rng.below(4) { register(ctx, &mut w, &mut real, &m, &path); }
    for i in 0..16 {
        let mark = ctx.trace.len();
        match ctx.rng.weighted(&[18, 8, 30, 34, 5, 5]) {
            0 => register(ctx, &mut w, &mut real, &m, &path),
            1 => unregister(ctx, &mut w, &mut real),
            2 => {
                let n = m.log.len();
                let t = gen_any(ctx, &m, 12, &o);
                let d = step(ctx, &mut real, &mut m, &t)?;
                if d == Did::Refused { continue; }
                let told = expect(&mut w, &m.log[n.min(m.log.len())..].to_vec());
                let key = ctx.trace[mark..].join("\n");
                ctx.eval(told, &key);
            }
            3 => {
                let n = m.log.len();
                let mut m2 = m.clone();
                let end = *ctx.rng.pick(&["commit", "commit", "commit", "rollback", "drop"]);
                let mut steps = 0;
                {
                    let mut ip = match real.conn.begin_transaction(&mut real.sqlite) { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
                    ctx.note(format!("begin, to {}", end));
                    let mut marks = p_store::Marks::new();
                    let with_marks = ctx.rng.pct(35);
                    for _ in 0..ctx.rng.below(5) + (if with_marks { 3 } else { 0 }) {
                        if with_marks { if let p_store::Marked::No = marks.act(ctx, &mut ip, &mut m2)? {} else { continue; } }
                        let t = gen_any(ctx, &m2, 12, &o);
                        let text = tx_text(&t);
                        ctx.note(format!(" step {}", text));
                        let out = m2.eval(&t);
                        let got = p_build::send(ctx, &mut ip, &m2, &t, &text)?;
                        if got.is_ok() { steps += 1; }
                        settle_on(ctx, &ip.transaction, &mut m2, out, got)?;
                    }
                    let r = match end {
                        "commit" => call("commit", || ip.commit().map_err(|e| e.to_string()))?,
                        "rollback" => call("rollback", || ip.rollback().map_err(|e| e.to_string()))?,
                        _ => { drop(ip); Ok(()) }
                    };
                    if let Err(e) = r { return bad(format!("{} failed: {}", end, e)); }
                }
                ctx.count(&format!("episodes_{}", end));
                if end == "commit" {
                    m = m2;
                    let told = expect(&mut w, &m.log[n..].to_vec());
                    if steps > 1 { ctx.count("commits_of_several"); }
                    let key = ctx.trace[mark..].join("\n");
                    ctx.eval(told, &key);
                }
            }
            4 => {
                // reads tell nobody anything
                facts_by_query(&real)?;
                let k = ctx.rng.pick(&pal.defs).ident.clone();
                let s = real.conn.current_schema();
                let _ = call("cache", || real.conn.cache(&mut real.sqlite, &s, &crate::val::kw(&k), mentat::CacheDirection::Both, mentat::CacheAction::Register).map_err(|e| e.to_string()))?;
                let ip = match real.conn.begin_read(&mut real.sqlite) { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
                drop(ip);
                ctx.note("reads");
            }
            _ => {
                if path.is_empty() { continue; }
                finish(ctx, &mut w, real)?;
                real = Real::open(&path)?;
                ctx.note("reopen");
                for _ in 0..ctx.rng.below(3) { register(ctx, &mut w, &mut real, &m, &path); }
            }
        }
        if i == 6 { ctx.sample(|| format!("{} observers; expected so far: {:?}", w.regs.len(), w.want.iter().take(4).collect::<Vec<_>>())); }
    }
    finish(ctx, &mut w, real)?;
    if !path.is_empty() { for x in &["", "-wal", "-shm"] { let _ = std::fs::remove_file(format!("{}{}", path, x)); } }
    Ok(())
}
