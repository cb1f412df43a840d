//! P07: killed processes, losses of power and failing storage at any operation.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::{gen_any, scan, schema_agrees};
use crate::p_tx::start;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use crate::vfs;
use crate::vfs::{Fault, Op, Snap};
use mentat::{CacheAction, CacheDirection};
use rusqlite::ffi::{SQLITE_FULL, SQLITE_IOERR};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P07", rule: "A distinct image of a store's files, as a killed process or a loss of power could leave them, reopened and judged; or a distinct workload whose storage operations failed, with its answers and the store left behind judged.",
        case: p07, quick: (1500, 40), thorough: (200_000, 600), min_nontrivial: 300, workers: 8,
        assumptions: &["Operations on the store's files happen in the order in which SQLite asks for them; a loss of power may lose or keep any of the writes since a file's last successful sync, and half of the one under way.",
            "The -shm file is an index that SQLite rebuilds: it isn't part of what survives."] }]
}

fn wipe(db: &Path) { for s in &["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", db.display(), s)); } }

fn try_open(path: &Path) -> R<Result<Real, String>> {
    call("open store", || {
        let mut sqlite = mentat::new_connection(path).map_err(|e| e.to_string())?;
        limit_work(&sqlite);
        let conn = mentat::Conn::connect(&mut sqlite).map_err(|e| e.to_string())?;
        Ok(Real { sqlite, conn })
    })
}

/// Times at which images are taken.
fn snap_points(rng: &mut Rng, n: usize) -> Vec<(u64, u8)> {
    let span = *rng.pick(&[4u64, 12, 30, 70, 140]);
    (0..n).map(|_| (1 + rng.below(span as usize) as u64, *rng.pick(&[0u8, 0, 1, 2, 2]))).collect()
}

fn a_fault(rng: &mut Rng) -> Fault {
    let ops = match rng.below(7) {
        0 => vec![Op::Read],
        1 | 2 => vec![Op::Write],
        3 => vec![Op::Sync],
        4 => vec![Op::Write, Op::Sync],
        5 => vec![Op::Read, Op::Write, Op::Sync, Op::Truncate, Op::Delete, Op::Open],
        _ => vec![Op::Truncate, Op::Delete, Op::Open, Op::Sync],
    };
    let span = if ops.contains(&Op::Write) || ops.contains(&Op::Read) { *rng.pick(&[1usize, 3, 10, 30, 60]) } else { *rng.pick(&[1usize, 2, 4]) };
    let full = ops == vec![Op::Write] && rng.pct(50);
    Fault { ops, skip: rng.below(span) as u64, count: *rng.pick(&[1u64, 1, 1, 2, 1_000_000]), code: if full { SQLITE_FULL } else if rng.pct(15) { SQLITE_IOERR } else { 0 }, partial: rng.pct(30) }
}

/// What a commit that failed may have left on the disk: by its report, or by its plan where there was none.
#[derive(Clone)]
enum Left { State(Model), Plan(Plan) }

/// What a file may hold: one of these states, or what was left of a failed commit upon `base`.
#[derive(Clone)]
struct May { states: Vec<Model>, base: Model, left: Vec<Left> }
impl May {
    fn only(m: &Model) -> May { May { states: vec![m.clone()], base: m.clone(), left: vec![] } }
}

/// What the file holds must be exactly one of these.
fn judge(ctx: &mut Ctx, real: &mut Real, may: &May, what: &str) -> R<Model> {
    let log = real.log()?;
    let facts = real.facts()?;
    let mut found = may.states.iter().find(|m| m.log == log).cloned();
    for l in &may.left {
        if found.is_some() { break; }
        match l {
            Left::State(m) => if m.log == log { found = Some(m.clone()); },
            Left::Plan(p) => found = attempted(ctx, &may.base, p, &log, &facts)?,
        }
        if found.is_some() { ctx.count("failed_commits_found"); }
    }
    let m = match found {
        Some(m) => m,
        None => {
            let n: Vec<usize> = may.states.iter().map(|m| m.log.len()).collect();
            let d = may.states.iter().find(|m| m.log.len() == log.len()).and_then(|m| m.log.iter().zip(log.iter()).filter_map(|(a, b)| diff_entry(&a.1, &b.1)).next()).unwrap_or_default();
            if log.len() > n.iter().cloned().max().unwrap_or(0) { ctx.note(format!("found {:?} {:?}, expected {:?}", log.iter().map(|l| l.0).collect::<Vec<_>>(), log.last(), may.states.iter().map(|m| m.log.iter().map(|l| l.0).collect::<Vec<_>>()).collect::<Vec<_>>())); }
            return bad(format!("{}: the log has {} transactions where {:?} are allowed: {}", what, log.len(), n, d));
        }
    };
    if let Some(d) = diff_facts(&m.facts, &facts) { return bad(format!("{}: facts differ from the committed ones: {}", what, d)); }
    let sane: String = real.sqlite.query_row("PRAGMA integrity_check", rusqlite::NO_PARAMS, |r| r.get(0)).h("integrity check")?;
    if sane != "ok" { return bad(format!("{}: the file is damaged: {}", what, sane)); }
    schema_agrees(real, &m)?;
    scan(real)?;
    if real.next_tx() != m.next_tx { return bad(format!("{}: the next transaction would be {} where {} is next", what, real.next_tx(), m.next_tx)); }
    ctx.count("states_judged");
    Ok(m)
}

/// As `judge`, and the store takes another transaction.
fn judge_usable(ctx: &mut Ctx, real: &mut Real, may: &May, what: &str) -> R<Model> {
    let mut m = judge(ctx, real, may, what)?;
    m.next_user = stored_next_user(&m.log);
    let k = ctx.trace.len();
    let t = gen_any(ctx, &m, 15, &TxOpts::default());
    step(ctx, real, &mut m, &t).map_err(|b| match b { Bad::Violation { sig, msg } => Bad::Violation { sig, msg: format!("{}, then: {}", what, msg) }, b => b })?;
    check_log(&real.sqlite, &m)?;
    ctx.trace.truncate(k);
    Ok(m)
}

fn hash_files(db: &Path) -> u64 {
    let mut h = 0u64;
    for s in &["", "-wal", "-journal"] { h = mix2(h, std::fs::read(format!("{}{}", db.display(), s)).map(|b| fold(&b)).unwrap_or(1)); }
    h
}
fn mix2(a: u64, b: u64) -> u64 { (a ^ b).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29) }
fn fold(b: &[u8]) -> u64 { b.chunks(8).fold(b.len() as u64, |h, c| { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); mix2(h, u64::from_le_bytes(x)) }) }

/// Reopen every image: one of the allowed states; sometimes with the process killed again while it recovers.
fn judge_snaps(ctx: &mut Ctx, snaps: Vec<Snap>, allowed: &dyn Fn(u64) -> May, depth: usize) -> R {
    for s in snaps {
        let name = std::fs::read_dir(&s.dir).h("image")?.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.ends_with(".db")).next();
        let ok = allowed(s.n);
        ctx.note(format!(" image {}", s.at));
        if let Some(name) = name {
            let db = s.dir.join(name);
            let key = hash_files(&db);
            let again = depth == 0 && ctx.rng.pct(30);
            let mut more = vec![];
            if again {
                let k = 1 + ctx.rng.below(2);
                let pts = snap_points(&mut ctx.rng, k);
                vfs::arm(db.clone(), s.dir.join("again"), pts, None, ctx.rng.u64());
            }
            let r = try_open(&db)?;
            if again { more = vfs::disarm().snaps; }
            let mut real = match r { Ok(r) => r, Err(e) => return bad(format!("{}: cannot be opened again: {}", s.at, e)) };
            judge_usable(ctx, &mut real, &ok, &s.at)?;
            ctx.count(&format!("images_{}", s.kind.replace(' ', "_")));
            if !more.is_empty() {
                ctx.add("images_during_recovery", more.len() as u64);
                judge_snaps(ctx, more, &|_| ok.clone(), depth + 1)?;
            }
            ctx.eval(true, &format!("{}", key));
        } else { return bad(format!("{}: no file", s.at)); }
        let _ = std::fs::remove_dir_all(&s.dir);
    }
    Ok(())
}

/// What a transaction that failed while being committed would have left, if it is there.
fn attempted(ctx: &mut Ctx, m: &Model, plan: &Plan, log: &[(i64, LogEntry)], facts: &Facts) -> R<Option<Model>> {
    if log.len() != m.log.len() + 1 || log[..m.log.len()] != m.log[..] { return Ok(None); }
    let tx = log[m.log.len()].0;
    if tx != m.next_tx { return Ok(None); }
    let inst = m.boot.get(":db/txInstant");
    let at = match facts.iter().filter(|(k, _)| k.0 == tx && k.1 == inst).map(|(k, _)| k.2.clone()).next() { Some(V::Inst(i)) => i, _ => return Ok(None) };
    if plan.nfresh > 6 { ctx.count("attempts_not_judged"); return inconclusive("too many new entities in the transaction whose commit failed"); }
    // any numbering of the new entities will do
    let mut perm: Vec<i64> = (0..plan.nfresh as i64).map(|i| m.next_user + i).collect();
    let mut found = None;
    permute(&mut perm, 0, &mut |p| {
        if found.is_some() { return; }
        let mut c = m.clone();
        if c.apply(plan, p, at).is_ok() && c.facts == *facts && c.log == log { c.next_user = c.next_user.max(m.next_user + p.len() as i64); found = Some(c); }
    });
    Ok(found)
}
fn permute(v: &mut Vec<i64>, k: usize, f: &mut dyn FnMut(&[i64])) {
    if k >= v.len() { return f(v); }
    for i in k..v.len() { v.swap(k, i); permute(v, k + 1, f); v.swap(k, i); }
}

/// A transaction, or several in progress, while images are taken and operations fail. The state that may have been left besides the one of `m`.
fn round(ctx: &mut Ctx, real: &mut Real, m: &mut Model, left: &mut Vec<Left>, db: &Path, fault: Option<Fault>) -> R {
    let o = TxOpts::default();
    let before = m.clone();
    let old = left.len();
    let n = if fault.is_some() { ctx.rng.below(3) } else { 2 + ctx.rng.below(4) };
    let pts = snap_points(&mut ctx.rng, n);
    ctx.note(format!("images at {:?}, fault {:?}", pts, fault));
    let faulty = fault.is_some();
    let dir = db.parent().unwrap().join("images");
    let seed = ctx.rng.u64();
    // Operations that had been made when the commit began and ended.
    let (mut from, mut to) = (0u64, u64::max_value());
    let mut committed = false;
    if ctx.rng.pct(40) {
        let t = gen_any(ctx, m, 25, &o);
        let text = tx_text(&t);
        ctx.note(format!("transact {}", text));
        let out = m.eval(&t);
        if let Outcome::Open(_) = out { return Ok(()); }
        vfs::arm(db.to_path_buf(), dir, pts, fault, seed);
        let got = real.transact(&text);
        vfs::pause(true);
        let got = got?;
        match (&got, &out) {
            (Err(e), _) if vfs::fired() > 0 => { ctx.note(format!("  failed: {}", e)); ctx.count("failed_by_fault"); if let Outcome::Accept(p) = out { left.push(Left::Plan(p)); } }
            _ => { committed = got.is_ok(); settle(ctx, real, m, out, got)?; if vfs::fired() > 0 { ctx.count("succeeded_despite_fault"); } }
        }
    } else {
        let steps = 1 + ctx.rng.below(4);
        let end = ctx.rng.weighted(&[70, 15, 15]);
        let mut m2 = m.clone();
        vfs::arm(db.to_path_buf(), dir, pts, fault, seed);
        let mut lost = false;
        {
            let mut ip = match call("begin", || real.conn.begin_transaction(&mut real.sqlite).map_err(|e| e.to_string()))? {
                Ok(i) => i,
                Err(e) => { let f = vfs::fired(); vfs::disarm(); ctx.note(format!("cannot begin: {}", e)); return if f > 0 { Ok(()) } else { bad(format!("cannot begin: {}", e)) }; }
            };
            let mut fired = 0;
            for _ in 0..steps {
                vfs::pause(true);
                let t = gen_any(ctx, &m2, 25, &o);
                let text = tx_text(&t);
                let out = m2.eval(&t);
                if let Outcome::Open(_) = out { continue; }
                ctx.note(format!(" step {}", text));
                vfs::pause(false);
                let got = call(&text, || ip.transact(text.as_str()).map(|r| report(&r)).map_err(|e| e.to_string()));
                vfs::pause(true);
                let got = got?;
                let now = vfs::fired();
                match got {
                    Err(e) if now > fired => {
                        ctx.note(format!("  failed: {}", e));
                        ctx.count("failed_by_fault");
                        lost = true;
                    }
                    // the transaction is gone: nothing more can be added to it
                    Err(e) if lost => { ctx.note(format!("  refused after a failure: {}", e)); ctx.count("refused_after_failure"); }
                    got => {
                        if now > fired { ctx.count("succeeded_despite_fault"); }
                        if lost { ctx.count("accepted_after_failure"); }
                        settle_on(ctx, &ip.transaction, &mut m2, out, got)?;
                    }
                }
                fired = now;
            }
            vfs::pause(false);
            from = vfs::with(|c| c.n);
            ctx.note(["commit", "rollback", "drop"][end]);
            let r = match end {
                0 => call("commit", || ip.commit().map_err(|e| e.to_string())),
                1 => call("rollback", || ip.rollback().map_err(|e| e.to_string())),
                _ => call("drop", || { drop(ip); Ok(()) }),
            };
            vfs::pause(true);
            to = vfs::with(|c| c.n);
            match (end, r?) {
                (0, Ok(())) => {
                    if vfs::fired() > 0 { ctx.count("succeeded_despite_fault"); }
                    committed = true;
                    *m = m2;
                }
                (0, Err(e)) => {
                    ctx.note(format!("  failed: {}", e));
                    if vfs::fired() == 0 { return bad(format!("commit failed: {}", e)); }
                    ctx.count("failed_by_fault");
                    left.push(Left::State(m2));
                }
                (_, Err(e)) if vfs::fired() == 0 => return bad(format!("rollback failed: {}", e)),
                _ => (),
            }
        }
    }
    let w = vfs::disarm();
    if w.fired > 0 { ctx.note(format!("  {} operations failed, first {}", w.fired, w.fired_at)); ctx.count("faults"); ctx.count(&format!("fault_at_{}", w.fired_at.split(' ').next().unwrap_or("").to_lowercase())); }
    for (op, n) in &w.seen { ctx.add(&format!("operations_{:?}", op).to_lowercase(), *n); }
    // What the open connection has is what was reported.
    judge(ctx, real, &May::only(m), "the open store")?;
    if !real.sqlite.is_autocommit() { return bad("a transaction is left open"); }
    if faulty && w.fired > 0 { ctx.eval(true, &format!("{} {} {}|{}", w.fired_at, w.fired, m.log.len(), ctx.trace.join("|"))); }
    // Images: before the commit nothing of it, after it all of it.
    let after = m.clone();
    let allowed = |n: u64| -> May {
        let b = May { states: vec![before.clone()], base: before.clone(), left: left.clone() };
        if n <= from && from > 0 { May { left: left[..old].to_vec(), ..b } }
        else if n > to && committed && after.log.len() > before.log.len() { May::only(&after) }
        else if n > to { b }
        else { let mut b = b; if committed { b.states.push(after.clone()); } b }
    };
    judge_snaps(ctx, w.snaps, &allowed, 0)?;
    if m.log.len() > before.log.len() { left.clear(); }
    // The process stops here, or goes on.
    if (faulty && ctx.rng.pct(50)) || ctx.rng.pct(15) {
        let kill = ctx.rng.pct(50);
        ctx.note(if kill { "killed" } else { "closed" });
        let to = db.parent().unwrap().join("next.db");
        wipe(&to);
        if kill { copy_files(db, &to); }
        let old = std::mem::replace(real, Real::memory()?);
        drop(old);
        if !kill { copy_files(db, &to); }
        wipe(db);
        copy_files(&to, db);
        wipe(&to);
        *real = match try_open(db)? { Ok(r) => r, Err(e) => return bad(format!("cannot be opened again: {}", e)) };
        *m = judge(ctx, real, &May { states: vec![m.clone()], base: m.clone(), left: left.clone() }, "reopened")?;
        m.next_user = stored_next_user(&m.log);
        left.clear();
        ctx.count("reopened");
        ctx.eval(true, &format!("reopened {} {:x}", kill, hash_files(db)));
    }
    Ok(())
}
fn copy_files(from: &Path, to: &Path) { for s in &["", "-wal", "-journal"] { let _ = std::fs::copy(format!("{}{}", from.display(), s), format!("{}{}", to.display(), s)); } }

/// A store being made.
fn creation(ctx: &mut Ctx, db: &PathBuf) -> R {
    let fault = if ctx.rng.pct(50) { Some(a_fault(&mut ctx.rng)) } else { None };
    let n = 1 + ctx.rng.below(4);
    let pts = snap_points(&mut ctx.rng, n);
    ctx.note(format!("creation, images at {:?}, fault {:?}", pts, fault));
    let faulty = fault.is_some();
    let seed = ctx.rng.u64();
    vfs::arm(db.clone(), db.parent().unwrap().join("images"), pts, fault, seed);
    let r = try_open(db);
    let w = vfs::disarm();
    for (op, n) in &w.seen { ctx.add(&format!("operations_{:?}", op).to_lowercase(), *n); }
    let done = match r? {
        Ok(mut real) => { let m = Real::memory()?.model()?; fresh(ctx, &mut real, &m, "just made")?; true }
        Err(e) => { if w.fired == 0 { return bad(format!("cannot make a store: {}", e)); } ctx.note(format!("failed: {}", e)); ctx.count("creations_failed"); false }
    };
    let want = Real::memory()?.model()?;
    ctx.count("creations");
    if faulty && w.fired > 0 { ctx.eval(true, &format!("creation {} {}", w.fired_at, ctx.trace.join("|"))); }
    for s in w.snaps {
        let f = s.dir.join(db.file_name().unwrap());
        let key = hash_files(&f);
        ctx.note(format!(" image {}", s.at));
        let mut real = match try_open(&f)? { Ok(r) => r, Err(e) => return bad(format!("{}: cannot be opened again: {}", s.at, e)) };
        fresh(ctx, &mut real, &want, &s.at)?;
        ctx.count("images_of_creation");
        ctx.eval(true, &format!("{:x}", key));
        let _ = std::fs::remove_dir_all(&s.dir);
    }
    ctx.note(if done { "reopen" } else { "make it again" });
    let mut real = match try_open(db)? { Ok(r) => r, Err(e) => return bad(format!("cannot be opened again: {}", e)) };
    fresh(ctx, &mut real, &want, "made again")
}

/// A store with nothing of the user's in it.
fn fresh(ctx: &mut Ctx, real: &mut Real, want: &Model, what: &str) -> R {
    let got = real.model()?;
    let inst = want.boot.get(":db/txInstant");
    let strip = |f: &Facts| -> Facts { f.iter().filter(|(k, _)| k.1 != inst).map(|(k, v)| (k.clone(), *v)).collect() };
    if got.log.len() > 1 { return Ok(()); }
    if let Some(d) = diff_facts(&strip(&want.facts), &strip(&got.facts)) { return bad(format!("{}: not the store that a new one is: {}", what, d)); }
    if got.log.len() != 1 || got.next_tx != want.next_tx || got.facts.len() != want.facts.len() { return bad(format!("{}: {} transactions, next {}", what, got.log.len(), got.next_tx)); }
    judge_usable(ctx, real, &May::only(&got), what)?;
    Ok(())
}

fn reading(rng: &mut Rng) -> Fault {
    let n = *rng.pick(&[1usize, 2, 6]);
    Fault { ops: vec![Op::Read], skip: rng.below(n) as u64, count: *rng.pick(&[1u64, 1, 1, 3, 1_000_000]), code: 0, partial: false }
}

/// Reads that fail give errors, not wrong answers; nor is anything wrong afterwards.
fn reads(ctx: &mut Ctx, real: &mut Real, m: &Model, db: &Path) -> R {
    let es: Vec<i64> = user_entities(m).into_iter().filter(|e| !m.schema.attrs.contains_key(e)).collect();
    let ks: Vec<(String, i64)> = m.schema.idents.iter().filter(|(_, i)| **i >= USER0 && m.schema.attrs.contains_key(i)).map(|(k, i)| (k.clone(), *i)).collect();
    if es.is_empty() || ks.is_empty() { return Ok(()); }
    for _ in 0..3 {
        real.sqlite.execute_batch("PRAGMA shrink_memory").h("shrink")?;
        let f = reading(&mut ctx.rng);
        let (k, a) = ctx.rng.pick(&ks).clone();
        let e = *ctx.rng.pick(&es);
        let kind = ctx.rng.below(5);
        ctx.note(format!("{} of {} {} with {:?}", ["lookup", "all facts", "cache", "transactions", "pull"][kind], e, k, f));
        vfs::arm(db.to_path_buf(), db.parent().unwrap().join("images"), vec![], Some(f), 1);
        let r: R<Result<Option<String>, String>> = (|| Ok(match kind {
            0 => call("lookup", || real.conn.lookup_values_for_attribute(&real.sqlite, e, &kw(&k)).map_err(|e| e.to_string()))?.map(|v| {
                let mut v: Vec<V> = v.iter().map(V::of).collect();
                v.sort();
                let mut w = m.values(e, a);
                w.sort();
                if v == w { None } else { Some(format!("{:?} where {:?} is asserted", v, w)) }
            }),
            1 => {
                let q = "[:find ?e ?a ?v ?tx :where [?e ?a ?v ?tx]]";
                match real.q(q)? { Ok(x) => { let f = facts_by(|_| Ok(Ok(x.clone())))?; Ok(diff_facts(&m.facts, &f)) } Err(e) => Err(e) }
            }
            2 => {
                let schema = real.conn.current_schema();
                let dir = match ctx.rng.below(3) { 0 => CacheDirection::Forward, 1 => CacheDirection::Reverse, _ => CacheDirection::Both };
                call("cache", || real.conn.cache(&mut real.sqlite, &schema, &kw(&k), dir, CacheAction::Register).map_err(|e| e.to_string()))?.map(|_| None)
            }
            3 => {
                let hi = m.next_tx + 1;
                real.q(&format!("[:find [?tx ...] :where [(tx-ids $ {} {}) [[?tx]]]]", TX0, hi))?.map(|r| match r {
                    mentat::QueryResults::Coll(c) => {
                        let got: Vec<i64> = c.iter().filter_map(|b| match b { mentat::Binding::Scalar(mentat::TypedValue::Ref(i)) => Some(*i), _ => None }).collect();
                        let want: Vec<i64> = m.log.iter().map(|l| l.0).collect();
                        let mut sorted = got.clone();
                        sorted.sort();
                        if sorted == want { None } else { Some(format!("transactions {:?} where {:?} were made", got, want)) }
                    }
                    _ => Some("not a collection".into()),
                })
            }
            _ => call("pull", || real.conn.pull_attributes_for_entity(&real.sqlite, e, vec![a]).map_err(|e| e.to_string()))?.map(|map| {
                let n = m.values(e, a).len();
                if (map.0.len() == 0) == (n == 0) { None } else { Some(format!("{:?} where there are {} values", map, n)) }
            }),
        }))();
        let w = vfs::disarm();
        match r? {
            Ok(Some(x)) => return bad(format!("a read whose storage failed {} times answered: {}", w.fired, x)),
            Ok(None) => { if w.fired > 0 { ctx.count("reads_right_despite_fault"); } }
            Err(x) => { if w.fired == 0 { return bad(format!("a read failed: {}", x)); } ctx.count("reads_failed"); }
        }
        if w.fired > 0 { ctx.eval(true, &format!("read {}|{}", w.fired, ctx.trace.join("|"))); }
        for e in es.iter().take(6) {
            let mut v: Vec<V> = match call("lookup", || real.conn.lookup_values_for_attribute(&real.sqlite, *e, &kw(&k)).map_err(|e| e.to_string()))? { Ok(v) => v.iter().map(V::of).collect(), Err(x) => return bad(format!("lookup {} {}: {}", e, k, x)) };
            v.sort();
            let mut w = m.values(*e, a);
            w.sort();
            if v != w { return bad(format!("after a failed read, {} has {} {:?} where {:?} is asserted", e, k, v, w)); }
        }
    }
    Ok(())
}

/// Opening a store whose storage fails.
fn failing_open(ctx: &mut Ctx, db: &PathBuf, may: &May) -> R {
    let fault = if ctx.rng.pct(50) { reading(&mut ctx.rng) } else { a_fault(&mut ctx.rng) };
    ctx.note(format!("open with {:?}", fault));
    vfs::arm(db.clone(), db.parent().unwrap().join("images"), vec![], Some(fault), 1);
    let r = try_open(db);
    let w = vfs::disarm();
    match r? {
        Ok(mut real) => { judge(ctx, &mut real, may, "opened despite a fault")?; if w.fired > 0 { ctx.count("opened_despite_fault"); } }
        Err(e) => { if w.fired == 0 { return bad(format!("cannot be opened: {}", e)); } ctx.count("opens_failed"); ctx.note(format!("  failed: {}", e)); }
    }
    if w.fired > 0 { ctx.eval(true, &format!("open {} {}", w.fired_at, ctx.trace.join("|"))); }
    Ok(())
}

fn p07(ctx: &mut Ctx) -> R {
    vfs::install();
    let db = ctx.file("p07.db");
    wipe(&db);
    let _ = std::fs::remove_dir_all(ctx.file("images"));
    vfs::name(db.clone());
    let r = run(ctx, &db);
    vfs::disarm();
    wipe(&db);
    let _ = std::fs::remove_dir_all(ctx.file("images"));
    r
}

fn run(ctx: &mut Ctx, db: &PathBuf) -> R {
    if ctx.rng.pct(15) { return creation(ctx, db); }
    let (mut real, mut m, _) = start(ctx, db.to_str().unwrap())?;
    let o = TxOpts::default();
    for _ in 0..1 + ctx.rng.below(3) { let t = gen_any(ctx, &m, 15, &o); step(ctx, &mut real, &mut m, &t)?; }
    let mut left = vec![];
    for _ in 0..4 {
        if ctx.rng.pct(25) {
            drop(real);
            let may = May { states: vec![m.clone()], base: m.clone(), left: left.clone() };
            if ctx.rng.pct(50) { failing_open(ctx, db, &may)?; }
            real = match try_open(db)? { Ok(r) => r, Err(e) => return bad(format!("cannot be opened again: {}", e)) };
            m = judge(ctx, &mut real, &May { states: vec![m.clone()], base: m.clone(), left: left.clone() }, "reopened")?;
            left.clear();
            m.next_user = stored_next_user(&m.log);
            ctx.note("reopen");
        }
        if ctx.rng.pct(40) {
            // little memory: pages are read again, and written before the commit
            let k = *ctx.rng.pick(&[1, 2, 5]);
            real.sqlite.execute_batch(&format!("PRAGMA cache_size = {}", k)).h("cache size")?;
            ctx.note(format!("cache of {} pages", k));
        }
        if ctx.rng.pct(25) { reads(ctx, &mut real, &m, db)?; }
        let fault = if ctx.rng.pct(60) { Some(a_fault(&mut ctx.rng)) } else { None };
        round(ctx, &mut real, &mut m, &mut left, db, fault)?;
        if ctx.rng.pct(50) { let t = gen_any(ctx, &m, 10, &o); if step(ctx, &mut real, &mut m, &t)? == Did::Accepted { left.clear(); } check_log(&real.sqlite, &m)?; }
    }
    ctx.sample(|| format!("{} transactions survived", m.log.len()));
    Ok(())
}
