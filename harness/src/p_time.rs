//! P20: rewinding onto another timeline, against the past that the model remembers.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::{diff_schema, gen_any, scan, schema_agrees};
use crate::p_tx::start;
use crate::real::*;
use crate::val::*;
use mentat::Conn;
use mentat_db::timelines::move_from_main_timeline;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P20", rule: "A distinct rewinding (the transactions undone, as text) that was accepted and restored an earlier state.",
            case: p20, quick: (3000, 35), thorough: (200_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["A rewinding may be refused when undoing a transaction is itself no valid transaction (for example alterations of attributes that can't be retracted); it must then have no effect once its SQLite transaction is rolled back.",
                "After a rewinding a connection is opened anew, as metadata and caches of the old one are the caller's to replace."] },
    ]
}

type Log = Vec<(i64, LogEntry)>;

/// May undoing this entry be refused, as a transaction in its own right?
fn undo_is_invalid(after: &Model, tx: i64, entry: &LogEntry) -> bool {
    let inst = after.boot.get(":db/txInstant");
    let items: TxAst = entry.iter().filter(|x| !(x.0 == tx && x.1 == inst)).map(|(e, a, v, added)| {
        let (e, a, v) = (EP::Id(*e), AP::Id(*a), VP::Lit(v.clone()));
        if *added { Item::Ret(e, a, v) } else { Item::Add(e, a, v) }
    }).collect();
    match after.eval(&items) { Outcome::Accept(_) => false, _ => true }
}

fn agree(real: &Real, m: &Model, lines: &BTreeMap<i64, Log>) -> R {
    let f = real.facts()?;
    if let Some(d) = diff_facts(&m.facts, &f) { return bad(format!("facts differ from those of the past: {}", d)); }
    check_log(&real.sqlite, m)?;
    for (t, l) in lines {
        if log_of(&real.sqlite, *t)? != *l { return bad(format!("the transactions on timeline {} changed", t)); }
    }
    let n: i64 = real.sqlite.query_row("SELECT count(DISTINCT timeline) FROM timelined_transactions", rusqlite::NO_PARAMS, |r| r.get(0)).h("timelines")?;
    if n as usize != lines.len() + 1 { return bad(format!("{} timelines, expected {}", n, lines.len() + 1)); }
    schema_agrees(real, m)?;
    scan(real)?;
    let q = facts_by_query(real)?;
    if let Some(d) = diff_facts(&m.facts, &q) { return bad(format!("queried facts differ from those of the past: {}", d)); }
    Ok(())
}

fn p20(ctx: &mut Ctx) -> R {
    let (mut real, mut m, _) = start(ctx, "")?;
    let o = TxOpts { spice: 10, tx_facts: 10, ..TxOpts::default() };
    let schema_pct = *ctx.rng.pick(&[0, 15, 15, 40]);
    let mut hist: Vec<Model> = vec![m.clone()];
    let mut lines: BTreeMap<i64, Log> = BTreeMap::new();
    if ctx.rng.pct(5) {
        // more transactions than a statement can mention
        real.sqlite.set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, 60);
        for i in 0..ctx.rng.range(55, 80) {
            let t = vec![Item::Add(EP::Temp("t".to_string()), AP::Ident(":db/doc".to_string()), VP::Lit(V::Str(format!("{}", i))))];
            if step(ctx, &mut real, &mut m, &t)? != Did::Refused { hist.push(m.clone()); }
        }
        ctx.count("long_histories");
    }
    for round in 0..4 {
        for _ in 0..1 + ctx.rng.below(5) {
            let t = gen_any(ctx, &m, schema_pct, &o);
            // data that is added and undone again and again
            let t = if ctx.rng.pct(15) && m.log.len() > 2 {
                let e = ctx.rng.pick(&m.log[1..].to_vec()).1.clone();
                e.iter().filter(|x| x.0 < TX0 && x.1 >= USER0).map(|x| {
                    let (e, a, v) = (EP::Id(x.0), AP::Id(x.1), VP::Lit(x.2.clone()));
                    if x.3 { Item::Ret(e, a, v) } else { Item::Add(e, a, v) }
                }).collect()
            } else { t };
            if step(ctx, &mut real, &mut m, &t)? != Did::Refused { hist.push(m.clone()); }
        }
        // where to, and where from
        let k = if hist.len() > 50 && ctx.rng.pct(30) { ctx.rng.below(hist.len() - 45) } else if ctx.rng.pct(50) { hist.len().saturating_sub(2) } else { ctx.rng.below(hist.len()) };
        let past = hist[k].clone();
        let from = match ctx.rng.below(14) { 0 => m.next_tx, 1 => m.next_tx + ctx.rng.range(1, 5), 2 => i64::max_value(), _ => past.next_tx };
        let used: Vec<i64> = lines.keys().cloned().collect();
        let to = match ctx.rng.below(12) { 0 => 0, 1 if !used.is_empty() => *ctx.rng.pick(&used), 2 => past.next_tx - 1, 3 => -3, _ => 1 + round as i64 };
        let gone: Log = m.log.iter().filter(|l| l.0 >= from).cloned().collect();
        let must_refuse = to == 0 || used.contains(&to) || gone.is_empty();
        let mut may_refuse = false;
        for (i, h) in hist.iter().enumerate().skip(k + 1) {
            let (tx, e) = h.log.last().unwrap();
            if undo_is_invalid(h, *tx, e) { may_refuse = true; }
            let _ = i;
        }
        ctx.note(format!("move {}.. (of {}) to timeline {}{}{}", from, m.next_tx, to, if must_refuse { ", to be refused" } else { "" }, if may_refuse { ", may be refused" } else { "" }));
        let before = dump(&real.sqlite)?;
        let schema = real.conn.current_schema();
        let pm = mentat_db::db::read_partition_map(&real.sqlite).h("partition map")?;
        let got = {
            let tx = real.sqlite.transaction().h("begin")?;
            let r = call("move", || move_from_main_timeline(&tx, &schema, pm.clone(), from.., to).map_err(|e| e.to_string()))?;
            if r.is_ok() { tx.commit().h("commit")?; } else { drop(tx); }
            r
        };
        match got {
            Err(e) => {
                ctx.note(format!("  refused: {}", e));
                if !must_refuse && !may_refuse { return bad(format!("refused to move {}.. to timeline {}: {}", from, to, e)); }
                if let Some(x) = diff_lines(&before, &dump(&real.sqlite)?) { return bad(format!("a refused move left a trace: {}", x)); }
                ctx.count(if must_refuse { "moves_refused" } else { "moves_of_alterations_refused" });
                ctx.eval(false, "");
            }
            Ok((s, pm)) => {
                if must_refuse { return bad(format!("moved {}.. (the next transaction is {}) to timeline {}, where there are {:?}", from, m.next_tx, to, used)); }
                let live = s.as_ref().map_or_else(|| real.schema(), |s| schema_of(s));
                if live != past.schema { return bad(format!("the schema returned differs from that of the past: {}", diff_schema(&past.schema, &live))); }
                if let Some(ref s) = s { check_schema_internal(s)?; }
                lines.insert(to, gone.clone());
                m = past;
                hist.truncate(k + 1);
                real.conn = match call("connect", || Conn::connect(&mut real.sqlite).map_err(|e| e.to_string()))? { Ok(c) => c, Err(e) => return bad(format!("cannot connect after moving: {}", e)) };
                if real.conn.last_tx_id() + 1 != m.next_tx { return bad(format!("last transaction {} after moving, expected {}", real.conn.last_tx_id(), m.next_tx - 1)); }
                for (part, p) in pm.iter() {
                    let want = match part.as_str() { ":db.part/user" => stored_next_user(&m.log), ":db.part/tx" => m.next_tx, _ => continue };
                    if p.next_entid() != want { return bad(format!("partition {} goes on with {}, expected {}", part, p.next_entid(), want)); }
                }
                m.next_user = stored_next_user(&m.log);
                agree(&real, &m, &lines)?;
                ctx.count("moves");
                ctx.add("transactions_moved", gone.len() as u64);
                ctx.add("facts_restored", gone.iter().map(|g| g.1.iter().filter(|x| !x.3).count() as u64).sum());
                if may_refuse { ctx.count("moves_of_alterations"); }
                if gone.iter().any(|g| g.1.iter().any(|x| x.1 < USER0 && x.0 < TX0 && x.1 != m.boot.get(":db/doc"))) { ctx.count("moves_with_schema_changes"); }
                let text = format!("{:?}", gone);
                ctx.eval(true, &text);
                if round == 1 { ctx.sample(|| ctx_sample(&gone)); }
            }
        }
    }
    agree(&real, &m, &lines)
}

fn ctx_sample(gone: &Log) -> String {
    gone.iter().map(|(t, e)| format!("{}: {}", t, e.iter().map(|x| format!("[{} {} {} {}]", x.0, x.1, x.2.text(), x.3)).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ").chars().take(600).collect()
}
