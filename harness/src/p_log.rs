//! P17: tx-ids and tx-data against the log kept by the model.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_query::*;
use crate::p_store::{live_pal, schema_tx};
use crate::p_tx::{gen_tx, start};
use crate::query::*;
use crate::real::*;
use crate::val::*;
use mentat::{InProgress, QueryInputs, QueryResults, Queryable, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P17", rule: "A distinct query with a log clause, over a store with at least two user transactions, whose clause has at least one result.",
            case: p17, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["Transactions are given by identifier: bounds and transactions that are instants are refused, as the implementation documents.",
                "Data with full-text values is covered by a directed input only (a known finding).",
                "Values of the log joined with entities or compared with numbers are left out, as for values of unknown attribute (known findings of P10)."] },
    ]
}

/// Clauses over the log, with a witness in the environment of the generator.
fn log_clause(g: &mut Gen, inputs: &mut Vec<Var>, depth: u32) -> Vec<Cl> {
    let n = g.m.log.len();
    let i = if g.rng.pct(85) { 1 + g.rng.below(n - 1) } else { 0 };
    let (tx, entry) = g.m.log[i].clone();
    if g.rng.pct(45) {
        let mut out = vec![];
        let lo = bound(g, tx, true, inputs, &mut out);
        let hi = bound(g, tx, false, inputs, &mut out);
        let have: Vec<Var> = g.visible.iter().filter(|v| g.env[**v] == Some(V::Ref(tx)) && !inputs.contains(v)).cloned().collect();
        let t = if !have.is_empty() && g.rng.pct(60) { *g.rng.pick(&have) } else { g.fresh(V::Ref(tx)) };
        out.push(Cl::TxIds(lo, hi, t));
        return out;
    }
    let mut out = vec![];
    let p = match g.rng.below(10) {
        0..=3 => P::C(C::Int(tx)),
        4 => P::C(C::Int(tx + g.rng.range(-1, 1))),
        5 => { let x = g.fresh(V::Ref(tx)); inputs.push(x); P::Var(x) }
        6 => match g.m.schema.ident_of(tx) { Some(k) => P::C(C::Kw(k.clone())), None => P::C(C::Kw(":db/ident".into())) },
        _ => {
            let have: Vec<Var> = g.visible.iter().filter(|v| match g.env[**v] { Some(V::Ref(x)) => x == tx, _ => false }).cloned().collect();
            if !have.is_empty() && g.rng.pct(50) { P::Var(*g.rng.pick(&have)) }
            else if depth > 0 {
                let x = g.fresh(V::Ref(tx));
                if g.rng.pct(50) { out.push(Cl::Pat(P::Any, P::Any, P::Any, Some(P::Var(x)))); } else { out.push(Cl::TxIds(P::C(C::Int(tx - g.rng.range(0, 3))), P::C(C::Int(tx + 1 + g.rng.range(0, 3))), x)); }
                P::Var(x)
            } else { P::C(C::Int(tx)) }
        }
    };
    let rows: Vec<_> = entry.iter().cloned().collect();
    let (e, a, v, added) = g.rng.pick(&rows).clone();
    let vals = [V::Ref(e), V::Ref(a), v, V::Ref(tx), V::Bool(added)];
    let mut vs: [Option<Var>; 5] = [None; 5];
    let w = *g.rng.pick(&[90, 50, 25]);
    for k in 0..5 {
        if !g.rng.pct(w) { continue; }
        let have: Vec<Var> = g.visible.iter().filter(|x| g.env[**x].as_ref() == Some(&vals[k]) && !vs.contains(&Some(**x))).cloned().collect();
        vs[k] = Some(if !have.is_empty() && g.rng.pct(55) { *g.rng.pick(&have) } else { g.fresh(vals[k].clone()) });
    }
    if vs.iter().all(|v| v.is_none()) { let k = g.rng.below(5); vs[k] = Some(g.fresh(vals[k].clone())); }
    out.push(Cl::TxData(p, vs));
    out
}

fn bound(g: &mut Gen, tx: i64, lower: bool, inputs: &mut Vec<Var>, out: &mut Vec<Cl>) -> P {
    let n = g.m.log.len();
    let other = g.m.log[g.rng.below(n)].0;
    let c = match g.rng.below(10) {
        0..=3 => if lower { tx - g.rng.range(0, 2) } else { tx + 1 + g.rng.range(0, 2) },
        4 | 5 => tx + g.rng.range(-1, 1),
        6 | 7 => other,
        8 => *g.rng.pick(&[0, 1, TX0 - 1, TX0, TX0 + 1, -5, i64::max_value(), i64::min_value() + 1]),
        _ => if lower { 0 } else { i64::max_value() },
    };
    match g.rng.below(12) {
        0 | 1 => { let x = g.fresh(V::Ref(c)); inputs.push(x); P::Var(x) }
        2 => { // the transaction of some fact
            let x = g.fresh(V::Ref(other));
            let fs: Vec<Fact> = g.facts.iter().filter(|f| f.1 == other).map(|f| f.0.clone()).collect();
            if fs.is_empty() { out.push(Cl::Pat(P::Any, P::Any, P::Any, Some(P::Var(x)))); }
            else { let f = g.rng.pick(&fs).clone(); let a = g.attr_const(f.1); out.push(Cl::Pat(P::C(C::Int(f.0)), P::C(a), P::Any, Some(P::Var(x)))); }
            P::Var(x)
        }
        3 => { let idents: Vec<String> = g.m.schema.idents.keys().cloned().collect(); P::C(C::Kw(g.rng.pick(&idents).clone())) }
        _ => P::C(C::Int(c)),
    }
}

fn gen(ctx: &mut Ctx, m: &Model, user: &[Fact]) -> Option<(Q, Vec<Var>)> {
    let mut rng = ctx.rng.clone();
    let r = gen_(&mut rng, m, user);
    ctx.rng = rng;
    r
}

fn gen_(rng: &mut crate::rng::Rng, m: &Model, user: &[Fact]) -> Option<(Q, Vec<Var>)> {
    let mut g = Gen::new(rng, m, user);
    g.max_vars = 9;
    let mut inputs = vec![];
    let mut wh = vec![];
    if g.rng.pct(30) { wh.push(g.pattern()); }
    wh.extend(log_clause(&mut g, &mut inputs, 1));
    if g.rng.pct(35) { wh.extend(log_clause(&mut g, &mut inputs, 1)); }
    for _ in 0..g.rng.weighted(&[45, 35, 20]) { wh.push(g.pattern()); }
    let mut top = BTreeSet::new();
    for c in &wh { vars_of(c, &mut top); }
    if g.rng.pct(25) { if let Some(c) = g.compare() { wh.push(c); } }
    if g.rng.pct(15) { if let Some(c) = g.or() { let mut vs = BTreeSet::new(); vars_of(&c, &mut vs); top.extend(vs); wh.push(c); } }
    if g.rng.pct(15) { if let Some(c) = g.not() { wh.push(c); } }
    // log clauses inside alternatives and negations
    let txs: Vec<Var> = g.visible.iter().filter(|v| match g.env[**v] { Some(V::Ref(t)) => t >= TX0, _ => false }).cloned().collect();
    if !txs.is_empty() && g.rng.pct(25) {
        let x = *g.rng.pick(&txs);
        let w = match g.env[x] { Some(V::Ref(t)) => t, _ => panic!() };
        let arm = |g: &mut Gen| -> Vec<Cl> {
            match g.rng.below(4) {
                0 => vec![Cl::Pat(P::Any, P::Any, P::Any, Some(P::Var(x)))],
                1 => { let t = w.saturating_add(g.rng.range(-2, 2)); vec![Cl::TxData(P::C(C::Int(t)), [None, None, None, Some(x), None])] }
                _ => { let (a, b) = (w.saturating_add(g.rng.range(-3, 1)), w.saturating_add(g.rng.range(0, 3))); vec![Cl::TxIds(P::C(C::Int(a)), P::C(C::Int(b)), x)] }
            }
        };
        let a = arm(&mut g);
        if g.rng.pct(50) { let b = arm(&mut g); let j = g.rng.pct(40); wh.push(Cl::Or(if j { Some(vec![x]) } else { None }, vec![a, b])); }
        else { let j = g.rng.pct(40); wh.push(Cl::Not(if j { Some(vec![x]) } else { None }, a)); }
    }
    if g.rng.pct(8) { let vs: Vec<Var> = top.iter().cloned().collect(); let x = *g.rng.pick(&vs); let t = g.env[x].as_ref().unwrap().vt(); wh.push(Cl::Type(x, t)); }
    if top.is_empty() { return None; }
    if g.rng.pct(15) { g.rng.shuffle(&mut wh); }
    let n = g.env.len();
    let mut find: Vec<Var> = top.into_iter().filter(|v| !inputs.contains(v) || true).collect();
    g.rng.shuffle(&mut find);
    let spec = g.rng.weighted(&[70, 12, 9, 9]) as u8;
    let k = if spec == 1 || spec == 3 { 1 } else { 1 + g.rng.below(find.len()) };
    find.truncate(k);
    let mut names = var_names(g.rng, n);
    shadow(g.rng, &mut names, &wh);
    Some((Q { names, find, spec, wh }, inputs))
}

/// A guess at how many rows SQLite visits, to leave out queries that would take minutes.
pub fn cost(m: &Model, cs: &[Cl], bound: &mut BTreeSet<Var>) -> f64 {
    let all = m.facts.len() as f64;
    let logged: f64 = m.log.iter().map(|l| l.1.len() as f64).sum();
    let int = |p: &P| match p { P::C(C::Int(i)) => Some(*i), _ => None };
    let mut n = 1.0;
    for c in cs {
        let mut vs = BTreeSet::new();
        vars_of(c, &mut vs);
        let size = match c {
            Cl::Pat(e, a, _, _) => match (e, a) {
                (P::C(_), _) => 10.0,
                (_, P::C(C::Kw(k))) => m.schema.idents.get(k).map_or(1.0, |a| m.facts.keys().filter(|f| f.1 == *a).count() as f64),
                _ => all,
            },
            Cl::TxIds(a, b, _) => match (int(a), int(b)) { (Some(a), Some(b)) => m.log.iter().filter(|l| l.0 >= a && l.0 < b).map(|l| l.1.len() as f64).sum(), _ => logged },
            Cl::TxData(t, _) => match int(t) { Some(t) => m.log.iter().filter(|l| l.0 == t).map(|l| l.1.len() as f64).sum(), None => logged },
            Cl::Or(_, arms) => arms.iter().map(|a| cost(m, a, &mut bound.clone())).sum(),
            Cl::Not(_, a) => cost(m, a, &mut bound.clone()),
            _ => 1.0,
        };
        n *= if vs.intersection(bound).next().is_some() { f64::min(size, 40.0) } else { f64::max(size, 1.0) };
        bound.extend(vs);
    }
    n
}

fn has_log(cs: &[Cl], ids: &mut u64, data: &mut u64) {
    for c in cs {
        match c {
            Cl::TxIds(..) => *ids += 1,
            Cl::TxData(..) => *data += 1,
            Cl::Or(_, arms) => for a in arms { has_log(a, ids, data); },
            Cl::Not(_, a) => has_log(a, ids, data),
            _ => (),
        }
    }
}

/// Does an input stand where it is also limited by the clauses? An input's variable has a value
/// from the start, so that the order of clauses doesn't matter for it.
fn ask(ctx: &mut Ctx, m: &Model, user: &[Fact], run: &dyn Fn(&str, QueryInputs) -> R<Result<QueryResults, String>>, n: usize) -> R {
    let db = Db::new(m);
    for _ in 0..n {
        let (q, inputs) = match gen(ctx, m, user) { Some(x) => x, None => continue };
        if type_blind(&q.wh) { ctx.count("type_blind_skipped"); continue; }
        if cost(m, &q.wh, &mut inputs.iter().cloned().collect()) > 300_000.0 { ctx.count("costly_skipped"); continue; }
        let (mut ids, mut data) = (0, 0);
        has_log(&q.wh, &mut ids, &mut data);
        // The witness of an input is its value.
        let mut row: Row = vec![None; q.names.len()];
        let mut vals = BTreeMap::new();
        for v in &inputs {
            let val = match pick_input(ctx, m) { Some(t) => t, None => continue };
            row[*v] = Some(V::Ref(val));
            vals.insert(Variable::from_valid_name(&q.names[*v]), mentat::TypedValue::Ref(val));
        }
        // An input shadowed by a local variable of the same name is another matter.
        let ins: BTreeSet<&str> = inputs.iter().map(|v| q.names[*v].as_str()).collect();
        if q.names.iter().enumerate().any(|(i, s)| !inputs.contains(&i) && ins.contains(s.as_str())) { continue; }
        let mut text = format!("[:find {}{} :where {}]", find_text(&q), if inputs.is_empty() { "".into() } else { format!(" :in {}", ins.iter().cloned().collect::<Vec<_>>().join(" ")) }, Pr(&q.names).cls(&q.wh));
        if ctx.rng.pct(50) { while text.contains(" _]]]") { text = text.replace(" _]]]", "]]]"); } }
        let want: BTreeSet<Vec<V>> = match db.conj(&q.wh, vec![row]) {
            Ok(rows) => rows.into_iter().map(|r| q.find.iter().map(|v| r[*v].clone().expect("harness: unbound find variable")).collect()).collect(),
            Err(_) => { ctx.count("too_big"); continue; }
        };
        let shown = || format!("{} with {:?}", text, vals);
        let got = run(&text, QueryInputs::with_values(vals.clone())).map_err(|e| { ctx.note(shown()); e })?;
        match got {
            Err(e) => {
                if !documented_refusal(&e, &q.wh) { ctx.note(shown()); return bad(format!("refused a query: {}", e)); }
                ctx.count("queries_refused");
            }
            Ok(r) => {
                ctx.count("queries_answered");
                ctx.add("rows_compared", want.len() as u64);
                ctx.add("clauses_tx_ids", ids);
                ctx.add("clauses_tx_data", data);
                ctx.add("inputs", inputs.len() as u64);
                if let Err(b) = judge(&q, &want, &r) { ctx.note(shown()); return Err(b); }
                ctx.eval(!want.is_empty() && m.log.len() > 3, &format!("{}|{}", m.log.len(), text));
                if want.len() > 2 { ctx.sample(|| format!("{} -> {}", text, show(&want.iter().cloned().collect::<Vec<_>>()))); }
            }
        }
    }
    Ok(())
}

fn pick_input(ctx: &mut Ctx, m: &Model) -> Option<i64> {
    let t = m.log[ctx.rng.below(m.log.len())].0;
    Some(match ctx.rng.below(8) { 0 => t - 1, 1 => t + 1, 2 => *ctx.rng.pick(&[0, TX0 - 1, i64::max_value(), -1]), _ => t })
}

/// All of the log, by the interface alone.
fn whole(m: &Model, q: &dyn Fn(&str, QueryInputs) -> R<Result<QueryResults, String>>) -> R {
    let all = match q("[:find [?t ...] :where [(tx-ids $ 0 9223372036854775807) [?t ...]]]", QueryInputs::default())? { Ok(r) => r, Err(e) => return bad(format!("tx-ids refused: {}", e)) };
    let mut ts: Vec<V> = rows_of(&all).unwrap_or_default().into_iter().map(|mut r| r.remove(0)).collect();
    ts.sort();
    let want: Vec<V> = m.log.iter().map(|l| V::Ref(l.0)).collect();
    if ts != want { return bad(format!("tx-ids over everything gives {} transactions {:?}, the log has {}", ts.len(), ts.last(), want.len())); }
    for (t, entry) in &m.log {
        let text = format!("[:find ?e ?a ?v ?tx ?op :where [(tx-data $ {}) [[?e ?a ?v ?tx ?op]]]]", t);
        let r = match q(&text, QueryInputs::default())? { Ok(r) => r, Err(e) => return bad(format!("{} refused: {}", text, e)) };
        let got: BTreeSet<Vec<V>> = rows_of(&r).unwrap_or_default().into_iter().collect();
        let want: BTreeSet<Vec<V>> = entry.iter().map(|(e, a, v, added)| vec![V::Ref(*e), V::Ref(*a), v.clone(), V::Ref(*t), V::Bool(*added)]).collect();
        if got != want {
            let miss: Vec<Vec<V>> = want.difference(&got).cloned().collect();
            let extra: Vec<Vec<V>> = got.difference(&want).cloned().collect();
            return bad(format!("data of transaction {}: missing {}; extra {}", t, show(&miss), show(&extra)));
        }
    }
    Ok(())
}

/// The data of one transaction with some of its columns given from outside: only the rows that
/// have those values.
fn given(ctx: &mut Ctx, m: &Model, q: &dyn Fn(&str, QueryInputs) -> R<Result<QueryResults, String>>, n: usize) -> R {
    for _ in 0..n {
        let (t, entry) = m.log[ctx.rng.below(m.log.len())].clone();
        let rows: Vec<Vec<V>> = entry.iter().map(|(e, a, v, added)| vec![V::Ref(*e), V::Ref(*a), v.clone(), V::Ref(t), V::Bool(*added)]).collect();
        if rows.is_empty() { continue; }
        let mut row = ctx.rng.pick(&rows).clone();
        if ctx.rng.pct(25) { let b = row[4] == V::Bool(true); row[4] = V::Bool(!b); }
        if ctx.rng.pct(15) { row[3] = V::Ref(t + 1); }
        let names = ["?e", "?a", "?v", "?tx", "?op"];
        let mut bound: Vec<usize> = (0..5).filter(|i| ctx.rng.pct(if *i == 4 { 50 } else { 25 })).collect();
        // Integral doubles and longs are equal in SQL.
        if row[2].vt() == VT::Dbl || row[2].vt() == VT::Long { bound.retain(|i| *i != 2); }
        let free: Vec<usize> = (0..5).filter(|i| !bound.contains(i)).collect();
        if bound.is_empty() || free.is_empty() { continue; }
        let list = |is: &[usize]| is.iter().map(|i| names[*i]).collect::<Vec<_>>().join(" ");
        let text = format!("[:find {} :in {} :where [(tx-data $ {}) [[?e ?a ?v ?tx ?op]]]]", list(&free), list(&bound), t);
        let vals: BTreeMap<Variable, mentat::TypedValue> = bound.iter().map(|i| (Variable::from_valid_name(names[*i]), row[*i].typed())).collect();
        let shown = format!("{} with {:?}", text, vals);
        let want: BTreeSet<Vec<V>> = rows.iter().filter(|r| bound.iter().all(|i| r[*i] == row[*i])).map(|r| free.iter().map(|i| r[*i].clone()).collect()).collect();
        if ctx.rng.pct(30) {
            let run = |text: &str| q(text, QueryInputs::with_values(vals.clone())).map(|r| r.is_ok());
            crate::p_query::gone_wrong_by(ctx, &text, &run, &run)?;
        }
        match q(&text, QueryInputs::with_values(vals))? {
            Err(e) => return bad(format!("{} refused: {}", shown, e)),
            Ok(r) => {
                let got: BTreeSet<Vec<V>> = rows_of(&r).unwrap_or_default().into_iter().collect();
                if got != want { return bad(format!("{} gives {}, the log has {}", shown, show(&got.into_iter().collect::<Vec<_>>()), show(&want.into_iter().collect::<Vec<_>>()))); }
                ctx.count("columns_given");
                ctx.eval(!want.is_empty(), &format!("{}|{}", m.log.len(), shown));
            }
        }
    }
    Ok(())
}

fn directed(ctx: &mut Ctx) -> R {
    let mut real = Real::memory()?;
    real.transact("[[:db/add \"b\" :db/ident :k/ft] [:db/add \"b\" :db/valueType :db.type/string] [:db/add \"b\" :db/index true] [:db/add \"b\" :db/fulltext true] [:db/add \"b\" :db/cardinality :db.cardinality/one]]")?.h("directed")?;
    let r = real.transact("[{:db/id \"y\" :k/ft \"alpha beta\"}]")?.h("directed")?;
    let text = format!("[:find [?v ...] :where [(tx-data $ {}) [[?e ?a ?v]]] [?e :k/ft]]", r.tx_id);
    let what = match real.q(&text)? {
        Ok(x) => { let rows = rows_of(&x).unwrap_or_default(); if rows == vec![vec![V::Str("alpha beta".into())]] { ctx.eval(false, "fulltext"); return Ok(()); } format!("gives {}", show(&rows)) }
        Err(e) => format!("is refused: {}", e),
    };
    ctx.finding("log-of-fulltext-values", format!("the data of a transaction that asserts a full-text value {}", what));
    Ok(())
}

fn p17(ctx: &mut Ctx) -> R {
    if ctx.index == 0 { directed(ctx)?; }
    let dir = ctx.scratch.clone();
    let file = ctx.rng.pct(20);
    let path = if file { dir.join(format!("log-{}.db", ctx.index)).to_str().unwrap().to_string() } else { String::new() };
    let (mut real, mut m, pal) = start(ctx, &path)?;
    let calm = |p: &Pal| Pal { defs: p.defs.iter().filter(|d| !d.attr.fulltext && d.attr.vt != VT::Dbl).map(|d| AttrDef { ident: d.ident.clone(), attr: d.attr.clone() }).collect() };
    let mut no_ft = Pal { defs: pal.defs.iter().filter(|d| !d.attr.fulltext).map(|d| AttrDef { ident: d.ident.clone(), attr: d.attr.clone() }).collect() };
    let mut p = calm(&pal);
    let o = TxOpts { spice: 3, retracts: 35, tx_facts: 15, ..TxOpts::default() };
    let n = 2 + ctx.rng.below(9);
    for i in 0..n {
        match ctx.rng.below(10) {
            0 => { let mut rng = ctx.rng.clone(); let t = schema_tx(&mut rng, &m, &pal); ctx.rng = rng; step(ctx, &mut real, &mut m, &t)?; let live = live_pal(&m); p = calm(&live); no_ft = Pal { defs: live.defs.into_iter().filter(|d| !d.attr.fulltext).collect() }; }
            1 | 2 => { let k = 3 + ctx.rng.below(12); fill(ctx, &mut real, &mut m, &no_ft, k)?; }
            _ => { let t = gen_tx(ctx, &m, &p, &o); step(ctx, &mut real, &mut m, &t)?; }
        }
        if file && i > 0 && ctx.rng.pct(20) {
            drop(real);
            real = Real::open(&path)?;
            ctx.count("reopened");
        }
    }
    if m.log.iter().any(|l| l.1.iter().any(|f| f.2.vt() == VT::Str && m.schema.attrs.get(&f.1).map_or(false, |a| a.fulltext))) { { ctx.count("fulltext_stores_left_out"); return Ok(()) }; }
    ctx.add("transactions", m.log.len() as u64);
    let user = user_facts(&m);
    if user.is_empty() { return inconclusive("no user facts"); }
    {
        let run = |text: &str, i: QueryInputs| -> R<Result<QueryResults, String>> { call(text, || real.conn.q_once(&real.sqlite, text, i).map(|o| o.results).map_err(|e| e.to_string())) };
        whole(&m, &run)?;
        given(ctx, &m, &run, 8)?;
        ask(ctx, &m, &user, &run, 30)?;
    }
    if ctx.rng.pct(30) {
        // Inside a transaction in progress its own steps are part of the log; afterwards only if committed.
        let mut m2 = m.clone();
        let commit = ctx.rng.pct(60);
        {
            let mut ip = match real.conn.begin_transaction(&mut real.sqlite) { Ok(i) => i, Err(e) => return bad(format!("cannot begin: {}", e)) };
            for _ in 0..1 + ctx.rng.below(3) {
                let t = gen_tx(ctx, &m2, &p, &o);
                let text = tx_text(&t);
                ctx.note(format!(" step {}", text));
                let out = m2.eval(&t);
                let got = call(&text, || ip.transact(text.as_str()).map(|r| report(&r)).map_err(|e| e.to_string()))?;
                settle_on(ctx, &ip.transaction, &mut m2, out, got)?;
            }
            let user = user_facts(&m2);
            if !user.is_empty() {
                let run = |text: &str, i: QueryInputs| ip_run(&ip, text, i);
                whole(&m2, &run)?;
                ask(ctx, &m2, &user, &run, 6)?;
                ctx.count("asked_in_progress");
            }
            let r = if commit { call("commit", || ip.commit().map_err(|e| e.to_string()))? } else { call("rollback", || ip.rollback().map_err(|e| e.to_string()))? };
            if let Err(e) = r { return bad(format!("ending the transaction failed: {}", e)); }
        }
        if commit { m = m2; }
        let run = |text: &str, i: QueryInputs| -> R<Result<QueryResults, String>> { call(text, || real.conn.q_once(&real.sqlite, text, i).map(|o| o.results).map_err(|e| e.to_string())) };
        whole(&m, &run)?;
    }
    Ok(())
}

fn ip_run(ip: &InProgress, text: &str, i: QueryInputs) -> R<Result<QueryResults, String>> {
    call(text, || ip.q_once(text, i).map(|o| o.results).map_err(|e| e.to_string()))
}
