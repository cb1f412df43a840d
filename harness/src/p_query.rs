//! P10–P12: queries against a naive evaluator.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_tx::start;
use crate::query::*;
use crate::real::*;
use crate::val::*;
use mentat::QueryInputs;
use mentat::QueryResults;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", rule: "A distinct (facts, query) pair whose result was compared with the naive evaluator, where the query has a result.",
            case: p10, quick: (4500, 40), thorough: (400_000, 700), min_nontrivial: 2000, workers: 8,
            assumptions: &["Doubles in the data are not integral, so that numerically equal longs and doubles never meet (the language leaves their identity open).",
                "A bare integer beside an unknown attribute means any reference, long, double or instant of that number; a bare keyword there means a keyword."] },
    ]
}

/// A value of the attribute, for query data: no integral doubles.
pub fn data_value(ctx: &mut Ctx, a: &Attr, es: &[i64]) -> V {
    loop {
        let v = if a.vt == VT::Ref { V::Ref(*ctx.rng.pick(es)) } else { scalar(&mut ctx.rng, a) };
        if let V::Dbl(d) = v { if d.0.fract() == 0.0 && d.0.abs() < 1e15 { continue; } }
        return v;
    }
}

/// A store with some entities, filled over a few transactions, and the model of it.
pub fn populated(ctx: &mut Ctx, n_facts: usize) -> R<(Real, Model, Pal)> {
    let (mut real, mut m, pal) = start(ctx, "")?;
    let n = 3 + ctx.rng.below(5);
    let tx: TxAst = (0..n).map(|i| {
        let mut kvs = vec![(AP::Ident(":many/long".into()), VP::Lit(V::Long(i as i64)))];
        if i == 0 { kvs.push((AP::Ident(":db/ident".into()), VP::Lit(V::Kw(":ent/zero".into())))); }
        Item::Map(MapN { id: Some(EP::Temp(format!("n{}", i))), kvs })
    }).collect();
    if step(ctx, &mut real, &mut m, &tx)? != Did::Accepted { return inconclusive("entities not created"); }
    fill(ctx, &mut real, &mut m, &pal, n_facts)?;
    Ok((real, m, pal))
}

pub fn fill(ctx: &mut Ctx, real: &mut Real, m: &mut Model, pal: &Pal, n_facts: usize) -> R {
    let mut done = 0;
    let mut tries = 0;
    while done < n_facts && tries < 20 {
        tries += 1;
        let es = user_entities(m);
        if es.is_empty() { return Ok(()); }
        let k = 4 + ctx.rng.below(14);
        let live: Vec<&AttrDef> = pal.defs.iter().filter(|d| m.schema.attr(&d.ident).is_some()).collect();
        let mut tx = vec![];
        for _ in 0..k {
            let d = *ctx.rng.pick(&live);
            let e = *ctx.rng.pick(&es);
            let v = data_value(ctx, &d.attr, &es);
            if ctx.rng.pct(8) {
                let have = m.values(e, m.schema.idents[&d.ident]);
                if let Some(v) = have.get(0) { tx.push(Item::Ret(EP::Id(e), AP::Ident(d.ident.clone()), lit(v))); continue; }
            }
            tx.push(Item::Add(EP::Id(e), AP::Ident(d.ident.clone()), lit(&v)));
        }
        let keep = ctx.trace.len();
        let d = step(ctx, real, m, &tx)?;
        if d == Did::Accepted { done += k; } else { ctx.trace.truncate(keep); }
    }
    Ok(())
}
fn lit(v: &V) -> VP { VP::Lit(v.clone()) }

pub fn user_facts(m: &Model) -> Vec<Fact> {
    m.facts.keys().filter(|f| f.0 >= USER0 && !m.schema.attrs.contains_key(&f.0)).cloned().collect()
}

/// Refusals that belong to the language: clauses in an order in which a variable is used before
/// it is bound, and comparisons of types that cannot be compared.
pub fn documented_refusal(e: &str, wh: &[Cl]) -> bool {
    e.starts_with("unbound variable ") && e.ends_with("in order clause or function call") && uses_before_binding(wh, &BTreeSet::new())
        || e.starts_with("invalid argument to ")
}

/// Does some predicate or negation stand before what binds its variables?
fn uses_before_binding(wh: &[Cl], outer: &BTreeSet<Var>) -> bool {
    let mut bound = outer.clone();
    for c in wh {
        let mut vs = BTreeSet::new();
        vars_of(c, &mut vs);
        match c {
            Cl::Pred(..) => if !vs.is_subset(&bound) { return true; },
            Cl::Not(_, a) => if !vs.is_subset(&bound) || uses_before_binding(a, &vs) { return true; },
            Cl::Or(_, arms) => {
                if arms.iter().any(|a| uses_before_binding(a, &BTreeSet::new())) { return true; }
                bound.extend(vs);
            }
            Cl::Fulltext(a, s, _) => { for p in [a, s].iter() { if let P::Var(v) = p { if !bound.contains(v) { return true; } } } bound.extend(vs); }
            Cl::TxIds(a, b, _) => { for p in [a, b].iter() { if let P::Var(v) = p { if !bound.contains(v) { return true; } } } bound.extend(vs); }
            Cl::TxData(t, _) => { if let P::Var(v) = t { if !bound.contains(v) { return true; } } bound.extend(vs); }
            Cl::Type(..) => (),
            _ => bound.extend(vs),
        }
    }
    false
}

/// Does the engine ignore types here? (see known_findings.json) A value whose attribute is not a
/// constant is then also an entity, compared with numbers or grounded, or written as a bare integer.
pub fn type_blind(wh: &[Cl]) -> bool {
    fn visit(cs: &[Cl], other: &mut BTreeSet<Var>, untyped: &mut BTreeSet<Var>, num: &mut bool) {
        // Comparing a value whose type is asked for is fine.
        let asked: BTreeSet<Var> = cs.iter().filter_map(|c| if let Cl::Type(v, _) = c { Some(*v) } else { None }).collect();
        for c in cs {
            match c {
                Cl::Pred(..) => { let mut vs = BTreeSet::new(); vars_of(c, &mut vs); other.extend(vs.difference(&asked)); }
                Cl::Pat(e, a, v, t) => {
                    for p in [e, a].iter().cloned().chain(t.iter()) { if let P::Var(x) = p { other.insert(*x); } }
                    if let P::C(_) = a { continue; }
                    match v { P::Var(x) => { untyped.insert(*x); }, P::C(C::Int(_)) => *num = true, _ => () }
                }
                Cl::Or(_, arms) => for a in arms { visit(a, other, untyped, num); },
                Cl::Not(_, a) => visit(a, other, untyped, num),
                Cl::Type(..) => (),
                Cl::TxData(t, vs) => {
                    if let P::Var(x) = t { other.insert(*x); }
                    for (i, x) in vs.iter().enumerate() { if let Some(x) = x { if i == 2 { untyped.insert(*x); } else { other.insert(*x); } } }
                }
                c => vars_of(c, other),
            }
        }
    }
    let (mut o, mut u, mut num) = (BTreeSet::new(), BTreeSet::new(), false);
    visit(wh, &mut o, &mut u, &mut num);
    num || u.intersection(&o).next().is_some()
}

pub fn show(r: &[Vec<V>]) -> String {
    let mut s: Vec<String> = r.iter().take(6).map(|x| format!("[{}]", x.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "))).collect();
    if r.len() > 6 { s.push(format!("… {} rows", r.len())); }
    s.join(" ")
}

pub fn rows_of(r: &QueryResults) -> Option<Vec<Vec<V>>> {
    let one = |b: &mentat::Binding| match b { mentat::Binding::Scalar(tv) => Some(V::of(tv)), _ => None };
    match r {
        QueryResults::Rel(_) => rel_rows(r),
        QueryResults::Coll(c) => c.iter().map(|b| one(b).map(|v| vec![v])).collect(),
        QueryResults::Tuple(None) | QueryResults::Scalar(None) => Some(vec![]),
        QueryResults::Tuple(Some(t)) => t.iter().map(one).collect::<Option<Vec<V>>>().map(|r| vec![r]),
        QueryResults::Scalar(Some(b)) => one(b).map(|v| vec![vec![v]]),
    }
}

/// Compare a result with the set the where clause describes.
pub fn judge(q: &Q, want: &BTreeSet<Vec<V>>, got: &QueryResults) -> R {
    let rows = match rows_of(got) { Some(r) => r, None => return bad("results hold something other than values") };
    let set: BTreeSet<Vec<V>> = rows.iter().cloned().collect();
    let kind = match got { QueryResults::Rel(_) => 0, QueryResults::Coll(_) => 1, QueryResults::Tuple(_) => 2, QueryResults::Scalar(_) => 3 };
    if kind != q.spec { return bad(format!("result of kind {} for find specification {}", kind, q.spec)); }
    if q.spec < 2 {
        if set.len() != rows.len() { return bad(format!("repeated rows: {} rows, {} distinct", rows.len(), set.len())); }
        if set != *want {
            let miss: Vec<Vec<V>> = want.difference(&set).cloned().collect();
            let extra: Vec<Vec<V>> = set.difference(want).cloned().collect();
            return bad(format!("wrong rows: missing {} {}; extra {} {}", miss.len(), show(&miss), extra.len(), show(&extra)));
        }
    } else {
        if rows.len() > 1 || rows.is_empty() != want.is_empty() { return bad(format!("{} results, the clause has {}", rows.len(), want.len())); }
        if let Some(r) = rows.get(0) { if !want.contains(r) { return bad(format!("result {} does not satisfy the clause", show(&rows))); } }
    }
    Ok(())
}

pub fn gen_query(ctx: &mut Ctx, m: &Model, user: &[Fact]) -> Option<Q> {
    let mut q = gen_body(ctx, m, user)?;
    ctx.rng.shuffle(&mut q.find);
    q.spec = ctx.rng.weighted(&[62, 14, 12, 12]) as u8;
    let k = if q.spec == 1 || q.spec == 3 { 1 } else { 1 + ctx.rng.below(q.find.len()) };
    q.find.truncate(k);
    Some(q)
}
/// A where clause, with all of its visible variables to find.
pub fn gen_body(ctx: &mut Ctx, m: &Model, user: &[Fact]) -> Option<Q> {
    let mut rng = ctx.rng.clone();
    let r = gen_query_(&mut rng, m, user);
    ctx.rng = rng;
    r
}
fn gen_query_(rng: &mut crate::rng::Rng, m: &Model, user: &[Fact]) -> Option<Q> {
    let mut g = Gen::new(rng, m, user);
    let np = 1 + g.rng.weighted(&[30, 40, 25, 5]);
    let mut wh: Vec<Cl> = (0..np).map(|_| g.pattern()).collect();
    let mut top = BTreeSet::new();
    for c in &wh { vars_of(c, &mut top); }
    if top.is_empty() { return None; }
    let mut pos = wh.len();
    if g.rng.pct(30) { if let Some(c) = g.compare() { wh.push(c); } }
    if g.rng.pct(25) { if let Some(c) = g.or() { let mut vs = BTreeSet::new(); vars_of(&c, &mut vs); top.extend(vs); wh.push(c); } }
    if g.rng.pct(22) { if let Some(c) = g.not() { wh.push(c); } }
    if g.rng.pct(8) { if let Some(c) = g.not() { wh.push(c); } }
    let sample: Vec<Option<VT>> = g.env.iter().map(|v| v.as_ref().map(|v| v.vt())).collect();
    annotate(g.rng, &mut wh, &sample, 22);
    if g.rng.pct(15) { if let Some(c) = g.ground() { wh.push(c); } }
    // Patterns may come in any order; the rest after them, sometimes shuffled too.
    let r = g.rng.below(10);
    if r < 6 { g.rng.shuffle(&mut wh[..pos]); } else { g.rng.shuffle(&mut wh); pos = 0; }
    let _ = pos;
    let n = g.env.len();
    let find: Vec<Var> = top.into_iter().collect();
    let mut names = var_names(g.rng, n);
    shadow(g.rng, &mut names, &wh);
    Some(Q { names, find, spec: 0, wh })
}

/// Ask for the types of some variables, once or more, at any depth.
fn annotate(rng: &mut crate::rng::Rng, wh: &mut Vec<Cl>, sample: &[Option<VT>], pct: u32) {
    // What this scope itself matches; values by preference, and those of an alternative most of all.
    let (mut plain, mut or, mut refs, mut cmp) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for c in wh.iter() {
        match c {
            Cl::Pat(..) => { let mut vs = BTreeSet::new(); vars_of(c, &mut vs); for v in vs { if let Some(Some(VT::Ref)) = sample.get(v) { refs.insert(v); } else { plain.insert(v); } } }
            Cl::Or(..) => vars_of(c, &mut or),
            Cl::Pred(..) => vars_of(c, &mut cmp),
            _ => (),
        }
    }
    let or: BTreeSet<Var> = or.into_iter().filter(|v| { let mut all = BTreeSet::new(); for c in wh.iter() { if let Cl::Or(_, arms) = c { if arms.iter().all(|a| { let mut vs = BTreeSet::new(); for c in a { vars_of(c, &mut vs); } vs.contains(v) }) { all.insert(*v); } } } all.contains(v) }).collect();
    let cmp: BTreeSet<Var> = cmp.into_iter().filter(|v| plain.contains(v)).collect();
    let mut n = if rng.pct(if or.is_empty() && cmp.is_empty() { pct } else { 2 * pct }) { 1 + rng.below(2) } else { 0 };
    let mut last = None;
    while n > 0 {
        n -= 1;
        let from = [&or, &cmp, &plain, &refs];
        let k = rng.weighted(&[36, 32, 22, 10]);
        let x = match last { Some(x) if rng.pct(70) => x, _ => { let f: Vec<Var> = from[k].iter().cloned().collect(); if f.is_empty() { continue; } *rng.pick(&f) } };
        let own = sample.get(x).cloned().and_then(|t| t);
        let t = if let (Some(t), true) = (own, rng.pct(70)) { t } else { *rng.pick(&ALL_VT) };
        wh.push(Cl::Type(x, t));
        last = Some(x);
    }
    for c in wh.iter_mut() {
        match c { Cl::Or(_, arms) => for a in arms.iter_mut() { annotate(rng, a, sample, pct / 3); }, Cl::Not(_, a) => annotate(rng, a, sample, pct / 3), _ => () }
    }
}

/// The inputs of the known findings of P10, each with what the language says.
fn type_blind_inputs(ctx: &mut Ctx) -> R {
    let mut real = Real::memory()?;
    for tx in ["[[:db/add \"a\" :db/ident :k/long] [:db/add \"a\" :db/valueType :db.type/long] [:db/add \"a\" :db/cardinality :db.cardinality/one]
                 [:db/add \"b\" :db/ident :k/ft] [:db/add \"b\" :db/valueType :db.type/string] [:db/add \"b\" :db/index true] [:db/add \"b\" :db/fulltext true] [:db/add \"b\" :db/cardinality :db.cardinality/one]
                 [:db/add \"c\" :db/ident :k/bool] [:db/add \"c\" :db/valueType :db.type/boolean] [:db/add \"c\" :db/cardinality :db.cardinality/one]]",
               "[{:db/id \"x\" :k/long 65539} {:db/id \"y\" :k/ft \"alpha\"} {:db/id \"z\" :k/bool true}]"].iter() {
        real.transact(tx)?.h("directed transaction")?;
    }
    for (sig, q) in [
        ("untyped-value-joined-with-entity", "[:find ?e :where [?e _ ?e] [?e :k/long 65539]]"),
        ("untyped-integer-matches-fulltext-rowid", "[:find ?e :where [?e ?a 1] [?e :k/ft \"alpha\"]]"),
        ("comparison-ignores-type-of-untyped-value", "[:find ?e :where [?e _ ?v] [(< ?v 2)] [?e :k/bool true]]"),
    ].iter() {
        match real.q(q)? {
            Ok(r) => match rows_of(&r) {
                Some(rows) => if !rows.is_empty() { ctx.finding(sig, format!("{} returns {}", q, show(&rows))); } else { ctx.eval(false, q); },
                None => return bad(format!("{}: not rows", q)),
            },
            Err(e) => return bad(format!("{} refused: {}", q, e)),
        }
    }
    Ok(())
}

const ODD: [&str; 52] = ["$hist", "$", "_", "?x", "?zz", "?e", ":k/a", ":db/ident", ":nope/nope", ":db.type/long", "1", "-1", "0", "9223372036854775807", "1N", "1.5", "\"a\"", "\"\"", "true", "nil",
    "#inst \"2020-01-01T00:00:00Z\"", "#uuid \"00000000-0000-0000-0000-000000000000\"", "[", "]", "(", ")", "...", ".", "[1 2]", "[[1 2] [3 4]]", "not", "or", "and", "not-join", "or-join", "type", "fulltext", "tx-ids", "tx-data",
    "ground", "<", "!=", "=", "differ", "unpermute", "max", "count", "the", "pull", "*", ":order", ":limit"];

/// Queries gone wrong somewhere are answered or refused, and the store goes on as before.
pub fn gone_wrong(ctx: &mut Ctx, real: &Real, text: &str, ins: &dyn Fn() -> QueryInputs) -> R {
    gone_wrong_by(ctx, text, &|text| call(text, || real.conn.q_once(&real.sqlite, text, ins()).is_ok()), &|text| call(text, || real.conn.q_explain(&real.sqlite, text, ins()).is_ok()))
}

pub fn gone_wrong_by(ctx: &mut Ctx, text: &str, run: &dyn Fn(&str) -> R<bool>, explain: &dyn Fn(&str) -> R<bool>) -> R {
    for _ in 0..std::env::var("MV_GW").ok().and_then(|x| x.parse().ok()).unwrap_or(1) { gone_wrong_once(ctx, text, run, explain)?; }
    Ok(())
}

fn gone_wrong_once(ctx: &mut Ctx, text: &str, run: &dyn Fn(&str) -> R<bool>, explain: &dyn Fn(&str) -> R<bool>) -> R {
    let mut toks = crate::p_edn::tokens(text);
    for _ in 0..1 + ctx.rng.below(3) {
        if toks.len() < 4 { break; }
        let i = 1 + ctx.rng.below(toks.len() - 2);
        let odd = if ctx.rng.pct(35) { let j = 1 + ctx.rng.below(toks.len() - 2); toks[j].clone() } else { ctx.rng.pick(&ODD).to_string() };
        match ctx.rng.below(6) {
            0 => { toks.remove(i); }
            1 | 2 => toks.insert(i, odd),
            3 => { let j = 1 + ctx.rng.below(toks.len() - 2); toks.swap(i, j); }
            // a clause's first thing
            4 if toks[i] == "[" => toks.insert(i + 1, odd),
            _ => toks[i] = odd,
        }
    }
    let text = toks.join(" ");
    let ran = ctx.rng.pct(60);
    patience(0.02);
    let r = if ran { run(&text) } else { explain(&text) };
    patience(1.0);
    match r {
        Ok(ok) => ctx.count(if ok { "wrong_queries_answered" } else { "wrong_queries_refused" }),
        Err(Bad::Costly) => ctx.count("wrong_queries_cut_short"),
        Err(e) => { ctx.note(text); if std::env::var("MV_ALL").is_ok() { eprintln!("BAD {:?}", e); return inconclusive("poisoned"); } return Err(e) }
    }
    Ok(())
}

fn p10(ctx: &mut Ctx) -> R {
    if ctx.index == 0 { return type_blind_inputs(ctx); }
    let nf = 10 + ctx.rng.below(50);
    let (real, m, _pal) = populated(ctx, nf)?;
    let user = user_facts(&m);
    let db = Db::new(&m);
    let mut shapes: BTreeMap<&'static str, u64> = BTreeMap::new();
    for _ in 0..40 {
        let q = match gen_query(ctx, &m, &user) { Some(q) => q, None => continue };
        if type_blind(&q.wh) { ctx.count("type_blind_skipped"); continue; }
        let text = q_text(&q);
        let want = match db.run(&q) { Ok(w) => w, Err(_) => { ctx.count("too_big"); continue; } };
        if ctx.rng.pct(30) { gone_wrong(ctx, &real, &text, &QueryInputs::default)?; }
        let got = real.q(&text).map_err(|e| { ctx.note(text.clone()); e })?;
        match got {
            Err(e) => {
                let k: String = format!("refused: {}", e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(60).collect::<String>());
                if !documented_refusal(&e, &q.wh) && std::env::var("MV_ALL").is_ok() { eprintln!("BAD {} <- {}", e, text); continue; }
                if !documented_refusal(&e, &q.wh) { ctx.note(text.clone()); return bad(format!("refused a query: {}", e)); }
                let _ = k;
                ctx.count("queries_refused");
                if std::env::var("MV_ERR").is_ok() { eprintln!("ERR {} <- {}", e, text); }
            }
            Ok(r) => {
                ctx.count("queries_answered");
                ctx.add("rows_compared", want.len() as u64);
                shape(&q.wh, &mut shapes);
                if let Err(b) = judge(&q, &want, &r) {
                    if std::env::var("MV_ALL").is_ok() { eprintln!("BAD {:?} <- {}", b, text); ctx.count("BAD"); continue; }
                    ctx.note(text.clone());
                    return Err(b);
                }
                ctx.eval(!want.is_empty(), &format!("{}|{}", m.facts.len(), text));
                if want.len() > 1 { ctx.sample(|| format!("{} -> {}", text, show(&want.iter().cloned().collect::<Vec<_>>()))); }
            }
        }
    }
    for (k, n) in shapes { ctx.add(&format!("clauses_{}", k), n); }
    Ok(())
}
