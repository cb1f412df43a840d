//! P12: query inputs against constants, all entry points, and hostile data.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_query::*;
use crate::query::*;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use mentat::{QueryInputs, QueryResults, Queryable, TypedValue, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P12", rule: "A distinct (store, query, inputs) triple whose result through q_once, q_uncached, a prepared query run repeatedly and a read in a transaction was compared with the naive evaluator, where there is a result.",
            case: p12, quick: (3600, 45), thorough: (400_000, 700), min_nontrivial: 1500, workers: 8,
            assumptions: &["An input of a type that cannot stand in its place is an error or makes the clause match nothing.",
                "A keyword input in attribute position stands for the attribute with that ident; references are given as references."] },
    ]
}

const NASTY: [&str; 30] = ["'", "\"", "''", "\\", "';--", "\"; DROP TABLE datoms; --", "x' OR '1'='1", "?1", "$v0", ":v", "@a", "%", "_", "*", "a%b", "\u{0}", "a\u{0}b", "\n", "\t\r\n", "[]", "{:db/id 1}", "-- ", "/* */",
    "NULL", "日本語", "e\u{301}", "é", "\u{1F600}", "\u{FEFF}", "\u{202E}abc"];

pub fn nasty(rng: &mut Rng) -> String {
    let n = 1 + rng.below(3);
    (0..n).map(|_| if rng.pct(75) { rng.pick(&NASTY).to_string() } else { rng.pick(&["a", "b", " ", "select", "0"]).to_string() }).collect()
}

/// The type a constant standing in value position beside this attribute has.
fn value_of(m: &Model, db: &Db, a: &P, c: &C) -> Option<V> {
    let at = match a { P::C(a) => db.entity(a).and_then(|a| m.schema.attrs.get(&a)), _ => None };
    match c {
        C::V(v) => Some(v.clone()),
        C::Int(i) => match at.map(|a| a.vt) { Some(VT::Ref) => Some(V::Ref(*i)), Some(VT::Long) => Some(V::Long(*i)), _ => None },
        C::Kw(k) => match at.map(|a| a.vt) { Some(VT::Ref) => db.entity(c).map(V::Ref), _ => Some(V::Kw(k.clone())) },
    }
}

/// Inputs with the values they denote; `kws` are given as the keyword naming the entity.
struct Ins { names: Vec<String>, vals: Vec<(Var, V)>, kws: BTreeMap<Var, String> }
impl Ins {
    fn add(&mut self, v: V, rng: &mut Rng) -> P {
        let x = self.names.len();
        self.names.push(format!("?{}{}", rng.pick(&["in", "zz", "A", "arg-"]), x));
        self.vals.push((x, v));
        P::Var(x)
    }
    fn entity(&mut self, e: i64, c: &C, named: bool, rng: &mut Rng) -> P {
        let p = self.add(V::Ref(e), rng);
        if let (true, C::Kw(k), P::Var(x)) = (named, c, &p) { self.kws.insert(*x, k.clone()); }
        p
    }
    fn given(&self, x: Var, v: &V) -> V { self.kws.get(&x).map_or(v.clone(), |k| V::Kw(k.clone())) }
}

/// Replace constants by inputs where the place is visible to the query.
fn lift(m: &Model, db: &Db, rng: &mut Rng, cs: &mut [Cl], ins: &mut Ins, pct: u32) {
    for c in cs.iter_mut() {
        match c {
            Cl::Pat(e, a, v, t) => {
                if let P::C(x) = v { if rng.pct(pct) { if let Some(val) = value_of(m, db, a, x) { *v = ins.add(val, rng); } } }
                for p in vec![Some(e), t.as_mut()].into_iter().flatten() { if let P::C(x) = p { if rng.pct(pct) { if let Some(i) = db.entity(x) { let named = rng.pct(40); *p = ins.entity(i, x, named, rng); } } } }
                let plain = match v { P::C(C::Kw(_)) | P::C(C::Int(_)) => false, _ => true };
                if let P::C(x) = a { if plain && rng.pct(pct / 2) { if let Some(i) = db.entity(x) { let named = rng.pct(50); *a = ins.entity(i, x, named, rng); } } }
            }
            Cl::Pred(op, a, b) => {
                let refs = match *op { "unpermute" | "differ" | "tx-after" | "tx-before" => true, _ => false };
                for p in vec![a, b] { if let P::C(x) = p { if rng.pct(pct) {
                    let v = match x { C::V(v) => Some(v.clone()), x if refs => db.entity(x).map(V::Ref), C::Int(i) => Some(V::Long(*i)), _ => None };
                    if let Some(v) = v { *p = ins.add(v, rng); }
                } } }
            }
            Cl::Not(None, cs) => lift(m, db, rng, cs, ins, pct),
            _ => (),
        }
    }
}

fn inputs(ins: &Ins, skip: Option<Var>) -> BTreeMap<Variable, TypedValue> {
    ins.vals.iter().filter(|(x, _)| Some(*x) != skip).map(|(x, v)| (Variable::from_valid_name(&ins.names[*x]), ins.given(*x, v).typed())).collect()
}

/// What one reader answers, asked once and prepared.
fn asked<Q: Queryable>(q: &Q, names: [&'static str; 3], text: &str, vals: &BTreeMap<Variable, TypedValue>) -> R<Vec<(&'static str, Result<QueryResults, String>)>> {
    let i = || QueryInputs::with_values(vals.clone());
    let mut out = vec![(names[0], call(names[0], || q.q_once(text, i()).map(|o| o.results).map_err(|e| e.to_string()))?)];
    let prep = call(names[1], || match q.q_prepare(text, i()) {
        Err(e) => vec![Err(e.to_string())],
        Ok(mut p) => (0..2).map(|_| p.run(None).map(|o| o.results).map_err(|e| e.to_string())).collect(),
    })?;
    for (k, p) in prep.into_iter().enumerate() { out.push((names[1 + k], p)); }
    let ex = call("q_explain", || q.q_explain(text, i()).map(|_| ()).map_err(|e| e.to_string()))?;
    if out[0].1.is_ok() != ex.is_ok() { return bad(format!("{}: q_explain {:?}, q_once ok: {}", names[0], ex, out[0].1.is_ok())); }
    Ok(out)
}

/// A copy of the database, opened as a `Store`.
fn copied(ctx: &mut Ctx, real: &Real) -> R<mentat::Store> {
    let path = ctx.file("copy.db");
    let _ = std::fs::remove_file(&path);
    real.sqlite.execute("VACUUM INTO ?", &[&path.to_str().unwrap()]).h("vacuum into")?;
    match call("open", || mentat::Store::open(path.to_str().unwrap()).map_err(|e| e.to_string()))? { Ok(s) => Ok(s), Err(e) => bad(format!("cannot open a copy of the store: {}", e)) }
}

/// Attribute lookups through any reader.
fn looked<Q: Queryable>(how: &str, q: &Q, m: &Model, rng: &mut Rng, n: usize) -> R {
    let ids: Vec<(i64, String)> = m.schema.attrs.keys().filter_map(|a| m.schema.ident_of(*a).map(|k| (*a, k.clone()))).collect();
    let facts: Vec<&Fact> = m.facts.keys().collect();
    for _ in 0..n {
        let f = *rng.pick(&facts);
        let (a, k) = if rng.pct(75) { match m.schema.ident_of(f.1) { Some(k) if m.schema.attrs.contains_key(&f.1) => (f.1, k.clone()), _ => continue } } else { rng.pick(&ids).clone() };
        let mut want = m.values(f.0, a);
        want.sort();
        let k = kw(&k);
        let mut got: Vec<V> = match call("lookup", || q.lookup_values_for_attribute(f.0, &k).map_err(|e| e.to_string()))? { Ok(v) => v.iter().map(V::of).collect(), Err(e) => return bad(format!("{}: lookup of {} {} fails: {}", how, f.0, k, e)) };
        got.sort();
        if got != want { return bad(format!("{}: {} {} has values {}, stored are {}", how, f.0, k, show(&[got]), show(&[want]))); }
        let one = match call("lookup", || q.lookup_value_for_attribute(f.0, &k).map_err(|e| e.to_string()))? { Ok(v) => v.map(|v| V::of(&v)), Err(e) => return bad(format!("{}: lookup of one {} {} fails: {}", how, f.0, k, e)) };
        if match &one { None => !want.is_empty(), Some(v) => !want.contains(v) } { return bad(format!("{}: {} {} has value {:?}, stored are {}", how, f.0, k, one, show(&[want]))); }
    }
    Ok(())
}

/// Every entry point's answer to one query.
fn answers(real: &mut Real, store: &mut Option<mentat::Store>, text: &str, vals: &BTreeMap<Variable, TypedValue>) -> R<Vec<(&'static str, Result<QueryResults, String>)>> {
    let i = || QueryInputs::with_values(vals.clone());
    let mut out = vec![];
    let schema = real.conn.current_schema();
    let s = &real.sqlite;
    let c = &real.conn;
    out.push(("q_once", call("q_once", || c.q_once(s, text, i()).map(|o| o.results).map_err(|e| e.to_string()))?));
    out.push(("q_uncached", call("q_uncached", || c.q_uncached(s, text, i()).map(|o| o.results).map_err(|e| e.to_string()))?));
    let prep = call("q_prepare", || match c.q_prepare(s, text, i()) {
        Err(e) => vec![Err(e.to_string())],
        Ok(mut p) => (0..3).map(|_| p.run(None).map(|o| o.results).map_err(|e| e.to_string())).collect(),
    })?;
    for (k, p) in prep.into_iter().enumerate() { out.push((["q_prepare, first run", "q_prepare, second run", "q_prepare, third run"][k], p)); }
    let ex = call("q_explain", || c.q_explain(s, text, i()).map(|_| ()).map_err(|e| e.to_string()))?;
    let _ = schema;
    let ok = out[0].1.is_ok();
    if ok != ex.is_ok() { return bad(format!("q_explain {:?}, q_once ok: {}", ex, ok)); }
    let (s, c) = (&mut real.sqlite, &mut real.conn);
    out.push(("in a transaction", call("q_once in a transaction", || -> R<_> {
        let ip = c.begin_transaction(s).h("begin")?;
        let r = ip.q_once(text, i()).map(|o| o.results).map_err(|e| e.to_string());
        ip.rollback().h("rollback")?;
        Ok(r)
    })??));
    if let Some(st) = store {
        for typed in [false, true].iter() {
            let mut qb = mentat::QueryBuilder::new(st, text);
            for (i, (x, v)) in vals.iter().enumerate() {
                let name = x.to_string();
                let plain = (text.len() + i) % 3 == 0;
                match v {
                    TypedValue::Long(n) if !plain => { qb.bind_long(&name, *n); }
                    TypedValue::Ref(e) if !plain => { qb.bind_ref(&name, *e); }
                    TypedValue::Instant(t) if !plain => { if (text.len() + i) % 3 == 1 { qb.bind_instant(&name, t.timestamp() * 1_000_000 + t.timestamp_subsec_micros() as i64); } else { qb.bind_date_time(&name, t.clone()); } }
                    v => { qb.bind_value(&name, v.clone()); }
                }
                if *typed { qb.bind_type(&name, v.value_type()); }
            }
            out.push((if *typed { "a query builder with types" } else { "a query builder" }, call("query builder", || qb.execute().map(|o| o.results).map_err(|e| e.to_string()))?));
        }
        out.extend(asked(st, ["a store", "a store, prepared, first run", "a store, prepared, second run"], text, vals)?);
        { let r = st.begin_read().h("begin read")?; out.extend(asked(&r, ["a reader", "a reader, prepared, first run", "a reader, prepared, second run"], text, vals)?); }
        { let r = c.begin_uncached_read(s).h("begin read")?; out.extend(asked(&r, ["an uncached reader", "an uncached reader, prepared, first run", "an uncached reader, prepared, second run"], text, vals)?); }
        { let r = st.begin_transaction().h("begin")?; out.extend(asked(&r, ["a store's transaction", "a store's transaction, prepared, first run", "a store's transaction, prepared, second run"], text, vals)?); r.rollback().h("rollback")?; }
    }
    Ok(out)
}

fn mistyped(e: &str) -> bool { e.contains("type") || e.contains("invalid limit") }

fn p12(ctx: &mut Ctx) -> R {
    let nf = 8 + ctx.rng.below(40);
    let (mut real, mut m, _pal) = populated(ctx, nf)?;
    // Hostile data.
    let es = user_entities(&m);
    let tx: TxAst = (0..2 + ctx.rng.below(8)).map(|_| {
        let e = *ctx.rng.pick(&es);
        Item::Add(EP::Id(e), AP::Ident(ctx.rng.pick(&[":many/str", ":many/str", ":many/str"]).to_string()), VP::Lit(V::Str(nasty(&mut ctx.rng))))
    }).collect();
    step(ctx, &mut real, &mut m, &tx)?;
    let before = dump(&real.sqlite)?;
    let user = user_facts(&m);
    let db = Db::new(&m);
    let mut store = None;
    if ctx.rng.pct(25) {
        let mut st = copied(ctx, &real)?;
        if st.last_tx_id() + 1 != m.next_tx { return bad(format!("a copy of the store, opened, has last transaction {}, expected {}", st.last_tx_id(), m.next_tx - 1)); }
        for a in m.schema.attrs.keys().filter(|a| **a >= USER0).filter_map(|a| m.schema.ident_of(*a)) { if ctx.rng.pct(15) { let d = *ctx.rng.pick(&[mentat::CacheDirection::Forward, mentat::CacheDirection::Reverse, mentat::CacheDirection::Both]); let k = kw(a); if let Err(e) = call("cache", || st.cache(&k, d).map_err(|e| e.to_string()))? { return bad(format!("cannot cache {}: {}", a, e)); } } }
        let mut rng = ctx.rng.clone();
        looked("a store", &st, &m, &mut rng, 12)?;
        { let r = st.begin_read().h("begin read")?; looked("a reader", &r, &m, &mut rng, 12)?; if r.last_tx_id() + 1 != m.next_tx { return bad("a reader has another last transaction"); } }
        { let r = st.begin_transaction().h("begin")?; looked("a store's transaction", &r, &m, &mut rng, 12)?; }
        { let r = real.conn.begin_uncached_read(&mut real.sqlite).h("begin read")?; looked("an uncached reader", &r, &m, &mut rng, 12)?; }
        ctx.rng = rng;
        ctx.count("stores_asked");
        store = Some(st);
    }
    for _ in 0..22 {
        let q = match gen_body(ctx, &m, &user) { Some(q) => q, None => continue };
        if type_blind(&q.wh) { continue; }
        let all = match db.run(&q) { Ok(a) => a, Err(_) => continue };
        let mut rng = ctx.rng.clone();
        let mut ins = Ins { names: q.names.clone(), vals: vec![], kws: BTreeMap::new() };
        let mut wh = q.wh.clone();
        let pct = *rng.pick(&[30, 60, 100]);
        lift(&m, &db, &mut rng, &mut wh, &mut ins, pct);
        // Bind variables of the query itself.
        let mut find: Vec<Var> = q.find.clone();
        let mut odd = false;
        if rng.pct(45) {
            for _ in 0..1 + rng.below(2) {
                let i = rng.below(q.find.len());
                let x = q.find[i];
                if ins.vals.iter().any(|p| p.0 == x) { continue; }
                let rows: Vec<&Vec<V>> = all.iter().collect();
                let v = if !rows.is_empty() && rng.pct(80) { rng.pick(&rows)[i].clone() } else if rng.pct(60) {
                    let (f, t) = { let i = rng.below(user.len()); (user[i].clone(), m.facts[&user[i]]) };
                    match rng.below(3) { 0 => V::Ref(f.0), 1 => f.2, _ => V::Ref(t) }
                } else { V::Str(nasty(&mut rng)) };
                if rows.is_empty() || rows.iter().any(|r| r[i].vt() != v.vt()) {
                    odd = true;
                    // a keyword would name an entity, if that is what the variable stands for
                    if v.vt() == VT::Kw { continue; }
                }
                ins.vals.push((x, v));
            }
        }
        // Hostile strings as inputs, for variables and in place of strings.
        for (_, v) in ins.vals.iter_mut() { if let V::Str(s) = v { if rng.pct(15) { *s = nasty(&mut rng); } } }
        if ins.vals.is_empty() && rng.pct(70) { ctx.rng = rng; continue; }
        rng.shuffle(&mut find);
        let spec = rng.weighted(&[70, 10, 10, 10]) as u8;
        let k = if spec == 1 || spec == 3 { 1 } else { 1 + rng.below(find.len()) };
        find.truncate(k);
        if spec == 0 && rng.pct(10) { if let Some((x, _)) = ins.vals.get(0) { if !find.contains(x) && !ins.kws.contains_key(x) { find.push(*x); } } }
        // Values of the right types in the reference; names are unique but for locals.
        let mut row: Row = vec![None; ins.names.len()];
        for (x, v) in &ins.vals { row[*x] = Some(v.clone()); }
        let rows = match db.conj(&wh, vec![row]) { Ok(r) => r, Err(_) => { ctx.rng = rng; continue; } };
        let mut want: BTreeSet<Vec<V>> = rows.iter().map(|r| find.iter().map(|v| r[*v].clone().expect("harness: unbound")).collect()).collect();
        // A limit through an input.
        let limit = if spec < 2 && rng.pct(25) { Some(1 + rng.below(4)) } else { None };
        let mut lim_text = String::new();
        let qq = Q { names: ins.names.clone(), find, spec, wh };
        if let Some(n) = limit { let p = ins.add(V::Long(n as i64), &mut rng); if let P::Var(x) = p { lim_text = format!(" :limit {}", ins.names[x]); } }
        let mut in_vars: Vec<Var> = ins.vals.iter().map(|p| p.0).collect();
        rng.shuffle(&mut in_vars);
        let pr = Pr(&ins.names);
        let in_text = if in_vars.is_empty() { String::new() } else { format!(" :in {}", in_vars.iter().map(|x| pr.v(*x)).collect::<Vec<_>>().join(" ")) };
        let text = format!("[:find {}{} :where {}{}]", find_text(&qq), in_text, pr.cls(&qq.wh), lim_text);
        ctx.rng = rng;
        let vals = inputs(&ins, None);
        let shown = format!("{} with {}", text, ins.vals.iter().map(|(x, v)| format!("{}={}", ins.names[*x], ins.given(*x, v))).collect::<Vec<_>>().join(" "));
        let bads = |ctx: &mut Ctx, b: Bad| -> R { if std::env::var("MV_ALL").is_ok() { eprintln!("BAD {:?} <- {}", b, shown); ctx.count("BAD"); Ok(()) } else { ctx.note(shown.clone()); Err(b) } };
        if ctx.rng.pct(25) { crate::p_query::gone_wrong(ctx, &real, &text, &|| QueryInputs::with_values(vals.clone()))?; }
        let got = match answers(&mut real, &mut store, &text, &vals) { Ok(g) => g, Err(b) => { bads(ctx, b)?; continue; } };
        for (how, r) in &got {
            match r {
                Err(e) => {
                    ctx.count("queries_refused");
                    if documented_refusal(e, &qq.wh) || odd && mistyped(e) { continue; }
                    bads(ctx, Bad::from(format!("{}: refused: {}", how, e)))?;
                }
                Ok(r) => {
                    ctx.count("answers_compared");
                    let b = if let Some(n) = limit {
                        match rows_of(r) {
                            None => bad("not rows"),
                            Some(rows) => {
                                let set: BTreeSet<Vec<V>> = rows.iter().cloned().collect();
                                if rows.len() != want.len().min(n) || set.len() != rows.len() { bad(format!("limit {}: {} rows, the clause has {}", n, rows.len(), want.len())) }
                                else if !set.is_subset(&want) { bad(format!("wrong rows {}", show(&rows))) } else { Ok(()) }
                            }
                        }
                    } else { judge(&qq, &want, r) };
                    if let Err(b) = b {
                        let b = match b { Bad::Violation { sig, msg } => Bad::Violation { sig, msg: format!("{}: {}", how, msg) }, b => b };
                        bads(ctx, b)?;
                        break;
                    }
                }
            }
        }
        if got[0].1.is_ok() {
            ctx.add("inputs_bound", ins.vals.len() as u64);
            ctx.eval(!want.is_empty() && !ins.vals.is_empty(), &format!("{}|{}", m.facts.len(), shown));
            if want.len() > 1 { let w: Vec<Vec<V>> = std::mem::replace(&mut want, BTreeSet::new()).into_iter().collect(); ctx.sample(|| format!("{} -> {}", shown, show(&w))); }
        }
        // Missing and ill-formed inputs.
        if !ins.vals.is_empty() && ctx.rng.pct(15) {
            let x = ctx.rng.pick(&ins.vals).0;
            let vals = inputs(&ins, Some(x));
            for (how, r) in answers_missing(&real, &text, &vals)? {
                if r.is_ok() { bads(ctx, Bad::from(format!("{}: answered although input {} was not given", how, ins.names[x])))?; }
                ctx.count("missing_inputs_refused");
            }
            if limit.is_some() {
                let (lx, _) = *ins.vals.last().map(|(x, v)| (*x, v)).as_ref().unwrap();
                for v in [V::Long(0), V::Long(-3), V::Str("2".into()), V::dbl(2.0), V::Ref(2)].iter() {
                    let mut vals = inputs(&ins, None);
                    vals.insert(Variable::from_valid_name(&ins.names[lx]), v.typed());
                    for (how, r) in answers_missing(&real, &text, &vals)? { if r.is_ok() { bads(ctx, Bad::from(format!("{}: answered with limit {}", how, v)))?; } }
                    ctx.count("bad_limits_refused");
                }
            }
            let (x, v) = ctx.rng.pick(&ins.vals).clone();
            let other = *ctx.rng.pick(&ALL_VT.iter().cloned().filter(|t| *t != ins.given(x, &v).vt()).collect::<Vec<_>>());
            let types = vec![(Variable::from_valid_name(&ins.names[x]), other.core())].into_iter().collect();
            if call("QueryInputs::new", || QueryInputs::new(types, inputs(&ins, None)).is_ok())? { bads(ctx, Bad::from("inputs that disagree with their declared types were accepted"))?; }
        }
    }
    let after = dump(&real.sqlite)?;
    if let Some(d) = diff_lines(&before, &after) { return bad(format!("queries changed the store: {}", d)); }
    if let Some(mut st) = store {
        if let Some(d) = diff_lines(&before, &dump(st.sqlite_mut())?) { return bad(format!("queries changed the copied store: {}", d)); }
    }
    hostile(ctx, &mut real)
}

fn answers_missing(real: &Real, text: &str, vals: &BTreeMap<Variable, TypedValue>) -> R<Vec<(&'static str, Result<(), String>)>> {
    let i = || QueryInputs::with_values(vals.clone());
    let (s, c) = (&real.sqlite, &real.conn);
    Ok(vec![
        ("q_once", call("q_once", || c.q_once(s, text, i()).map(|_| ()).map_err(|e| e.to_string()))?),
        ("q_uncached", call("q_uncached", || c.q_uncached(s, text, i()).map(|_| ()).map_err(|e| e.to_string()))?),
        ("q_prepare", call("q_prepare", || match c.q_prepare(s, text, i()) { Err(e) => Err(e.to_string()), Ok(mut p) => p.run(None).map(|_| ()).map_err(|e| e.to_string()) })?),
    ])
}

/// Hostile strings and keywords match exactly themselves, as constants and as inputs.
fn hostile(ctx: &mut Ctx, real: &mut Real) -> R {
    let mut strings: Vec<String> = (0..10).map(|_| nasty(&mut ctx.rng)).collect();
    strings.sort();
    strings.dedup();
    let kws: Vec<String> = ["a'b", "x;y", "p%", "q\"r", "drop table", "日本"].iter().map(|n| format!(":h/{}", n)).collect();
    let items: Vec<String> = strings.iter().enumerate().map(|(i, s)| format!("{{:db/id \"s{}\" :one/str {}}}", i, str_text(s))).collect();
    let rep = match real.transact(&format!("[{}]", items.join(" ")))? { Ok(r) => r, Err(e) => return bad(format!("hostile strings refused: {} in {:?}", e, strings)) };
    let before = dump(&real.sqlite)?;
    let ids: Vec<i64> = (0..strings.len()).map(|i| rep.temps[&format!("s{}", i)]).collect();
    for (i, s) in strings.iter().enumerate() {
        let me = vec![V::Ref(ids[i])];
        let others: BTreeSet<i64> = ids.iter().cloned().collect();
        for (text, vals) in [
            (format!("[:find ?e :where [?e :one/str {}]]", str_text(s)), vec![]),
            (format!("[:find ?e :where [?e _ {}]]", str_text(s)), vec![]),
            ("[:find ?e :in ?s :where [?e :one/str ?s]]".to_string(), vec![("?s", V::Str(s.clone()))]),
            ("[:find ?e :in ?s ?a :where [?e ?a ?s]]".to_string(), vec![("?s", V::Str(s.clone())), ("?a", V::Kw(":one/str".into()))]),
            (format!("[:find ?e :where [?e :one/str ?v] [(ground {}) ?v]]", str_text(s)), vec![]),
            (format!("[:find ?e :where [?e :one/str ?v] [(ground [{} {}]) [?v ...]]]", str_text(s), str_text(s)), vec![]),
        ].iter() {
            let ins = QueryInputs::with_value_sequence(vals.iter().map(|(k, v): &(&str, V)| (Variable::from_valid_name(k), v.typed())).collect());
            let r = call(text, || real.conn.q_once(&real.sqlite, text.as_str(), ins).map(|o| o.results).map_err(|e| e.to_string()))?;
            let rows = match r { Ok(r) => rows_of(&r), Err(e) => return bad(format!("hostile string {:?}: {} refused: {}", s, text, e)) };
            let rows: Vec<Vec<V>> = rows.unwrap_or_default().into_iter().filter(|r| match r[0] { V::Ref(e) => others.contains(&e), _ => true }).collect();
            if rows != vec![me.clone()] { return bad(format!("string {:?} matches {} (it is {}) in {}", s, show(&rows), ids[i], text)); }
            ctx.count("hostile_strings_matched");
            ctx.eval(true, &format!("{}{:?}", text, s));
        }
        // and its value reads back
        let t = format!("[:find ?v . :where [{} :one/str ?v]]", ids[i]);
        match real.q(&t)? { Ok(r) => if rows_of(&r) != Some(vec![vec![V::Str(s.clone())]]) { return bad(format!("string {:?} reads back as {:?}", s, rows_of(&r))); }, Err(e) => return bad(e) }
    }
    // Keywords no text could write, as inputs.
    for k in &kws {
        let ins = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?k"), V::Kw(k.clone()).typed())]);
        for q in ["[:find ?e :in ?k :where [?e :one/kw ?k]]", "[:find ?e :in ?k :where [?e _ ?k]]", "[:find ?e :in ?k :where [?e ?k _]]"].iter() {
            let i = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?k"), V::Kw(k.clone()).typed())]);
            match call(q, || real.conn.q_once(&real.sqlite, q, i).map(|o| o.results).map_err(|e| e.to_string()))? {
                Ok(r) => if rows_of(&r).map_or(true, |r| !r.is_empty()) { return bad(format!("keyword {} matched something in {}", k, q)); },
                Err(e) => return bad(format!("keyword {} in {} refused: {}", k, q, e)),
            }
        }
        let _ = ins;
    }
    if let Some(d) = diff_lines(&before, &dump(&real.sqlite)?) { return bad(format!("queries changed the store: {}", d)); }
    Ok(())
}
