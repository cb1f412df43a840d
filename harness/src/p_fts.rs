//! P18: full-text search and full-text attributes against the model's facts.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_query::*;
use crate::p_tx::{attr_place, gen_tx, large_step, large_store, start};
use crate::query::*;
use crate::real::*;
use crate::val::*;
use mentat::{QueryInputs, QueryResults, Queryable, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P18", rule: "A distinct query with a full-text clause, or of a full-text attribute, over a store with full-text facts, with at least one result.",
            case: p18, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["Words are runs of letters and digits, compared without regard to case. Searches are made of words, phrases, prefixes and OR; SQLite's other operators and ill-formed searches are left to SQLite.",
                "The score is not computed by the implementation and is not judged.",
                "The log's view of full-text values is a known finding of P17."] },
    ]
}

const TEXTS: [&str; 19] = ["alpha ", "ALPHA", "\talpha", "alpha", "Alpha", "ALPHA beta", "alpha, beta; gamma!", "alpha-beta", "beta alpha", "alphabet soup", "it's alpha", "\u{c9}mile zola", "\u{e9}mile", "Emile", "日本 alpha", "", "...", "mu.nu", "x1 y2 x1"];

fn text(ctx: &mut Ctx) -> String {
    match ctx.rng.below(10) {
        0..=3 => { let n = 1 + ctx.rng.below(2); (0..n).map(|_| WORDS[ctx.rng.below(4)]).collect::<Vec<_>>().join(" ") }
        4 | 5 => sentence(&mut ctx.rng),
        _ => ctx.rng.pick(&TEXTS).to_string(),
    }
}

fn search(ctx: &mut Ctx, m: &Model) -> String {
    let texts: Vec<String> = m.facts.keys().filter(|f| m.schema.attrs.get(&f.1).map_or(false, |a| a.fulltext)).filter_map(|f| match &f.2 { V::Str(s) => Some(s.clone()), _ => None }).collect();
    let ws: Vec<String> = if texts.is_empty() || ctx.rng.pct(15) { WORDS.iter().map(|w| w.to_string()).chain(vec!["zeta".to_string(), "\u{e9}mile".into(), "emile".into(), "alph".into(), "x".into()]).collect() }
        else { let t = ctx.rng.pick(&texts).clone(); let w = words_of(&t); if w.is_empty() { vec!["alpha".into()] } else { w } };
    let word = |ctx: &mut Ctx| { let i = ctx.rng.below(ws.len()); let w = ws[i].clone(); match ctx.rng.below(5) { 0 => w.to_uppercase(), 1 => { let mut c = w.chars(); c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str()) } _ => w } };
    let ok = |w: &str| !["OR", "AND", "NOT", "NEAR"].contains(&w);
    let term = |ctx: &mut Ctx| -> String {
        match ctx.rng.below(10) {
            0 | 1 => { let i = ctx.rng.below(ws.len()); let n = 1 + ctx.rng.below(3); format!("\"{}\"", ws[i..].iter().take(n).cloned().collect::<Vec<_>>().join(" ")) }
            2 => { let w = word(ctx); let n = 1 + ctx.rng.below(w.chars().count()); w.chars().take(n).collect::<String>() + "*" }
            _ => word(ctx),
        }
    };
    let s = match ctx.rng.below(12) {
        0..=5 => term(ctx),
        6..=8 => { let a = term(ctx); format!("{} {}", a, term(ctx)) }
        9 => { let (a, b) = (term(ctx), term(ctx)); format!("{} OR {}", a, b) }
        10 => { let (a, b) = (term(ctx), term(ctx)); format!("  {}   {} ", a, b) }
        _ => { let (a, b) = (term(ctx), word(ctx)); format!("{} {} {}", a, b, term(ctx)) }
    };
    if s.split(' ').all(ok) || s.contains(" OR ") { s } else { "alpha".into() }
}

/// Assertions and retractions of full-text values, many and repeated.
fn ft_tx(ctx: &mut Ctx, m: &Model, pal: &Pal) -> TxAst {
    let fts: Vec<&AttrDef> = pal.defs.iter().filter(|d| d.attr.fulltext && m.schema.attr(&d.ident).is_some()).collect();
    let es = user_entities(m);
    let n = if ctx.rng.pct(25) { 12 + ctx.rng.below(30) } else if ctx.rng.pct(2) { 170 + ctx.rng.below(60) } else { 1 + ctx.rng.below(5) };
    let few: Vec<String> = (0..1 + ctx.rng.below(4)).map(|_| text(ctx)).collect();
    let fresh = es.is_empty() || n > 100 || ctx.rng.pct(30);
    let mut t: TxAst = vec![];
    for i in 0..n {
        let d = *ctx.rng.pick(&fts);
        let have: Vec<Fact> = m.facts.keys().filter(|f| f.1 == m.schema.idents[&d.ident]).cloned().collect();
        if !have.is_empty() && ctx.rng.pct(25) {
            // retract, or move a text to another entity
            let f = ctx.rng.pick(&have).clone();
            t.push(Item::Ret(EP::Id(f.0), AP::Ident(d.ident.clone()), VP::Lit(f.2.clone())));
            if !es.is_empty() && ctx.rng.pct(40) { let e = *ctx.rng.pick(&es); if e != f.0 { t.push(Item::Add(EP::Id(e), AP::Ident(d.ident.clone()), VP::Lit(f.2.clone()))); } }
            continue;
        }
        let v = if ctx.rng.pct(75) { ctx.rng.pick(&few).clone() } else { text(ctx) };
        let e = if fresh { EP::Temp(format!("f{}", i)) } else { EP::Id(*ctx.rng.pick(&es)) };
        if d.attr.unique != Uniq::No && n > 30 { continue; }
        t.push(Item::Add(e, AP::Ident(d.ident.clone()), VP::Lit(V::Str(v))));
    }
    if ctx.rng.pct(20) { if let Some(e) = es.get(0) { t.push(Item::Add(EP::Id(*e), AP::Ident(":q/word".into()), VP::Lit(V::Str(WORDS[ctx.rng.below(5)].into())))); } }
    if ctx.rng.pct(30) { ctx.rng.shuffle(&mut t); }
    t
}

struct Ins { vars: Vec<(Var, V)> }

fn clause(ctx: &mut Ctx, g: &mut Gen, attrs: &[String], ins: &mut Ins, pre: &mut Vec<Cl>) -> Option<Cl> {
    let attr = ctx.rng.pick(attrs).clone();
    let aid = g.m.schema.idents[&attr];
    let s = search(ctx, g.m);
    let facts: Vec<(Fact, i64)> = g.m.facts.iter().filter(|(f, _)| f.1 == aid).map(|(f, t)| (f.clone(), *t)).collect();
    let hits: Vec<(Fact, i64)> = facts.iter().filter(|f| match &(f.0).2 { V::Str(x) => search_matches(x, &s), _ => false }).cloned().collect();
    let ((e, _, v), tx) = if !hits.is_empty() { ctx.rng.pick(&hits).clone() } else if !facts.is_empty() { ctx.rng.pick(&facts).clone() } else { return None; };
    let pa = match ctx.rng.below(12) { 0 => { let x = g.fresh(V::Ref(aid)); ins.vars.push((x, V::Ref(aid))); P::Var(x) } 1 => P::C(C::Int(aid)), _ => P::C(C::Kw(attr)) };
    let ps = match ctx.rng.below(10) {
        0 | 1 => { let x = g.fresh(V::Str(s.clone())); ins.vars.push((x, V::Str(s))); P::Var(x) }
        2 => { let x = g.fresh(V::Str(s.clone())); pre.push(Cl::Ground(Bind::Scalar(x), vec![vec![C::V(V::Str(s))]])); P::Var(x) }
        3 => { let x = g.fresh(V::Str(s.clone())); let t = search(ctx, g.m); pre.push(Cl::Ground(Bind::Coll(x), vec![vec![C::V(V::Str(s))], vec![C::V(V::Str(t))]])); P::Var(x) }
        4 => { let x = g.fresh(V::Str("alpha".into())); let who = if ctx.rng.pct(50) { P::Var(g.fresh(V::Ref(e))) } else { P::Any }; pre.push(Cl::Pat(who, P::C(C::Kw(":q/word".into())), P::Var(x), None)); P::Var(x) }
        _ => P::C(C::V(V::Str(s))),
    };
    // What is searched for isn't joined with texts that may not be a search.
    if let P::Var(x) = &ps { g.visible.retain(|y| y != x); }
    let vals = [V::Ref(e), v, V::Ref(tx)];
    let mut vs: [Option<Var>; 3] = [None; 3];
    for k in 0..3 {
        if !ctx.rng.pct(*[85, 55, 35].get(k).unwrap()) { continue; }
        let have: Vec<Var> = g.visible.iter().filter(|x| g.env[**x].as_ref().map_or(false, |w| *w == vals[k] || w.vt() == vals[k].vt() && k == 0) && !vs.contains(&Some(**x)) && ps != P::Var(**x) && pa != P::Var(**x) && !ins.vars.iter().any(|i| i.0 == **x)).cloned().collect();
        vs[k] = Some(if !have.is_empty() && ctx.rng.pct(60) { *ctx.rng.pick(&have) } else { g.fresh(vals[k].clone()) });
    }
    if vs.iter().all(|v| v.is_none()) { vs[0] = Some(g.fresh(vals[0].clone())); }
    Some(Cl::Fulltext(pa, ps, vs))
}

fn gen(ctx: &mut Ctx, m: &Model, user: &[Fact], attrs: &[String]) -> Option<(Q, Ins)> {
    let mut rng = ctx.rng.clone();
    let mut g = Gen::new(&mut rng, m, user);
    g.max_vars = 9;
    let mut ins = Ins { vars: vec![] };
    let mut wh = vec![];
    if ctx.rng.pct(25) { wh.push(g.pattern()); }
    let n = 1 + ctx.rng.weighted(&[75, 25]);
    for _ in 0..n {
        let mut pre = vec![];
        let c = clause(ctx, &mut g, attrs, &mut ins, &mut pre)?;
        wh.extend(pre);
        wh.push(c);
    }
    for _ in 0..ctx.rng.weighted(&[50, 32, 18]) { wh.push(g.pattern()); }
    let mut top = BTreeSet::new();
    for c in &wh { vars_of(c, &mut top); }
    if ctx.rng.pct(15) { if let Some(c) = g.compare() { wh.push(c); } }
    if ctx.rng.pct(12) { if let Some(c) = g.or() { let mut vs = BTreeSet::new(); vars_of(&c, &mut vs); top.extend(vs); wh.push(c); } }
    if ctx.rng.pct(12) { if let Some(c) = g.not() { wh.push(c); } }
    // searches inside alternatives and negations
    let es: Vec<Var> = g.visible.iter().filter(|v| match g.env[**v] { Some(V::Ref(e)) => e >= USER0 && e < TX0, _ => false }).cloned().collect();
    if !es.is_empty() && ctx.rng.pct(25) {
        let x = *ctx.rng.pick(&es);
        let arm = |ctx: &mut Ctx| vec![Cl::Fulltext(P::C(C::Kw(ctx.rng.pick(attrs).clone())), P::C(C::V(V::Str(search(ctx, m)))), [Some(x), None, None])];
        let join = if ctx.rng.pct(40) { Some(vec![x]) } else { None };
        let a = arm(ctx);
        wh.push(if ctx.rng.pct(50) { let b = arm(ctx); Cl::Or(join, vec![a, b]) } else { Cl::Not(join, a) });
    }
    let n = g.env.len();
    let mut find: Vec<Var> = top.into_iter().collect();
    ctx.rng.shuffle(&mut find);
    let spec = ctx.rng.weighted(&[72, 12, 8, 8]) as u8;
    let k = if spec == 1 || spec == 3 { 1 } else { 1 + ctx.rng.below(find.len()) };
    find.truncate(k);
    let mut names = var_names(&mut ctx.rng, n);
    shadow(&mut ctx.rng, &mut names, &wh);
    let inames: BTreeSet<String> = ins.vars.iter().map(|v| names[v.0].clone()).collect();
    if names.iter().enumerate().any(|(i, s)| inames.contains(s) && !ins.vars.iter().any(|v| v.0 == i)) { return None; }
    Some((Q { names, find, spec, wh }, ins))
}

fn searches(cs: &[Cl]) -> u64 {
    cs.iter().map(|c| match c { Cl::Fulltext(..) => 1, Cl::Or(_, arms) => arms.iter().map(|a| searches(a)).sum(), Cl::Not(_, a) => searches(a), _ => 0 }).sum()
}

fn ask(ctx: &mut Ctx, m: &Model, attrs: &[String], run: &dyn Fn(&str, QueryInputs) -> R<Result<QueryResults, String>>, n: usize) -> R {
    let db = Db::new(m);
    // Facts of full-text attributes and of searches' neighbours, so that patterns meet them.
    let ft: BTreeSet<i64> = attrs.iter().map(|a| m.schema.idents[a]).collect();
    let user: Vec<Fact> = user_facts(m);
    let mut mine: Vec<Fact> = user.iter().filter(|f| ft.contains(&f.1)).cloned().collect();
    if mine.is_empty() { return Ok(()); }
    mine.extend(user.into_iter().take(20));
    for k in 0..n {
        let (q, ins) = if k % 4 == 3 {
            match gen_query(ctx, m, &mine) { Some(q) => (q, Ins { vars: vec![] }), None => continue }
        } else { match gen(ctx, m, &mine, attrs) { Some(x) => x, None => continue } };
        if type_blind(&q.wh) { ctx.count("type_blind_skipped"); continue; }
        if crate::p_log::cost(m, &q.wh, &mut ins.vars.iter().map(|v| v.0).collect()) > 300_000.0 { ctx.count("costly_skipped"); continue; }
        let mut row: Row = vec![None; q.names.len()];
        let mut vals = BTreeMap::new();
        for (v, val) in &ins.vars { row[*v] = Some(val.clone()); vals.insert(Variable::from_valid_name(&q.names[*v]), val.typed()); }
        let inames: BTreeSet<&str> = ins.vars.iter().map(|v| q.names[v.0].as_str()).collect();
        let mut text = format!("[:find {}{} :where {}]", find_text(&q), if inames.is_empty() { "".into() } else { format!(" :in {}", inames.iter().cloned().collect::<Vec<_>>().join(" ")) }, Pr(&q.names).cls(&q.wh));
        if text.contains("(ground [[") { } else if ctx.rng.pct(40) { while text.contains(" _]]]") { text = text.replace(" _]]]", "]]]"); } } else if ctx.rng.pct(20) { text = text.replacen(" _]]]", " ?score1]]]", 1); }
        let want: BTreeSet<Vec<V>> = match db.conj(&q.wh, vec![row]) {
            Ok(rows) => rows.into_iter().map(|r| q.find.iter().map(|v| r[*v].clone().expect("harness: unbound find variable")).collect()).collect(),
            Err(_) => { ctx.count("too_big"); continue; }
        };
        let shown = || format!("{} with {:?}", text, vals);
        let got = run(&text, QueryInputs::with_values(vals.clone())).map_err(|e| { ctx.note(shown()); e })?;
        match got {
            Err(e) => {
                if !documented_refusal(&e, &q.wh) { ctx.note(shown()); return bad(format!("refused a query: {}", e)); }
                ctx.count("queries_refused");
            }
            Ok(r) => {
                ctx.count("queries_answered");
                ctx.add("rows_compared", want.len() as u64);
                ctx.add("searches", searches(&q.wh));
                if let Err(b) = judge(&q, &want, &r) { ctx.note(shown()); return Err(b); }
                ctx.eval(!want.is_empty(), &format!("{}|{}", m.facts.len(), text));
                if want.len() > 1 { ctx.sample(|| format!("{} -> {}", text, show(&want.iter().cloned().collect::<Vec<_>>()))); }
            }
        }
    }
    Ok(())
}

/// Every word of every text, searched in every full-text attribute.
fn every_word(ctx: &mut Ctx, m: &Model, attrs: &[String], run: &dyn Fn(&str, QueryInputs) -> R<Result<QueryResults, String>>) -> R {
    let mut words: BTreeSet<String> = ["zeta".to_string(), "alph".into()].iter().cloned().collect();
    for f in m.facts.keys() { if m.schema.attrs.get(&f.1).map_or(false, |a| a.fulltext) { if let V::Str(s) = &f.2 { words.extend(words_of(s)); } } }
    for a in attrs {
        let id = m.schema.idents[a];
        for w in &words {
            let want: BTreeSet<Vec<V>> = m.facts.iter().filter(|(f, _)| f.1 == id).filter(|(f, _)| match &f.2 { V::Str(s) => words_of(s).contains(w), _ => false }).map(|(f, t)| vec![V::Ref(f.0), f.2.clone(), V::Ref(*t)]).collect();
            let text = format!("[:find ?e ?v ?tx :where [(fulltext $ {} \"{}\") [[?e ?v ?tx ?score]]]]", a, w);
            if ctx.rng.pct(10) {
                let run = |text: &str| run(text, QueryInputs::default()).map(|r| r.is_ok());
                crate::p_query::gone_wrong_by(ctx, &text, &run, &run)?;
            }
            let r = match run(&text, QueryInputs::default())? { Ok(r) => r, Err(e) => return bad(format!("{} refused: {}", text, e)) };
            let got: BTreeSet<Vec<V>> = rows_of(&r).unwrap_or_default().into_iter().collect();
            if got != want { return bad(format!("{}: gives {} but the facts have {}", text, show(&got.into_iter().collect::<Vec<_>>()), show(&want.into_iter().collect::<Vec<_>>()))); }
            ctx.eval(!want.is_empty(), &format!("{}|{}", m.facts.len(), text));
            ctx.count("words_searched");
        }
    }
    Ok(())
}

fn lookups(ctx: &mut Ctx, real: &Real, m: &Model, attrs: &[String]) -> R {
    let es = user_entities(m);
    for _ in 0..6 {
        if es.is_empty() { return Ok(()); }
        let e = *ctx.rng.pick(&es);
        let a = ctx.rng.pick(attrs).clone();
        let want: BTreeSet<V> = m.values(e, m.schema.idents[&a]).into_iter().collect();
        let got: BTreeSet<V> = call("lookup", || real.conn.lookup_values_for_attribute(&real.sqlite, e, &kw(&a)).map(|v| v.iter().map(V::of).collect()).map_err(|e| e.to_string()))?.map_err(Bad::from)?;
        if want != got { return bad(format!("looking up {} of {} gives {:?}, the facts are {:?}", a, e, got, want)); }
        let text = format!("[:find (pull ?e [{}]) . :in ?e :where [?e ?a ?v]]", a);
        let i = QueryInputs::with_values(vec![(Variable::from_valid_name("?e"), mentat::TypedValue::Ref(e))].into_iter().collect());
        let got = match call(&text, || real.conn.q_once(&real.sqlite, &text, i).map(|o| format!("{:?}", o.results)).map_err(|e| e.to_string()))? { Ok(x) => x, Err(e) => return bad(format!("{} refused: {}", text, e)) };
        for v in &want { if let V::Str(s) = v { if !got.contains(&format!("{:?}", s)) { return bad(format!("pulling {} of {} gives {}, which lacks {:?}", a, e, got, s)); } } }
        ctx.count("lookups");
    }
    Ok(())
}

/// More texts in one transaction than SQLite takes in one statement.
fn many_texts(ctx: &mut Ctx) -> R {
    let (mut real, mut m) = large_store(ctx)?;
    let ap = attr_place;
    let text = |i: usize| VP::Lit(V::Str(format!("word{} common", i)));
    // What the first statement said, said again by the second, and something new.
    for (attr, round) in [(":l/text", 0), (":l/text", 1), (":l/texts", 0)].iter().cloned() {
        let t: TxAst = (0..5600).map(|i| Item::Add(EP::Temp(format!("e{:05}", i)), ap(attr), text(round + if i < 5470 { i % 300 } else { i }))).collect();
        large_step(ctx, &mut real, &mut m, t, &format!("5600 texts of {}, {}", attr, round))?;
    }
    for (q, n) in [("[:find (count ?e) . :where [(fulltext $ :l/texts \"common\") [[?e ?v]]]]", 5600), ("[:find (count ?e) . :where [(fulltext $ :l/texts \"word5470\") [[?e ?v]]]]", 1), ("[:find (count ?e) . :where [(fulltext $ :l/texts \"word5600\") [[?e ?v]]]]", 0), ("[:find (count ?e) . :where [(fulltext $ :l/text \"word169\") [[?e ?v]]]]", 36), ("[:find (count ?e) . :where [(fulltext $ :l/text \"word5600\") [[?e ?v]]]]", 1), ("[:find (count ?e) . :where [(fulltext $ :l/text \"common\") [[?e ?v]]]]", 11200)].iter().cloned() {
        let got = match real.q(q)? { Ok(QueryResults::Scalar(Some(b))) => b.into_long(), x => return bad(format!("{}: {:?}", q, x.is_ok())) };
        if got != Some(n) { return bad(format!("{}: {:?}, not {}", q, got, n)); }
        ctx.eval(true, q);
    }
    Ok(())
}

fn p18(ctx: &mut Ctx) -> R {
    if ctx.index == 0 { patience(20.0); let r = many_texts(ctx); patience(1.0); r?; }
    let dir = ctx.scratch.clone();
    let file = ctx.rng.pct(15);
    let path = if file { dir.join(format!("fts-{}.db", ctx.index)).to_str().unwrap().to_string() } else { String::new() };
    let (mut real, mut m, mut pal) = start(ctx, &path)?;
    let mut extra = vec![];
    for (n, many, u) in [(":ft/id", false, Uniq::Identity), (":ft/uv", ctx.rng.pct(40), Uniq::Value), (":ft/ids", true, Uniq::Identity)].iter() {
        if !ctx.rng.pct(60) { continue; }
        extra.push(AttrDef { ident: n.to_string(), attr: Attr { vt: VT::Str, many: *many, unique: *u, index: true, fulltext: true, component: false, no_history: false } });
    }
    extra.push(AttrDef { ident: ":q/word".into(), attr: Attr { vt: VT::Str, many: true, unique: Uniq::No, index: ctx.rng.pct(50), fulltext: false, component: false, no_history: false } });
    let t: TxAst = extra.iter().enumerate().map(|(i, d)| install_item(50 + i, d)).collect();
    if step(ctx, &mut real, &mut m, &t)? != Did::Accepted { return bad("schema installation not accepted"); }
    pal.defs.extend(extra);
    let attrs: Vec<String> = pal.defs.iter().filter(|d| d.attr.fulltext).map(|d| d.ident.clone()).collect();
    // Transactions of the general generator, over full-text attributes and a few others.
    let narrow = Pal { defs: pal.defs.iter().filter(|d| d.attr.fulltext || [":id/str", ":one/ref", ":many/str"].contains(&d.ident.as_str())).map(|d| AttrDef { ident: d.ident.clone(), attr: d.attr.clone() }).collect() };
    let o = TxOpts { retracts: 35, lookups: 25, spice: 5, ..TxOpts::default() };
    let n = 3 + ctx.rng.below(9);
    for i in 0..n {
        let t = if ctx.rng.pct(65) { ft_tx(ctx, &m, &pal) } else { gen_tx(ctx, &m, &narrow, &o) };
        if t.is_empty() { continue; }
        if step(ctx, &mut real, &mut m, &t)? != Did::Accepted {
            let f = real.facts()?;
            if let Some(x) = diff_facts(&m.facts, &f) { return bad(format!("facts changed by a refused transaction: {}", x)); }
        }
        if file && ctx.rng.pct(20) { drop(real); real = Real::open(&path)?; ctx.count("reopened"); }
        if i + 1 < n && !ctx.rng.pct(25) { continue; }
        let run = |text: &str, i: QueryInputs| -> R<Result<QueryResults, String>> { call(text, || real.conn.q_once(&real.sqlite, text, i).map(|o| o.results).map_err(|e| e.to_string())) };
        if i + 1 == n { every_word(ctx, &m, &attrs, &run)?; lookups(ctx, &real, &m, &attrs)?; }
        ask(ctx, &m, &attrs, &run, if i + 1 == n { 24 } else { 4 })?;
    }
    ctx.add("fulltext_facts", m.facts.keys().filter(|f| m.schema.attrs.get(&f.1).map_or(false, |a| a.fulltext)).count() as u64);
    let f = facts_by_query(&real)?;
    if let Some(x) = diff_facts(&m.facts, &f) { return bad(format!("queried facts differ: {}", x)); }
    Ok(())
}
