//! P11: find specifications, aggregates, ordering and limits, computed here from the plain bindings.
use crate::fw::*;
use crate::model::*;
use crate::p_query::*;
use crate::query::*;
use crate::val::*;
use mentat::QueryResults;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P11", rule: "A distinct (store, query) pair with a shaped result (aggregate, order, limit or non-relation spec) that was compared with the shape computed from the bindings, where the clause has bindings.",
            case: p11, quick: (4500, 40), thorough: (400_000, 700), min_nontrivial: 2000, workers: 8,
            assumptions: &["Values of several types are ordered by their internal type first; sums and averages of doubles are compared with a relative tolerance of 1e-9.",
                "Ordering by a variable that is not found keeps one row per distinct value of it (it takes part in the distinctness of rows).",
                "An aggregate without grouping over no bindings gives no row, or a row of zero counts."] },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Count, Min, Max, Sum, Avg }
#[derive(Clone, Copy, Debug)]
enum El { Var(Var), Agg(Op, Var), The(Var) }

/// What a result cell may be.
enum Want { Is(V), OneOf(BTreeSet<V>), Near(f64), NearLong(f64) }
impl Want {
    fn matches(&self, v: &V) -> bool {
        match self {
            Want::Is(w) => w == v || match (w, v) { (V::Long(a), V::Dbl(b)) => *a as f64 == b.0, _ => false },
            Want::OneOf(s) => s.contains(v),
            Want::Near(x) => match v { V::Dbl(d) => close(*x, d.0), _ => false },
            Want::NearLong(x) => match v { V::Dbl(d) => close(*x, d.0), V::Long(i) => close(*x, *i as f64), _ => false },
        }
    }
    fn show(&self) -> String { match self { Want::Is(v) => v.to_string(), Want::OneOf(s) => format!("{:?}", s.iter().map(|v| v.to_string()).collect::<Vec<_>>()), Want::Near(x) | Want::NearLong(x) => format!("≈{}", x) } }
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-300 || (!a.is_finite() && !b.is_finite()) }

fn tag(v: &V) -> i32 { match v.vt() { VT::Ref => 0, VT::Bool => 1, VT::Inst => 4, VT::Long | VT::Dbl => 5, VT::Str => 10, VT::Uuid => 11, VT::Kw => 13 } }
pub fn cmp(a: &V, b: &V) -> Ordering {
    tag(a).cmp(&tag(b)).then_with(|| match (a, b) {
        (V::Long(x), V::Dbl(y)) => (*x as f64).partial_cmp(&y.0).unwrap_or(Ordering::Equal),
        (V::Dbl(x), V::Long(y)) => x.0.partial_cmp(&(*y as f64)).unwrap_or(Ordering::Equal),
        (V::Dbl(x), V::Dbl(y)) => x.0.partial_cmp(&y.0).unwrap_or(Ordering::Equal),
        (V::Long(x), V::Long(y)) | (V::Ref(x), V::Ref(y)) | (V::Inst(x), V::Inst(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Str(x), V::Str(y)) | (V::Kw(x), V::Kw(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Uuid(x), V::Uuid(y)) => x.cmp(y),
        _ => Ordering::Equal,
    })
}

/// The type every value of the variable is known to have, from the patterns at the top.
fn known_vt(m: &Model, wh: &[Cl], x: Var) -> Option<VT> {
    for c in wh {
        if let Cl::Pat(e, a, v, t) = c {
            for p in [e, a].iter().cloned().chain(t.iter()) { if let P::Var(y) = p { if *y == x { return Some(VT::Ref); } } }
            if let (P::C(a), P::Var(y)) = (a, v) { if *y == x {
                let id = match a { C::Int(i) | C::V(V::Ref(i)) => Some(*i), C::Kw(k) => m.schema.idents.get(k).cloned(), _ => None };
                if let Some(at) = id.and_then(|i| m.schema.attrs.get(&i)) { return Some(at.vt); }
            } }
        }
    }
    None
}

fn applicable(op: Op, t: VT) -> bool {
    match op {
        Op::Count => true,
        Op::Sum | Op::Avg => t == VT::Long || t == VT::Dbl,
        Op::Min | Op::Max => match t { VT::Long | VT::Dbl | VT::Inst | VT::Bool | VT::Str => true, _ => false },
    }
}

fn p11(ctx: &mut Ctx) -> R {
    let nf = 10 + ctx.rng.below(50);
    let (real, m, _pal) = populated(ctx, nf)?;
    let user = user_facts(&m);
    let db = Db::new(&m);
    for _ in 0..40 {
        let mut q = match gen_body(ctx, &m, &user) { Some(q) => q, None => continue };
        if type_blind(&q.wh) { continue; }
        let vars = q.find.clone();
        // What to find.
        let agg = ctx.rng.pct(60);
        let mut els: Vec<El> = vec![];
        let spec = ctx.rng.weighted(&[55, 15, 15, 15]);
        let n = if spec == 1 || spec == 3 { 1 } else { 1 + ctx.rng.below(3) };
        let mut used = BTreeSet::new();
        let mut minmax = 0;
        for _ in 0..n {
            let x = *ctx.rng.pick(&vars);
            let t = known_vt(&m, &q.wh, x);
            if agg && ctx.rng.pct(60) {
                let ops: Vec<Op> = [Op::Count, Op::Min, Op::Max, Op::Sum, Op::Avg].iter().cloned().filter(|o| *o == Op::Count || t.map_or(ctx.rng.pct(10), |t| applicable(*o, t) || ctx.rng.pct(10))).collect();
                let op = *ctx.rng.pick(&ops);
                if op == Op::Min || op == Op::Max { minmax += 1; }
                els.push(El::Agg(op, x));
            } else if used.insert(x) { els.push(El::Var(x)); }
        }
        if els.is_empty() { continue; }
        if spec == 0 || spec == 2 {
            // `the` goes with exactly one min or max
            if minmax == 1 && ctx.rng.pct(50) { let x = *ctx.rng.pick(&vars); if used.insert(x) { let i = ctx.rng.below(els.len() + 1); els.insert(i, El::The(x)); } }
        }
        let is_agg = els.iter().any(|e| if let El::Agg(..) = e { true } else { false });
        let the = els.iter().any(|e| if let El::The(_) = e { true } else { false });
        let with: Vec<Var> = if is_agg && ctx.rng.pct(45) { let mut v = vars.clone(); ctx.rng.shuffle(&mut v); v.truncate(1 + ctx.rng.below(2)); v } else { vec![] };
        let found: Vec<Var> = els.iter().filter_map(|e| if let El::Var(x) = e { Some(*x) } else { None }).collect();
        let mut order: Vec<(Var, bool)> = vec![];
        if ctx.rng.pct(45) {
            let from = if ctx.rng.pct(70) && !found.is_empty() { found.clone() } else { vars.clone() };
            for _ in 0..1 + ctx.rng.below(2) { let x = *ctx.rng.pick(&from); if !order.iter().any(|o| o.0 == x) { order.push((x, ctx.rng.pct(60))); } }
            // an aggregate with a hidden order groups by it too: leave `the` out of that, and aggregated variables
            if order.iter().any(|o| !found.contains(&o.0)) && (the || els.iter().any(|e| if let El::Agg(_, x) = e { order.iter().any(|o| o.0 == *x) } else { false })) { order.clear(); }
        }
        let limit = if ctx.rng.pct(35) { Some(1 + ctx.rng.below(6)) } else { None };
        if spec == 3 || spec == 2 { if limit.map_or(false, |l| l != 1) && ctx.rng.pct(80) { continue; } }
        let pr = Pr(&q.names);
        let elt = |e: &El| match e { El::Var(x) => pr.v(*x).to_string(), El::The(x) => format!("(the {})", pr.v(*x)),
            El::Agg(o, x) => format!("({} {})", match o { Op::Count => "count", Op::Min => "min", Op::Max => "max", Op::Sum => "sum", Op::Avg => "avg" }, pr.v(*x)) };
        let list = els.iter().map(elt).collect::<Vec<_>>().join(" ");
        let mut text = match spec { 0 => format!("[:find {}", list), 1 => format!("[:find [{} ...]", list), 2 => format!("[:find [{}]", list), _ => format!("[:find {} .", list) };
        if !with.is_empty() { text += &format!(" :with {}", with.iter().map(|x| pr.v(*x)).collect::<Vec<_>>().join(" ")); }
        text += &format!(" :where {}", pr.cls(&q.wh));
        if !order.is_empty() { text += &format!(" :order {}", order.iter().map(|(x, asc)| if *asc { if x % 2 == 0 { pr.v(*x).to_string() } else { format!("(asc {})", pr.v(*x)) } } else { format!("(desc {})", pr.v(*x)) }).collect::<Vec<_>>().join(" ")); }
        if let Some(l) = limit { text += &format!(" :limit {}", l); }
        text += "]";
        // The bindings that matter.
        let mut cols: Vec<Var> = vec![];
        for x in els.iter().map(|e| match e { El::Var(x) | El::Agg(_, x) | El::The(x) => *x }).chain(with.iter().cloned()).chain(order.iter().map(|o| o.0)) { if !cols.contains(&x) { cols.push(x); } }
        q.find = cols.clone();
        let rows = match db.run(&q) { Ok(r) => r, Err(_) => { ctx.count("too_big"); continue; } };
        let at = |x: Var| cols.iter().position(|c| *c == x).unwrap();
        // Expected rows with their sort keys.
        let mut want: Vec<(Vec<V>, Vec<Want>)> = vec![];
        let mut optional_row = false;
        if is_agg {
            let mut groups: BTreeMap<Vec<V>, Vec<&Vec<V>>> = BTreeMap::new();
            let mut by: Vec<Var> = found.clone();
            for o in &order { if !by.contains(&o.0) { by.push(o.0); } }
            for r in &rows { groups.entry(by.iter().map(|x| r[at(*x)].clone()).collect()).or_default().push(r); }
            if rows.is_empty() && found.is_empty() && els.iter().all(|e| if let El::Agg(Op::Count, _) = e { true } else { false }) { optional_row = true; }
            let mut overflow = false;
            for (_, g) in &groups {
                let key = order.iter().map(|o| g[0][at(o.0)].clone()).collect();
                let mut cells = vec![];
                let mut best: Option<BTreeSet<usize>> = None;
                for e in &els { if let El::Agg(op, x) = e { if *op == Op::Min || *op == Op::Max {
                    let mut ext = &g[0][at(*x)];
                    for r in g { let c = cmp(&r[at(*x)], ext); if c == (if *op == Op::Max { Ordering::Greater } else { Ordering::Less }) { ext = &r[at(*x)]; } }
                    best = Some(g.iter().enumerate().filter(|(_, r)| cmp(&r[at(*x)], ext) == Ordering::Equal).map(|(i, _)| i).collect());
                } } }
                for e in &els {
                    cells.push(match e {
                        El::Var(x) => Want::Is(g[0][at(*x)].clone()),
                        El::The(x) => Want::OneOf(best.as_ref().expect("harness: the").iter().map(|i| g[*i][at(*x)].clone()).collect()),
                        El::Agg(Op::Count, _) => Want::Is(V::Long(g.len() as i64)),
                        El::Agg(Op::Min, x) => Want::Is(g.iter().map(|r| &r[at(*x)]).min_by(|a, b| cmp(a, b)).unwrap().clone()),
                        El::Agg(Op::Max, x) => Want::Is(g.iter().map(|r| &r[at(*x)]).max_by(|a, b| cmp(a, b)).unwrap().clone()),
                        El::Agg(op, x) => {
                            let mut sum = 0f64; let mut isum = 0i128; let mut all_long = true; let mut numeric = true;
                            for r in g { match &r[at(*x)] { V::Long(i) => { isum += *i as i128; sum += *i as f64; }, V::Dbl(d) => { all_long = false; sum += d.0; }, _ => numeric = false } }
                            if !numeric { Want::Near(f64::NAN) }
                            else if *op == Op::Avg { Want::Near(sum / g.len() as f64) }
                            else if all_long {
                                // partial sums depend on the order: any possible overflow is left open
                                let mag: i128 = g.iter().map(|r| if let V::Long(i) = r[at(*x)] { (i as i128).abs() } else { 0 }).sum();
                                if mag > i64::MAX as i128 { overflow = true; }
                                Want::Is(V::Long(isum as i64))
                            } else {
                                let mag: i128 = g.iter().map(|r| if let V::Long(i) = r[at(*x)] { (i as i128).abs() } else { 0 }).sum();
                                if mag > i64::MAX as i128 { overflow = true; }
                                Want::NearLong(sum)
                            }
                        }
                    });
                }
                want.push((key, cells));
            }
            if overflow { ctx.count("overflow_skipped"); continue; }
            // cancellation makes the relative tolerance meaningless
            let spread = rows.iter().any(|r| r.iter().any(|v| if let V::Dbl(d) = v { d.0.abs() > 1e12 } else if let V::Long(i) = v { i.abs() > 1 << 50 } else { false }));
            if spread && els.iter().any(|e| if let El::Agg(Op::Sum, _) | El::Agg(Op::Avg, _) = e { true } else { false }) { ctx.count("cancellation_skipped"); continue; }
        } else {
            let mut proj: BTreeSet<Vec<V>> = BTreeSet::new();
            let mut keep: Vec<Var> = found.clone();
            for o in &order { if !keep.contains(&o.0) { keep.push(o.0); } }
            for r in &rows { proj.insert(keep.iter().map(|x| r[at(*x)].clone()).collect()); }
            for r in &proj {
                let pos = |x: Var| keep.iter().position(|k| *k == x).unwrap();
                want.push((order.iter().map(|o| r[pos(o.0)].clone()).collect(), found.iter().map(|x| Want::Is(r[pos(*x)].clone())).collect()));
            }
        }
        let kcmp = |a: &Vec<V>, b: &Vec<V>| { for (i, o) in order.iter().enumerate() { let c = cmp(&a[i], &b[i]); let c = if o.1 { c } else { c.reverse() }; if c != Ordering::Equal { return c; } } Ordering::Equal };
        want.sort_by(|a, b| kcmp(&a.0, &b.0));
        let cap = if spec >= 2 { 1 } else { limit.unwrap_or(usize::max_value()) };
        if ctx.rng.pct(25) { gone_wrong(ctx, &real, &text, &mentat::QueryInputs::default)?; }
        let got = real.q(&text).map_err(|e| { ctx.note(text.clone()); e })?;
        match got {
            Err(e) => {
                let bad_agg = els.iter().any(|x| if let El::Agg(op, v) = x { known_vt(&m, &q.wh, *v).map_or(true, |t| !applicable(*op, t)) || rows.is_empty() } else { false });
                if documented_refusal(&e, &q.wh) || bad_agg && (e.contains("cannot apply projection operation") || e.contains("no possible types for value provided to")) { ctx.count("queries_refused"); continue; }
                ctx.note(text.clone());
                if std::env::var("MV_ALL").is_ok() { eprintln!("BAD {} <- {}", e, text); continue; }
                return bad(format!("refused a query: {}", e));
            }
            Ok(r) => {
                let verdict = (|| {
                    let kind = match r { QueryResults::Rel(_) => 0, QueryResults::Coll(_) => 1, QueryResults::Tuple(_) => 2, QueryResults::Scalar(_) => 3 };
                    if kind != spec { return Err(format!("kind {} for spec {}", kind, spec)); }
                    for e in &els { if let El::Agg(op, v) = e { if let Some(t) = known_vt(&m, &q.wh, *v) { if !applicable(*op, t) && !rows.is_empty() { return Err(format!("{:?} of {:?} accepted", op, t)); } } } }
                    let rows = rows_of(&r).ok_or("not values")?;
                    if optional_row && rows.len() == 1 && rows[0].iter().all(|v| *v == V::Long(0)) { return Ok(()); }
                    if rows.len() != want.len().min(cap) { return Err(format!("{} rows where {} (limit {}) are due", rows.len(), want.len(), cap as i64)); }
                    // Rows come in blocks of equal sort key; within a block any order, and any choice at the limit.
                    let mut i = 0;
                    while i < rows.len() {
                        let mut j = i + 1;
                        while j < want.len() && kcmp(&want[i].0, &want[j].0) == Ordering::Equal { j += 1; }
                        let mut free: Vec<usize> = (i..j).collect();
                        for r in &rows[i..j.min(rows.len())] {
                            match free.iter().position(|k| want[*k].1.iter().zip(r).all(|(w, v)| w.matches(v))) {
                                Some(k) => { free.remove(k); }
                                None => return Err(format!("row {} is wrong or out of order; due here: {}", show(&[r.clone()]), free.iter().take(5).map(|k| format!("[{}]", want[*k].1.iter().map(|w| w.show()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" "))),
                            }
                        }
                        i = j;
                    }
                    Ok(())
                })();
                if let Err(e) = verdict {
                    if std::env::var("MV_ALL").is_ok() { eprintln!("BAD {} <- {}", e, text); continue; }
                    ctx.note(text);
                    return bad(e);
                }
                ctx.count("queries_answered");
                if is_agg { ctx.count("aggregated"); }
                if !order.is_empty() { ctx.count("ordered"); }
                if want.len() > cap { ctx.count("cut_by_limit"); }
                if !with.is_empty() { ctx.count("with"); }
                if the { ctx.count("the"); }
                ctx.eval(!want.is_empty() && (is_agg || spec != 0 || !order.is_empty() || limit.is_some()), &format!("{}|{}", m.facts.len(), text));
                if is_agg && want.len() > 1 { ctx.sample(|| format!("{} -> {} rows", text, want.len())); }
            }
        }
    }
    Ok(())
}
