//! Queries: an independent syntax tree, printer and naive evaluator over a set of facts.
use crate::model::*;
use crate::rng::Rng;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Var = usize;

/// A constant as written; integers and keywords take their type from where they stand.
#[derive(Clone, PartialEq, Debug)]
pub enum C { Int(i64), Kw(String), V(V) }

#[derive(Clone, PartialEq, Debug)]
pub enum P { Any, Var(Var), C(C) }

#[derive(Clone, Debug)]
pub enum Bind { Scalar(Var), Coll(Var), Tuple(Vec<Option<Var>>), Rel(Vec<Option<Var>>) }

#[derive(Clone, Debug)]
pub enum Cl {
    Pat(P, P, P, Option<P>),
    Pred(&'static str, P, P),
    Type(Var, VT),
    Ground(Bind, Vec<Vec<C>>),
    Or(Option<Vec<Var>>, Vec<Vec<Cl>>),
    Not(Option<Vec<Var>>, Vec<Cl>),
    /// [(fulltext $ attr search) [[?e ?v ?tx _]]]
    Fulltext(P, P, [Option<Var>; 3]),
    TxIds(P, P, Var),
    TxData(P, [Option<Var>; 5]),
}

pub struct Q { pub names: Vec<String>, pub find: Vec<Var>, pub spec: u8, pub wh: Vec<Cl> }

pub fn c_text(c: &C) -> String { match c { C::Int(i) => i.to_string(), C::Kw(k) => k.clone(), C::V(v) => v.text() } }

pub struct Pr<'a>(pub &'a [String]);
impl<'a> Pr<'a> {
    pub fn v(&self, v: Var) -> &str { &self.0[v] }
    pub fn p(&self, p: &P) -> String { match p { P::Any => "_".into(), P::Var(v) => self.0[*v].clone(), P::C(c) => c_text(c) } }
    fn ov(&self, v: &Option<Var>) -> String { v.map_or("_".into(), |v| self.0[v].clone()) }
    fn vars(&self, vs: &[Var]) -> String { vs.iter().map(|v| self.0[*v].clone()).collect::<Vec<_>>().join(" ") }
    pub fn cls(&self, cs: &[Cl]) -> String { cs.iter().map(|c| self.cl(c)).collect::<Vec<_>>().join(" ") }
    pub fn cl(&self, c: &Cl) -> String {
        match c {
            Cl::Pat(e, a, v, t) => {
                let mut s = format!("[{} {} {}", self.p(e), self.p(a), self.p(v));
                if let Some(t) = t { s.push(' '); s.push_str(&self.p(t)); }
                s + "]"
            }
            Cl::Pred(op, a, b) => format!("[({} {} {})]", op, self.p(a), self.p(b)),
            Cl::Type(v, t) => format!("[(type {} {})]", self.v(*v), t.kw()),
            Cl::Ground(b, rows) => {
                let row = |r: &Vec<C>| r.iter().map(c_text).collect::<Vec<_>>().join(" ");
                match b {
                    Bind::Scalar(v) => format!("[(ground {}) {}]", c_text(&rows[0][0]), self.v(*v)),
                    Bind::Coll(v) => format!("[(ground [{}]) [{} ...]]", rows.iter().map(&row).collect::<Vec<_>>().join(" "), self.v(*v)),
                    Bind::Tuple(vs) => format!("[(ground [{}]) [{}]]", row(&rows[0]), vs.iter().map(|v| self.ov(v)).collect::<Vec<_>>().join(" ")),
                    Bind::Rel(vs) => format!("[(ground [{}]) [[{}]]]", rows.iter().map(|r| format!("[{}]", row(r))).collect::<Vec<_>>().join(" "), vs.iter().map(|v| self.ov(v)).collect::<Vec<_>>().join(" ")),
                }
            }
            Cl::Or(vs, arms) => {
                let arms: Vec<String> = arms.iter().map(|a| if a.len() == 1 { self.cl(&a[0]) } else { format!("(and {})", self.cls(a)) }).collect();
                match vs { None => format!("(or {})", arms.join(" ")), Some(vs) => format!("(or-join [{}] {})", self.vars(vs), arms.join(" ")) }
            }
            Cl::Not(vs, cs) => match vs { None => format!("(not {})", self.cls(cs)), Some(vs) => format!("(not-join [{}] {})", self.vars(vs), self.cls(cs)) },
            Cl::Fulltext(a, s, [e, v, t]) => format!("[(fulltext $ {} {}) [[{} {} {} _]]]", self.p(a), self.p(s), self.ov(e), self.ov(v), self.ov(t)),
            Cl::TxIds(a, b, v) => format!("[(tx-ids $ {} {}) [{} ...]]", self.p(a), self.p(b), self.v(*v)),
            Cl::TxData(t, vs) => format!("[(tx-data $ {}) [[{}]]]", self.p(t), vs.iter().map(|v| self.ov(v)).collect::<Vec<_>>().join(" ")),
        }
    }
}

/// Variables a clause shares with its surroundings.
pub fn vars_of(c: &Cl, out: &mut BTreeSet<Var>) {
    let mut p = |x: &P| if let P::Var(v) = x { out.insert(*v); };
    match c {
        Cl::Pat(e, a, v, t) => { p(e); p(a); p(v); if let Some(t) = t { p(t); } }
        Cl::Pred(_, a, b) => { p(a); p(b); }
        Cl::Type(v, _) => { out.insert(*v); }
        Cl::Ground(b, _) => match b {
            Bind::Scalar(v) | Bind::Coll(v) => { out.insert(*v); }
            Bind::Tuple(vs) | Bind::Rel(vs) => for v in vs.iter().filter_map(|v| *v) { out.insert(v); },
        },
        Cl::Or(Some(vs), _) | Cl::Not(Some(vs), _) => for v in vs { out.insert(*v); },
        Cl::Or(None, arms) => for a in arms { for c in a { vars_of(c, out); } },
        Cl::Not(None, cs) => for c in cs { vars_of(c, out); },
        Cl::Fulltext(a, s, vs) => { p(a); p(s); for v in vs.iter().filter_map(|v| *v) { out.insert(v); } }
        Cl::TxIds(a, b, v) => { p(a); p(b); out.insert(*v); }
        Cl::TxData(t, vs) => { p(t); for v in vs.iter().filter_map(|v| *v) { out.insert(v); } }
    }
}

pub type Row = Vec<Option<V>>;

pub struct Db<'a> {
    pub m: &'a Model,
    by_e: HashMap<i64, Vec<usize>>,
    by_a: HashMap<i64, Vec<usize>>,
    by_v: HashMap<&'a V, Vec<usize>>,
    facts: Vec<(&'a Fact, i64)>,
    pub cap: usize,
}

pub struct TooBig;

fn num(v: &V) -> Option<f64> { match v { V::Long(i) => Some(*i as f64), V::Dbl(d) => Some(d.0), _ => None } }

impl<'a> Db<'a> {
    pub fn new(m: &'a Model) -> Db<'a> {
        let facts: Vec<(&Fact, i64)> = m.facts.iter().map(|(k, t)| (k, *t)).collect();
        let (mut by_e, mut by_a, mut by_v) = (HashMap::new(), HashMap::new(), HashMap::new());
        for (i, (f, _)) in facts.iter().enumerate() {
            by_e.entry(f.0).or_insert_with(Vec::new).push(i);
            by_a.entry(f.1).or_insert_with(Vec::new).push(i);
            by_v.entry(&f.2).or_insert_with(Vec::new).push(i);
        }
        Db { m, by_e, by_a, by_v, facts, cap: 6000 }
    }

    pub fn entity(&self, c: &C) -> Option<i64> {
        match c {
            C::Int(i) | C::V(V::Ref(i)) => Some(*i),
            C::Kw(k) => self.m.schema.idents.get(k).cloned(),
            _ => None,
        }
    }

    /// Does the constant, written where a value of attribute `a` stands, denote `v`?
    fn value_matches(&self, c: &C, a_known: Option<i64>, v: &V) -> bool {
        match c {
            C::Int(i) => match v {
                V::Ref(x) | V::Long(x) | V::Inst(x) => x == i,
                V::Dbl(d) => d.0 == *i as f64,
                _ => false,
            },
            C::Kw(k) => match a_known.and_then(|a| self.m.schema.attrs.get(&a)) {
                Some(at) if at.vt == VT::Ref => self.m.schema.idents.get(k).map_or(false, |e| *v == V::Ref(*e)),
                _ => *v == V::Kw(k.clone()),
            },
            C::V(w) => w == v,
        }
    }

    fn eplace(&self, p: &P, row: &Row) -> Result<Option<i64>, ()> {
        match p {
            P::Any => Ok(None),
            P::C(c) => self.entity(c).map(Some).ok_or(()),
            P::Var(v) => match &row[*v] { None => Ok(None), Some(V::Ref(e)) => Ok(Some(*e)), Some(_) => Err(()) },
        }
    }

    fn pattern(&self, row: &Row, e: &P, a: &P, v: &P, t: &Option<P>, out: &mut Vec<Row>) -> Result<(), TooBig> {
        let any = P::Any;
        let t = t.as_ref().unwrap_or(&any);
        let (ec, ac, tc) = match (self.eplace(e, row), self.eplace(a, row), self.eplace(t, row)) { (Ok(e), Ok(a), Ok(t)) => (e, a, t), _ => return Ok(()) };
        let vc = match v { P::Var(x) => row[*x].as_ref(), _ => None };
        let empty = vec![];
        let all: Vec<usize>;
        let idx: &Vec<usize> = if let Some(e) = ec { self.by_e.get(&e).unwrap_or(&empty) }
            else if let Some(v) = vc { self.by_v.get(v).unwrap_or(&empty) }
            else if let Some(a) = ac { self.by_a.get(&a).unwrap_or(&empty) }
            else { all = (0..self.facts.len()).collect(); &all };
        let a_const = match a { P::C(_) => ac, _ => None };
        if let Some(a) = a_const { if !self.m.schema.attrs.contains_key(&a) { return Ok(()); } }
        for i in idx {
            let (f, ft) = &self.facts[*i];
            if ec.map_or(false, |x| x != f.0) || ac.map_or(false, |x| x != f.1) || tc.map_or(false, |x| x != *ft) { continue; }
            if let P::C(c) = v { if !self.value_matches(c, a_const, &f.2) { continue; } }
            let mut r = row.clone();
            let mut ok = true;
            {
                let mut bind = |p: &P, v: V| if let P::Var(x) = p { match &r[*x] { Some(o) => if *o != v { ok = false; }, None => r[*x] = Some(v) } };
                bind(e, V::Ref(f.0)); bind(a, V::Ref(f.1)); bind(v, f.2.clone()); bind(t, V::Ref(*ft));
            }
            if ok { out.push(r); if out.len() > self.cap { return Err(TooBig); } }
        }
        Ok(())
    }

    fn pred(&self, op: &str, a: &V, b: &V) -> bool {
        use std::cmp::Ordering::*;
        let refs = match op { "unpermute" | "differ" | "tx-after" | "tx-before" => true, _ => false };
        let o = match (a, b) {
            (V::Ref(x), V::Ref(y)) if refs => x.cmp(y),
            (V::Inst(x), V::Inst(y)) if !refs => x.cmp(y),
            (V::Long(x), V::Long(y)) if !refs => x.cmp(y),
            (x, y) if !refs => match (num(x), num(y)) { (Some(x), Some(y)) => x.partial_cmp(&y).unwrap(), _ => return false },
            _ => return false,
        };
        match op {
            "<" | "unpermute" | "tx-before" => o == Less,
            "<=" => o != Greater,
            ">" | "tx-after" => o == Greater,
            ">=" => o != Less,
            "!=" | "differ" => o != Equal,
            _ => panic!("operator"),
        }
    }

    /// The value of a predicate argument in a row (None: not bound yet).
    fn arg(&self, op: &str, p: &P, row: &Row) -> Option<V> {
        match p {
            P::Var(v) => row[*v].clone(),
            P::C(c) => {
                let refs = match op { "unpermute" | "differ" | "tx-after" | "tx-before" => true, _ => false };
                Some(if refs { self.entity(c).map(V::Ref).unwrap_or(V::Ref(-1)) } else { match c { C::Int(i) => V::Long(*i), C::Kw(k) => V::Kw(k.clone()), C::V(v) => v.clone() } })
            }
            P::Any => None,
        }
    }

    /// Unify a written constant with a place: existing binding filters, otherwise its default type.
    fn ground1(&self, row: &mut Row, v: Var, c: &C, hint: &BTreeSet<Var>) -> bool {
        match &row[v] {
            Some(V::Ref(x)) => self.entity(c).map_or(false, |e| e == *x),
            Some(o) => match c { C::Int(i) => *o == V::Long(*i), C::Kw(k) => *o == V::Kw(k.clone()), C::V(w) => o == w },
            None => {
                let val = if hint.contains(&v) { match self.entity(c) { Some(e) => V::Ref(e), None => return false } }
                    else { match c { C::Int(i) => V::Long(*i), C::Kw(k) => V::Kw(k.clone()), C::V(w) => w.clone() } };
                row[v] = Some(val);
                true
            }
        }
    }

    /// All bindings satisfying every clause, starting from `rows`.
    pub fn conj(&self, cls: &[Cl], rows: Vec<Row>) -> Result<Vec<Row>, TooBig> {
        let mut rows = rows;
        let mut left: Vec<&Cl> = cls.iter().collect();
        let hint = BTreeSet::new();
        while !left.is_empty() {
            if rows.is_empty() { return Ok(rows); }
            // Choose the cheapest clause that can be evaluated.
            let bound = |v: Var| rows[0][v].is_some();
            let pb = |p: &P| match p { P::Any => false, P::Var(v) => bound(*v), P::C(_) => true };
            let score = |c: &Cl| -> i32 {
                match c {
                    Cl::Pred(_, a, b) => { let ok = |p: &P| match p { P::Var(v) => bound(*v), _ => true }; if ok(a) && ok(b) { 100 } else { -1 } }
                    Cl::Type(v, _) => if bound(*v) { 99 } else { -1 },
                    Cl::Pat(e, a, v, t) => 20 + 8 * pb(e) as i32 + 4 * pb(v) as i32 + 3 * pb(a) as i32 + 2 * t.as_ref().map_or(false, |t| pb(t)) as i32,
                    Cl::Fulltext(_, s, _) => match s { P::Var(v) if !bound(*v) => -1, _ => 25 },
                    Cl::TxIds(..) => 24,
                    Cl::TxData(t, _) => match t { P::Var(v) if !bound(*v) => -1, _ => 23 },
                    Cl::Ground(..) => 10,
                    Cl::Or(..) => 5,
                    Cl::Not(..) => 0,
                }
            };
            let (i, s) = left.iter().enumerate().map(|(i, c)| (i, score(c))).max_by_key(|x| x.1).unwrap();
            if s < 0 { panic!("harness: query is not range restricted"); }
            let c = left.remove(i);
            let mut out: Vec<Row> = vec![];
            match c {
                Cl::Pat(e, a, v, t) => for r in &rows {
                    let n = out.len();
                    self.pattern(r, e, a, v, t, &mut out)?;
                    // Binding nothing, it either holds or doesn't.
                    let new = |p: &P| match p { P::Var(v) => r[*v].is_none(), _ => false };
                    if !(new(e) || new(a) || new(v) || t.as_ref().map_or(false, |t| new(t))) { out.truncate(n + 1); }
                },
                Cl::Pred(op, a, b) => for r in &rows { if self.pred(op, &self.arg(op, a, r).unwrap(), &self.arg(op, b, r).unwrap()) { out.push(r.clone()); } },
                Cl::Type(v, t) => for r in &rows { if r[*v].as_ref().unwrap().vt() == *t { out.push(r.clone()); } },
                Cl::Ground(b, crows) => for r in &rows {
                    let vs: Vec<Option<Var>> = match b { Bind::Scalar(v) | Bind::Coll(v) => vec![Some(*v)], Bind::Tuple(vs) | Bind::Rel(vs) => vs.clone() };
                    for cr in crows {
                        let mut r2 = r.clone();
                        if vs.iter().zip(cr).all(|(v, c)| v.map_or(true, |v| self.ground1(&mut r2, v, c, &hint))) { out.push(r2); }
                    }
                },
                Cl::Or(vs, arms) => for r in &rows {
                    for a in arms {
                        let start = match vs { None => r.clone(), Some(vs) => { let mut s = vec![None; r.len()]; for v in vs { s[*v] = r[*v].clone(); } s } };
                        for x in self.conj(a, vec![start])? {
                            let mut r2 = r.clone();
                            match vs { None => { r2 = x; } Some(vs) => for v in vs { r2[*v] = x[*v].clone(); } }
                            out.push(r2);
                            if out.len() > self.cap { return Err(TooBig); }
                        }
                    }
                },
                Cl::Not(vs, cs) => for r in &rows {
                    let start = match vs { None => r.clone(), Some(vs) => { let mut s = vec![None; r.len()]; for v in vs { s[*v] = r[*v].clone(); } s } };
                    if self.conj(cs, vec![start])?.is_empty() { out.push(r.clone()); }
                },
                Cl::Fulltext(a, search, [e, v, t]) => for r in &rows {
                    let aid = match a { P::Var(v) => match &r[*v] { Some(V::Ref(x)) => *x, _ => continue }, P::C(c) => match self.entity(c) { Some(x) => x, None => continue }, P::Any => continue };
                    if !self.m.schema.attrs.get(&aid).map_or(false, |a| a.fulltext) { continue; }
                    let search = match search { P::C(C::V(V::Str(s))) => s.clone(), P::Var(v) => match &r[*v] { Some(V::Str(s)) => s.clone(), _ => continue }, _ => continue };
                    for i in self.by_a.get(&aid).map(|x| x.as_slice()).unwrap_or(&[]) {
                        let (f, ft) = &self.facts[*i];
                        let text = match &f.2 { V::Str(s) => s, _ => continue };
                        if !search_matches(text, &search) { continue; }
                        let mut r2 = r.clone();
                        if [(e, V::Ref(f.0)), (v, f.2.clone()), (t, V::Ref(*ft))].iter().all(|(x, val)| unify(&mut r2, **x, val)) { out.push(r2); if out.len() > self.cap { return Err(TooBig); } }
                    }
                },
                Cl::TxIds(a, b, v) => for r in &rows {
                    for (tx, _) in &self.m.log {
                        if !(self.tx_cmp(a, r, *tx) && !self.tx_cmp(b, r, *tx)) { continue; }
                        let mut r2 = r.clone();
                        if unify(&mut r2, Some(*v), &V::Ref(*tx)) { out.push(r2); }
                    }
                },
                Cl::TxData(t, vs) => for r in &rows {
                    let want = match t { P::Var(v) => match &r[*v] { Some(V::Ref(x)) => *x, _ => continue }, P::C(c) => match self.entity(c) { Some(x) => x, None => continue }, P::Any => continue };
                    for (tx, entry) in self.m.log.iter().filter(|l| l.0 == want) {
                        for (e, a, v, added) in entry.iter() {
                            let vals = [V::Ref(*e), V::Ref(*a), v.clone(), V::Ref(*tx), V::Bool(*added)];
                            let mut r2 = r.clone();
                            if vs.iter().zip(vals.iter()).all(|(x, val)| unify(&mut r2, *x, val)) { out.push(r2); if out.len() > self.cap { return Err(TooBig); } }
                        }
                    }
                },
            }
            if out.len() > self.cap { return Err(TooBig); }
            rows = out;
        }
        Ok(rows)
    }

    /// Is `tx` at or after the bound (an id or an instant)?
    fn tx_cmp(&self, p: &P, row: &Row, tx: i64) -> bool {
        let v = match p { P::Var(v) => row[*v].clone().expect("bound"), P::C(C::V(v)) => v.clone(), P::C(C::Int(i)) => V::Ref(*i), P::C(C::Kw(k)) => V::Ref(*self.m.schema.idents.get(k).unwrap_or(&-1)), P::Any => panic!("_ as bound") };
        match v {
            V::Ref(b) => tx >= b,
            V::Inst(b) => {
                let inst = self.m.boot.get(":db/txInstant");
                match self.m.values(tx, inst).get(0) { Some(V::Inst(t)) => *t >= b, _ => false }
            }
            _ => panic!("bound type"),
        }
    }

    pub fn run(&self, q: &Q) -> Result<BTreeSet<Vec<V>>, TooBig> {
        let rows = self.conj(&q.wh, vec![vec![None; q.names.len()]])?;
        Ok(rows.into_iter().map(|r| q.find.iter().map(|v| r[*v].clone().expect("harness: unbound find variable")).collect()).collect())
    }
}

fn unify(r: &mut Row, v: Option<Var>, val: &V) -> bool {
    match v { None => true, Some(v) => match &r[v] { Some(o) => o == val, None => { r[v] = Some(val.clone()); true } } }
}

pub fn words_of(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
}

/// Does a text contain what is searched for: words, "phrases" and prefixes*, alternatives joined by OR?
pub fn search_matches(text: &str, search: &str) -> bool {
    let t = words_of(text);
    search.split(" OR ").any(|alt| {
        let mut rest = alt.trim();
        let mut any = false;
        while !rest.is_empty() {
            let (term, phrase) = if rest.starts_with('"') {
                let end = rest[1..].find('"').expect("harness: closed phrase") + 1;
                let x = &rest[1..end];
                rest = rest[end + 1..].trim_start();
                (x, true)
            } else {
                let end = rest.find(' ').unwrap_or(rest.len());
                let x = &rest[..end];
                rest = rest[end..].trim_start();
                (x, false)
            };
            any = true;
            let ws = words_of(term);
            if ws.is_empty() { panic!("harness: empty term in {:?}", search); }
            let ok = if phrase { t.windows(ws.len()).any(|w| w == &ws[..]) }
                else if term.ends_with('*') { t.iter().any(|w| w.starts_with(&ws[0])) }
                else { t.contains(&ws[0]) };
            if !ok { return false; }
        }
        any
    })
}

pub fn find_text(q: &Q) -> String {
    let pr = Pr(&q.names);
    let vs = q.find.iter().map(|v| pr.v(*v).to_string()).collect::<Vec<_>>().join(" ");
    match q.spec { 0 => vs, 1 => format!("[{} ...]", vs), 2 => format!("[{}]", vs), _ => format!("{} .", vs) }
}
pub fn q_text(q: &Q) -> String { format!("[:find {} :where {}]", find_text(q), Pr(&q.names).cls(&q.wh)) }

/// Names in random order, so that nothing depends on how they sort.
pub fn var_names(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = ["?a", "?b", "?x", "?y", "?z", "?m", "?foo", "?bar-baz", "?e", "?v", "?t", "?k9", "?long", "?q"].iter().map(|s| s.to_string()).collect();
    for i in v.len()..n { v.push(format!("?n{}", i)); }
    rng.shuffle(&mut v);
    v.truncate(n);
    v
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub m: &'a Model,
    pub facts: Vec<(Fact, i64)>,
    /// Witness value of each variable; local variables are not visible outside.
    pub env: Vec<Option<V>>,
    pub visible: Vec<Var>,
    pub max_vars: usize,
    pub nest: u32,
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, m: &'a Model, user: &[Fact]) -> Gen<'a> {
        // mostly user facts, some of the bootstrap ones
        let mut facts: Vec<(Fact, i64)> = user.iter().map(|f| (f.clone(), m.facts[f])).collect();
        let all: Vec<(&Fact, &i64)> = m.facts.iter().collect();
        for _ in 0..(facts.len() / 8 + 2) { let (f, t) = all[rng.below(all.len())]; facts.push((f.clone(), *t)); }
        // facts of a removed attribute are only found without naming it
        facts.retain(|(f, _)| m.schema.attrs.contains_key(&f.1));
        Gen { rng, m, facts, env: vec![], visible: vec![], max_vars: 6, nest: 1 }
    }
    pub fn fresh(&mut self, v: V) -> Var { self.env.push(Some(v)); self.visible.push(self.env.len() - 1); self.env.len() - 1 }
    fn holding(&mut self, v: &V) -> Option<Var> {
        let c: Vec<Var> = self.visible.iter().filter(|x| self.env[**x].as_ref() == Some(v)).cloned().collect();
        if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
    }
    pub fn entity_const(&mut self, e: i64) -> C {
        if self.rng.pct(60) { if let Some(k) = self.m.schema.ident_of(e) { return C::Kw(k.clone()); } }
        C::Int(e)
    }
    pub fn value_const(&mut self, v: &V) -> C {
        match v { V::Ref(e) => self.entity_const(*e), V::Long(i) => C::Int(*i), V::Kw(k) => C::Kw(k.clone()), v => C::V(v.clone()) }
    }
    fn place(&mut self, v: V, w: [u32; 3], entity: bool) -> P {
        // existing variable, new variable, constant, anything
        if let Some(x) = self.holding(&v) { if self.rng.pct(65) { return P::Var(x); } }
        match self.rng.weighted(&w) {
            0 if self.env.len() < self.max_vars => P::Var(self.fresh(v)),
            1 => P::C(if entity { match v { V::Ref(e) => self.entity_const(e), _ => panic!() } } else { self.value_const(&v) }),
            _ => P::Any,
        }
    }
    fn fact(&mut self) -> (Fact, i64) {
        // Prefer a fact connected with a variable.
        if !self.visible.is_empty() && self.rng.pct(85) {
            let x = *self.rng.pick(&self.visible.clone());
            let v = self.env[x].clone().unwrap();
            let c: Vec<usize> = (0..self.facts.len()).filter(|i| {
                let (f, t) = &self.facts[*i];
                match &v { V::Ref(r) => f.0 == *r || f.2 == v || t == r || f.1 == *r, _ => f.2 == v }
            }).collect();
            if !c.is_empty() { let i = *self.rng.pick(&c); return self.facts[i].clone(); }
        }
        let i = self.rng.below(self.facts.len());
        self.facts[i].clone()
    }
    pub fn pattern(&mut self) -> Cl {
        let ((e, a, v), t) = self.fact();
        let pe = self.place(V::Ref(e), [75, 15, 10], true);
        let pa = match self.rng.weighted(&[86, 9, 5]) { 0 => P::C(self.attr_const(a)), 1 => self.place(V::Ref(a), [100, 0, 0], true), _ => P::Any };
        let pv = self.place(v.clone(), [60, 28, 12], false);
        let pt = match self.rng.weighted(&[78, 16, 6]) { 0 => None, 1 => Some(self.place(V::Ref(t), [70, 0, 30], true)), _ => Some(P::C(C::Int(t))) };
        // A written keyword means an ident only beside a known reference attribute.
        let pv = match (&pa, pv) { (P::C(_), pv) => pv, (_, P::C(C::Kw(k))) => match v { V::Ref(e) => P::C(C::Int(e)), _ => P::C(C::Kw(k)) }, (_, pv) => pv };
        Cl::Pat(pe, pa, pv, pt)
    }
    pub fn attr_const(&mut self, a: i64) -> C {
        if self.rng.pct(5) { return C::Int(a); }
        match self.m.schema.ident_of(a) { Some(k) => C::Kw(k.clone()), None => C::Int(a) }
    }
    pub fn any_attr(&mut self) -> i64 { let i = self.rng.below(self.facts.len()); (self.facts[i].0).1 }
    pub fn attr_vt(&self, a: i64) -> VT { self.m.schema.attrs[&a].vt }

    pub fn compare(&mut self) -> Option<Cl> {
        let c: Vec<Var> = self.visible.iter().filter(|x| match self.env[**x] { Some(V::Long(_)) | Some(V::Dbl(_)) | Some(V::Inst(_)) => true, _ => false }).cloned().collect();
        if c.is_empty() || self.rng.pct(15) {
            let c: Vec<Var> = self.visible.iter().filter(|x| match self.env[**x] { Some(V::Ref(_)) => true, _ => false }).cloned().collect();
            if c.len() < 1 { return None; }
            let a = *self.rng.pick(&c);
            let op = *self.rng.pick(&["unpermute", "differ", "tx-after", "tx-before"]);
            let b = if c.len() > 1 && self.rng.pct(70) { let b = *self.rng.pick(&c); if a == b { return None; } P::Var(b) } else { let e = match self.env[a] { Some(V::Ref(e)) => e, _ => panic!() }; P::C(C::Int(e.saturating_add(self.rng.range(-1, 1)))) };
            return Some(Cl::Pred(op, P::Var(a), b));
        }
        let a = *self.rng.pick(&c);
        let op = *self.rng.pick(&["<", "<=", ">", ">=", "!="]);
        let same: Vec<Var> = c.iter().filter(|x| **x != a && self.env[**x].as_ref().unwrap().vt() == self.env[a].as_ref().unwrap().vt()).cloned().collect();
        let b = if !same.is_empty() && self.rng.pct(40) { P::Var(*self.rng.pick(&same)) } else {
            P::C(match self.env[a].clone().unwrap() {
                V::Long(i) => if self.rng.pct(80) { C::Int(i.saturating_add(self.rng.range(-2, 2))) } else { C::V(V::dbl(0.5)) },
                V::Dbl(d) => if self.rng.pct(80) { C::V(V::dbl(d.0 + *self.rng.pick(&[0.0, 0.25, -0.25]))) } else { C::Int(1) },
                V::Inst(t) => C::V(V::Inst(t + self.rng.range(-1, 1))),
                _ => panic!(),
            })
        };
        if self.rng.pct(20) { return Some(Cl::Pred(op, b, P::Var(a))); }
        Some(Cl::Pred(op, P::Var(a), b))
    }

    /// One arm mentioning exactly `vs`, or those and local variables.
    fn arm(&mut self, vs: &[Var], locals: bool) -> Vec<Cl> {
        let saved_env = self.env.len();
        let saved_vis = self.visible.clone();
        self.visible = vs.to_vec();
        let mut cls = vec![];
        let mut need: Vec<Var> = vs.to_vec();
        // Half the time aim at a witness, otherwise take any attribute of the right shape.
        while let Some(x) = need.pop() {
            let w = self.env[x].clone().unwrap();
            let other: Option<Var> = need.last().cloned();
            let is_ref = w.vt() == VT::Ref;
            let cand: Vec<(Fact, i64)> = self.facts.iter().filter(|(f, _)| match &w { V::Ref(_) => true, v => f.2.vt() == v.vt() }).cloned().collect();
            let ((_, a, v), t) = if cand.is_empty() { self.fact() } else { cand[self.rng.below(cand.len())].clone() };
            let ac = P::C(self.attr_const(a));
            if is_ref && self.rng.pct(80) {
                let pv = match other {
                    Some(o) if self.env[o].as_ref().unwrap().vt() == v.vt() && self.rng.pct(70) => { need.retain(|y| *y != o); P::Var(o) }
                    _ => match self.rng.below(3) { 0 => P::C(self.value_const(&v)), 1 if locals => P::Var(self.fresh(v.clone())), _ => P::Any },
                };
                cls.push(Cl::Pat(P::Var(x), ac, pv, None));
            } else if is_ref && self.rng.pct(50) {
                cls.push(Cl::Pat(P::Any, P::Any, P::Any, Some(P::Var(x))));
                let _ = t;
            } else {
                let pe = if locals && self.rng.pct(50) { P::Var(self.fresh(V::Ref(-1))) } else { P::Any };
                cls.push(Cl::Pat(pe, if v.vt() == w.vt() { ac } else { P::Any }, P::Var(x), None));
            }
        }
        if self.rng.pct(12) { if let Some(c) = self.compare() { cls.push(c); } }
        if self.nest > 0 {
            self.nest -= 1;
            self.visible = vs.to_vec();
            if self.rng.pct(14) { if let Some(c) = self.not() { cls.push(c); } }
            if self.rng.pct(12) { if let Some(c) = self.or_over(vs) { cls.push(c); } }
            self.nest += 1;
        }
        self.visible = saved_vis;
        let _ = saved_env;
        cls
    }

    /// Something that's the case or isn't, whatever the variables.
    fn vacant(&mut self, depth: u32) -> Vec<Cl> {
        let mut cls = vec![];
        for _ in 0..1 + self.rng.below(2) {
            let ((e, a, v), t) = self.fact();
            let a = if self.rng.pct(30) { self.any_attr() } else { a };
            let e = if self.rng.pct(35) { P::C(self.entity_const(e)) } else { P::Any };
            let same = self.facts.iter().any(|(f, _)| f.1 == a && f.2.vt() == v.vt());
            let v = if same && self.rng.pct(45) { P::C(self.value_const(&v)) } else { P::Any };
            let t = if self.rng.pct(10) { Some(P::C(self.entity_const(t))) } else { None };
            let ac = P::C(self.attr_const(a));
            cls.push(Cl::Pat(e, ac, v, t));
        }
        if depth > 0 && self.rng.pct(25) { let c = self.vacant_cl(depth - 1); cls.push(c); }
        cls
    }
    fn vacant_cl(&mut self, depth: u32) -> Cl {
        if self.rng.pct(70) {
            let n = 1 + self.rng.below(3);
            Cl::Or(None, (0..=n).map(|_| self.vacant(depth)).collect())
        } else { Cl::Not(None, self.vacant(depth)) }
    }

    pub fn or(&mut self) -> Option<Cl> {
        if self.visible.is_empty() { return None; }
        if self.rng.pct(8) { return Some(self.vacant_cl(2)); }
        let mut vs = vec![*self.rng.pick(&self.visible.clone())];
        if self.visible.len() > 1 && self.rng.pct(35) { let y = *self.rng.pick(&self.visible.clone()); if y != vs[0] { vs.push(y); } }
        if self.env.len() < self.max_vars && self.rng.pct(20) {
            let i = self.rng.below(self.facts.len());
            let v = if self.rng.pct(60) { (self.facts[i].0).2.clone() } else { V::Ref((self.facts[i].0).0) };
            vs.push(self.fresh(v));
        }
        self.or_over(&vs)
    }
    fn or_over(&mut self, vs: &[Var]) -> Option<Cl> {
        let vs = vs.to_vec();
        let join = self.rng.pct(40);
        let n = if self.rng.pct(15) { 0 } else { 1 + self.rng.below(3) };
        let arms: Vec<Vec<Cl>> = if n > 0 && self.rng.pct(35) {
            // arms of the same shape
            let a = self.arm(&vs, join);
            let mut v = vec![a.clone()];
            for _ in 0..n {
                let mut b = a.clone();
                for c in b.iter_mut() { if let Cl::Pat(_, p, val, _) = c { if let P::C(_) = p {
                    let x = self.any_attr();
                    *p = P::C(self.attr_const(x));
                    if let P::C(_) = val { let cs: Vec<V> = self.facts.iter().filter(|f| (f.0).1 == x).map(|f| (f.0).2.clone()).collect(); let w = cs[self.rng.below(cs.len())].clone(); *val = P::C(self.value_const(&w)); }
                } } }
                v.push(b);
            }
            v
        } else { (0..=n).map(|_| self.arm(&vs, join)).collect() };
        Some(Cl::Or(if join { Some(vs) } else { None }, arms))
    }

    pub fn not(&mut self) -> Option<Cl> {
        if self.visible.is_empty() { return None; }
        let mut vs = vec![*self.rng.pick(&self.visible.clone())];
        if self.visible.len() > 1 && self.rng.pct(40) { let y = *self.rng.pick(&self.visible.clone()); if y != vs[0] { vs.push(y); } }
        let join = self.rng.pct(45);
        let arm = self.arm(&vs, join);
        // Only what is actually mentioned may be listed.
        let mut ms = BTreeSet::new();
        for c in &arm { vars_of(c, &mut ms); }
        if !vs.iter().all(|v| ms.contains(v)) { return None; }
        Some(Cl::Not(if join { Some(vs) } else { None }, arm))
    }

    pub fn ground(&mut self) -> Option<Cl> {
        // Values whose written form has one type only, or entities of variables in entity positions.
        let c: Vec<Var> = self.visible.iter().filter(|x| match self.env[**x] { Some(V::Ref(_)) => false, None => false, _ => true }).cloned().collect();
        if c.is_empty() { return None; }
        let x = *self.rng.pick(&c);
        let w = self.env[x].clone().unwrap();
        let same: Vec<V> = self.facts.iter().map(|f| (f.0).2.clone()).filter(|v| v.vt() == w.vt()).collect();
        let mut pick = |g: &mut Gen, first: bool| { let v = if first || same.is_empty() { w.clone() } else { same[g.rng.below(same.len())].clone() }; g.value_const(&v) };
        Some(match self.rng.below(4) {
            0 => Cl::Ground(Bind::Scalar(x), vec![vec![pick(self, true)]]),
            1 => { let n = 1 + self.rng.below(3); Cl::Ground(Bind::Coll(x), (0..n).map(|i| vec![pick(self, i == 0)]).collect()) }
            2 => Cl::Ground(Bind::Tuple(vec![None, Some(x)]), vec![vec![C::Int(7), pick(self, true)]]),
            _ => { let n = 1 + self.rng.below(3); Cl::Ground(Bind::Rel(vec![Some(x), None]), (0..n).map(|i| vec![pick(self, i == 0), C::Int(i as i64)]).collect()) }
        })
    }
}

/// Variables that occur only inside one `or-join` or `not-join` are its own: give some of them the
/// name of a variable outside that the form does not list.
pub fn shadow(rng: &mut Rng, names: &mut Vec<String>, wh: &[Cl]) -> u64 {
    fn all(cs: &[Cl], out: &mut BTreeSet<Var>) {
        for c in cs {
            vars_of(c, out);
            match c { Cl::Or(vs, arms) => { if let Some(vs) = vs { out.extend(vs); } for a in arms { all(a, out); } } Cl::Not(_, a) => all(a, out), _ => () }
        }
    }
    let mut done = 0;
    let mut top = BTreeSet::new();
    for c in wh { vars_of(c, &mut top); }
    for c in wh {
        let (vs, bodies): (&Vec<Var>, Vec<&Vec<Cl>>) = match c { Cl::Or(Some(vs), arms) => (vs, arms.iter().collect()), Cl::Not(Some(vs), a) => (vs, vec![a]), _ => continue };
        for b in bodies {
            let mut inner = BTreeSet::new();
            all(b, &mut inner);
            let outside: Vec<Var> = top.iter().filter(|v| !vs.contains(v) && !inner.contains(v)).cloned().collect();
            if outside.is_empty() || !rng.pct(50) { continue; }
            if let Some(l) = inner.iter().find(|v| !top.contains(v)) {
                let o = *rng.pick(&outside);
                names[*l] = names[o].clone();
                done += 1;
            }
        }
    }
    done
}

/// Coarse description of a query's shape, for evidence.
pub fn shape(cls: &[Cl], out: &mut BTreeMap<&'static str, u64>) {
    for c in cls {
        let k = match c {
            Cl::Pat(..) => "pattern", Cl::Pred(..) => "predicate", Cl::Type(..) => "type", Cl::Ground(..) => "ground",
            Cl::Or(_, a) if a.len() == 1 => { for x in a { shape(x, out); } "or-one" }
            Cl::Or(None, a) => { for x in a { shape(x, out); } "or" }
            Cl::Or(_, a) => { for x in a { shape(x, out); } "or-join" }
            Cl::Not(None, a) => { shape(a, out); "not" }
            Cl::Not(_, a) => { shape(a, out); "not-join" }
            Cl::Fulltext(..) => "fulltext", Cl::TxIds(..) => "tx-ids", Cl::TxData(..) => "tx-data",
        };
        *out.entry(k).or_insert(0) += 1;
    }
}
