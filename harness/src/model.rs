//! Executable reference model of a store: facts, log, schema, and the meaning of a transaction.
//! Written from the documented semantics; shares no code with mentat.
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

pub const DB_IDENT: i64 = 1;
pub const TX0: i64 = 0x1000_0000;
pub const USER0: i64 = 0x10000;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Uniq { No, Value, Identity }

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Attr {
    pub vt: VT,
    pub many: bool,
    pub unique: Uniq,
    pub index: bool,
    pub fulltext: bool,
    pub component: bool,
    pub no_history: bool,
}

/// Ids of the schema vocabulary, read from the bootstrap facts by ident.
#[derive(Clone, Debug, Default)]
pub struct Boot {
    pub id: BTreeMap<String, i64>,
}
impl Boot {
    pub fn get(&self, k: &str) -> i64 { *self.id.get(k).unwrap_or_else(|| panic!("bootstrap ident {} missing", k)) }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Schema {
    pub attrs: BTreeMap<i64, Attr>,
    pub idents: BTreeMap<String, i64>,
}
impl Schema {
    pub fn ident_of(&self, id: i64) -> Option<&String> {
        self.idents.iter().find(|(_, v)| **v == id).map(|(k, _)| k)
    }
    pub fn attr(&self, ident: &str) -> Option<(i64, &Attr)> {
        let id = *self.idents.get(ident)?;
        self.attrs.get(&id).map(|a| (id, a))
    }
}

pub type Fact = (i64, i64, V);
pub type Facts = BTreeMap<Fact, i64>;
pub type LogEntry = BTreeSet<(i64, i64, V, bool)>;

// ---------------------------------------------------------------- transaction syntax

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum AP { Ident(String), Id(i64) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum EP { Id(i64), Ident(String), Temp(String), Tx, Lookup(AP, V) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum VP { Lit(V), Tx, Lookup(AP, V), Vec(Vec<VP>), Map(MapN) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct MapN { pub id: Option<EP>, pub kvs: Vec<(AP, VP)> }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Item { Add(EP, AP, VP), Ret(EP, AP, VP), Map(MapN) }

pub type TxAst = Vec<Item>;

pub fn ap_text(a: &AP) -> String { match a { AP::Ident(s) => s.clone(), AP::Id(i) => i.to_string() } }
pub fn ep_text(e: &EP) -> String {
    match e {
        EP::Id(i) => i.to_string(),
        EP::Ident(s) => s.clone(),
        EP::Temp(t) => str_text(t),
        EP::Tx => "(transaction-tx)".into(),
        EP::Lookup(a, v) => format!("(lookup-ref {} {})", ap_text(a), v.text()),
    }
}
pub fn vp_text(v: &VP) -> String {
    match v {
        VP::Lit(v) => v.text(),
        VP::Tx => "(transaction-tx)".into(),
        VP::Lookup(a, v) => format!("(lookup-ref {} {})", ap_text(a), v.text()),
        VP::Vec(vs) => format!("[{}]", vs.iter().map(vp_text).collect::<Vec<_>>().join(" ")),
        VP::Map(m) => map_text(m),
    }
}
pub fn map_text(m: &MapN) -> String {
    let mut p = vec![];
    if let Some(ref e) = m.id { p.push(format!(":db/id {}", ep_text(e))); }
    for (a, v) in &m.kvs { p.push(format!("{} {}", ap_text(a), vp_text(v))); }
    format!("{{{}}}", p.join(" "))
}
pub fn item_text(i: &Item) -> String {
    match i {
        Item::Add(e, a, v) => format!("[:db/add {} {} {}]", ep_text(e), ap_text(a), vp_text(v)),
        Item::Ret(e, a, v) => format!("[:db/retract {} {} {}]", ep_text(e), ap_text(a), vp_text(v)),
        Item::Map(m) => map_text(m),
    }
}
pub fn tx_text(t: &[Item]) -> String {
    format!("[{}]", t.iter().map(item_text).collect::<Vec<_>>().join("\n "))
}

fn unreversed(a: &str) -> Option<String> {
    let t = &a[1..];
    let i = t.find('/')?;
    let (ns, n) = (&t[..i], &t[i + 1..]);
    if n.starts_with('_') { Some(format!(":{}/{}", ns, &n[1..])) } else { None }
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tmp { Ext(String), Int(usize) }

/// An entity that is known, or the i-th fresh one.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ent { Known(i64), Fresh(usize) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T1 { Known(i64), Temp(Tmp), Lookup(i64, V) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T2 { Val(V), Temp(Tmp), Lookup(i64, V) }

struct Term { add: bool, e: T1, a: i64, v: T2 }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum PV { V(V), Ref(Ent) }

/// What an accepted transaction means, before fresh entities are numbered.
#[derive(Clone, Debug)]
pub struct Plan {
    pub adds: BTreeSet<(Ent, i64, PV)>,
    pub rets: BTreeSet<(Ent, i64, PV)>,
    pub temps: BTreeMap<String, Ent>,
    pub nfresh: usize,
    /// fresh classes that no external tempid names
    pub anon: BTreeSet<usize>,
    pub tx_instant: Option<i64>,
    /// all attributes mentioned by final terms (used by the observer oracle)
    pub attrs: BTreeSet<i64>,
    pub upserted: usize,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Accept(Plan),
    Reject(String),
    /// The language leaves the outcome open; any outcome that respects the invariants is fine.
    Open(String),
}

#[derive(Clone, Debug)]
pub struct Model {
    pub boot: Boot,
    pub facts: Facts,
    pub log: Vec<(i64, LogEntry)>,
    pub schema: Schema,
    pub next_user: i64,
    pub next_tx: i64,
}

struct Ex<'a> {
    m: &'a Model,
    tx: i64,
    nint: usize,
    terms: Vec<Term>,
    open: Option<String>,
}

type ER<T> = Result<T, String>;

impl<'a> Ex<'a> {
    fn attr_id(&self, a: &AP) -> ER<i64> {
        match a {
            AP::Id(i) => Ok(*i),
            AP::Ident(s) => self.m.schema.idents.get(s).cloned().ok_or_else(|| format!("unknown ident {}", s)),
        }
    }
    fn attr(&self, id: i64) -> ER<&'a Attr> {
        self.m.schema.attrs.get(&id).ok_or_else(|| format!("no attribute {}", id))
    }
    /// Value literal typed for an attribute type (string for ref = tempid handled by callers).
    fn typed(&self, v: &V, vt: VT) -> ER<V> {
        match (vt, v) {
            (VT::Ref, V::Long(x)) | (VT::Ref, V::Ref(x)) => Ok(V::Ref(*x)),
            (VT::Ref, V::Kw(k)) => self.m.schema.idents.get(k).map(|i| V::Ref(*i)).ok_or_else(|| format!("unknown ident {}", k)),
            (VT::Long, V::Ref(x)) => Ok(V::Long(*x)), // printed as the same integer
            (vt, v) if v.vt() == vt => Ok(v.clone()),
            (vt, v) => Err(format!("{} is not a {:?}", v, vt)),
        }
    }
    fn lookup(&self, a: &AP, v: &V) -> ER<(i64, V)> {
        let id = self.attr_id(a)?;
        let at = self.attr(id)?;
        let v = self.typed(v, at.vt)?;
        if at.unique == Uniq::No { return Err("lookup-ref on non-unique attribute".into()); }
        Ok((id, v))
    }
    fn ent(&mut self, e: &EP) -> ER<T1> {
        Ok(match e {
            EP::Id(i) => {
                if !self.m.allocated(*i, self.tx) { return Err(format!("entid {} not allocated", i)); }
                T1::Known(*i)
            }
            EP::Ident(s) => T1::Known(*self.m.schema.idents.get(s).ok_or_else(|| format!("unknown ident {}", s))?),
            EP::Temp(t) => T1::Temp(Tmp::Ext(t.clone())),
            EP::Tx => T1::Known(self.tx),
            EP::Lookup(a, v) => { let (a, v) = self.lookup(a, v)?; T1::Lookup(a, v) }
        })
    }
    fn ent_as_v(&mut self, e: &EP) -> ER<T2> {
        Ok(match self.ent(e)? {
            T1::Known(i) => T2::Val(V::Ref(i)),
            T1::Temp(t) => T2::Temp(t),
            T1::Lookup(a, v) => T2::Lookup(a, v),
        })
    }
    /// A value used as the entity of a reversed attribute.
    fn val_as_ent(&mut self, v: &VP) -> ER<T1> {
        Ok(match v {
            VP::Lit(V::Str(s)) => T1::Temp(Tmp::Ext(s.clone())),
            VP::Lit(v) => match self.typed(v, VT::Ref)? {
                V::Ref(i) => { if !self.m.allocated(i, self.tx) { return Err(format!("entid {} not allocated", i)); } T1::Known(i) }
                _ => unreachable!(),
            },
            VP::Tx => T1::Known(self.tx),
            VP::Lookup(a, v) => { let (a, v) = self.lookup(a, v)?; T1::Lookup(a, v) }
            VP::Vec(_) => return Err("vector under reversed attribute".into()),
            VP::Map(_) => return Err("map under reversed attribute".into()),
        })
    }
    fn fresh_int(&mut self) -> Tmp { self.nint += 1; Tmp::Int(self.nint) }

    fn reversed(&mut self, add: bool, e: T1AsV, fwd: &str, v: &VP) -> ER<()> {
        let a = self.attr_id(&AP::Ident(fwd.into()))?;
        let at = self.attr(a)?;
        if at.vt != VT::Ref { return Err("reversed attribute is not a ref".into()); }
        let re = self.val_as_ent(v)?;
        let rv = match e { T1AsV::Place(ref p) => self.ent_as_v(p)?, T1AsV::Tmp(t) => T2::Temp(t) };
        self.terms.push(Term { add, e: re, a, v: rv });
        Ok(())
    }

    fn entity(&mut self, e: &T1AsV) -> ER<T1> {
        match e { T1AsV::Place(p) => self.ent(p), T1AsV::Tmp(t) => Ok(T1::Temp(t.clone())) }
    }

    fn assert(&mut self, add: bool, e: T1AsV, a: &AP, v: &VP) -> ER<()> {
        if let AP::Ident(s) = a {
            if let Some(f) = unreversed(s) { return self.reversed(add, e, &f, v); }
        }
        let aid = self.attr_id(a)?;
        let at = self.attr(aid)?.clone();
        let tv = match v {
            VP::Lit(V::Str(s)) if at.vt == VT::Ref => T2::Temp(Tmp::Ext(s.clone())),
            VP::Lit(v) => T2::Val(self.typed(v, at.vt)?),
            VP::Tx => {
                if at.vt != VT::Ref { return Err("transaction-tx for non-ref".into()); }
                T2::Val(V::Ref(self.tx))
            }
            VP::Lookup(la, lv) => {
                if at.vt != VT::Ref { return Err("lookup-ref value for non-ref".into()); }
                let (a, v) = self.lookup(la, lv)?;
                T2::Lookup(a, v)
            }
            VP::Vec(vs) => {
                if !at.many { return Err("vector for cardinality-one".into()); }
                for x in vs { self.assert(add, e.clone(), &AP::Id(aid), x)?; }
                return Ok(());
            }
            VP::Map(m) => {
                if !add { return Err("nested map in retract".into()); }
                if at.vt != VT::Ref { return Err("nested map for non-ref".into()); }
                let mut dangling = m.id.is_none() && !at.component;
                let id = match m.id { Some(ref p) => T1AsV::Place(p.clone()), None => T1AsV::Tmp(self.fresh_int()) };
                for (ia, iv) in &m.kvs {
                    let rev = match ia { AP::Ident(s) => unreversed(s), _ => None };
                    if rev.is_some() { dangling = false; } else {
                        let x = self.attr_id(ia)?;
                        if self.attr(x)?.unique == Uniq::Identity { dangling = false; }
                    }
                    self.assert(true, id.clone(), ia, iv)?;
                }
                if dangling { return Err("dangling nested map".into()); }
                match id { T1AsV::Place(ref p) => self.ent_as_v(p)?, T1AsV::Tmp(t) => T2::Temp(t) }
            }
        };
        let te = self.entity(&e)?;
        self.terms.push(Term { add, e: te, a: aid, v: tv });
        Ok(())
    }
}

/// The list notation [op e :ns/_a v] is by definition [op v :ns/a e].
fn swapped(e: &EP, a: &AP, v: &VP) -> Option<ER<(EP, AP, VP)>> {
    let fwd = match a { AP::Ident(s) => unreversed(s)?, _ => return None };
    let ve = match v {
        VP::Lit(V::Ref(i)) | VP::Lit(V::Long(i)) => EP::Id(*i),
        VP::Lit(V::Str(s)) => EP::Temp(s.clone()),
        VP::Lit(V::Kw(k)) => EP::Ident(k.clone()),
        VP::Tx => EP::Tx,
        VP::Lookup(a, v) => EP::Lookup(a.clone(), v.clone()),
        _ => return Some(Err("reversed list notation needs an entity".into())),
    };
    let ev = match e {
        EP::Id(i) => VP::Lit(V::Ref(*i)),
        EP::Ident(k) => VP::Lit(V::Kw(k.clone())),
        EP::Temp(s) => VP::Lit(V::Str(s.clone())),
        EP::Tx => VP::Tx,
        EP::Lookup(a, v) => VP::Lookup(a.clone(), v.clone()),
    };
    Some(Ok((ve, AP::Ident(fwd), ev)))
}

#[derive(Clone)]
enum T1AsV { Place(EP), Tmp(Tmp) }

fn uf_find(p: &mut Vec<usize>, mut i: usize) -> usize { while p[i] != i { p[i] = p[p[i]]; i = p[i]; } i }

impl Model {
    pub fn new(facts: Facts, log: Vec<(i64, LogEntry)>, next_user: i64, next_tx: i64) -> Model {
        let mut boot = Boot::default();
        for ((e, a, v), _) in &facts {
            if *a == DB_IDENT { if let V::Kw(k) = v { boot.id.insert(k.clone(), *e); } }
        }
        let mut m = Model { boot, facts, log, schema: Schema::default(), next_user, next_tx };
        m.schema = m.derive_schema();
        m
    }

    pub fn allocated(&self, e: i64, tx: i64) -> bool {
        (e >= 0 && e < USER0 && self.db_part_contains(e)) || (e >= USER0 && e < self.next_user && e < TX0) || (e >= TX0 && e <= tx)
    }
    fn db_part_contains(&self, e: i64) -> bool {
        // The db partition holds the bootstrap entities 0..=41.
        e >= 0 && e <= self.boot.id.values().filter(|x| **x < USER0).max().cloned().unwrap_or(0)
    }

    pub fn derive_schema(&self) -> Schema { derive_schema(&self.boot, &self.facts) }

    pub fn by_av(&self, a: i64, v: &V) -> Option<i64> {
        // facts are keyed by e first; small stores, so a scan is fine
        self.facts.keys().find(|(_, fa, fv)| *fa == a && fv == v).map(|k| k.0)
    }

    pub fn values(&self, e: i64, a: i64) -> Vec<V> {
        self.facts.range((e, a, V::Ref(i64::min_value()))..).take_while(|(k, _)| k.0 == e && k.1 == a).map(|(k, _)| k.2.clone()).collect()
    }

    fn expand(&self, tx_ast: &[Item]) -> Result<Ex, String> {
        let tx = self.next_tx;
        let mut ex = Ex { m: self, tx, nint: 0, terms: vec![], open: None };
        for it in tx_ast {
            match it {
                Item::Add(e, a, v) | Item::Ret(e, a, v) => {
                    let add = match it { Item::Add(..) => true, _ => false };
                    match swapped(e, a, v) {
                        Some(Ok((e, a, v))) => ex.assert(add, T1AsV::Place(e), &a, &v)?,
                        Some(Err(x)) => return Err(x),
                        None => ex.assert(add, T1AsV::Place(e.clone()), a, v)?,
                    }
                }
                Item::Map(m) => {
                    let id = match m.id { Some(ref p) => T1AsV::Place(p.clone()), None => T1AsV::Tmp(ex.fresh_int()) };
                    for (a, v) in &m.kvs { ex.assert(true, id.clone(), a, v)?; }
                }
            }
        }
        Ok(ex)
    }

    /// Meaning of a transaction against this state.
    pub fn eval(&self, tx_ast: &[Item]) -> Outcome {
        match self.expand(tx_ast) {
            Err(e) => Outcome::Reject(e),
            Ok(Ex { open: Some(o), .. }) => Outcome::Open(o),
            Ok(Ex { terms, tx, .. }) => self.resolve(terms, tx),
        }
    }

    /// The plain assertions and retractions that a transaction stands for, if its names and lookups mean something.
    pub fn plain(&self, tx_ast: &[Item]) -> Option<Vec<(bool, Result<i64, Tmp>, i64, Result<V, Tmp>)>> {
        let ex = self.expand(tx_ast).ok()?;
        ex.terms.into_iter().map(|t| {
            let e = match t.e { T1::Known(i) => Ok(i), T1::Temp(t) => Err(t), T1::Lookup(a, v) => Ok(self.by_av(a, &v)?) };
            let v = match t.v { T2::Val(v) => Ok(v), T2::Temp(t) => Err(t), T2::Lookup(a, v) => Ok(V::Ref(self.by_av(a, &v)?)) };
            Some((t.add, e, t.a, v))
        }).collect()
    }

    fn resolve(&self, terms: Vec<Term>, tx: i64) -> Outcome {
        // lookup refs, against the state before the transaction
        let mut ts: Vec<(bool, T1, i64, T2)> = vec![];
        for t in terms {
            let e = match t.e {
                T1::Lookup(a, v) => match self.by_av(a, &v) { Some(n) => T1::Known(n), None => return Outcome::Reject(format!("lookup-ref [{} {}] not found", a, v)) },
                x => x,
            };
            let v = match t.v {
                T2::Lookup(a, v) => match self.by_av(a, &v) { Some(n) => T2::Val(V::Ref(n)), None => return Outcome::Reject(format!("lookup-ref [{} {}] not found", a, v)) },
                x => x,
            };
            match self.schema.attrs.get(&t.a) { Some(_) => (), None => return Outcome::Reject("no such attribute".into()) }
            ts.push((t.add, e, t.a, v));
        }
        // upserts to a fixpoint
        let ident_attr = |a: i64| self.schema.attrs[&a].unique == Uniq::Identity;
        let mut r: BTreeMap<Tmp, (i64, usize)> = BTreeMap::new();
        let mut upserted: Vec<bool> = vec![false; ts.len()];
        let mut late: BTreeSet<usize> = BTreeSet::new();
        let mut round = 0;
        loop {
            round += 1;
            let mut new: BTreeMap<Tmp, i64> = BTreeMap::new();
            let mut progressed = false;
            for (i, (add, e, a, v)) in ts.iter().enumerate() {
                if !*add || upserted[i] || !ident_attr(*a) { continue; }
                let t = match e { T1::Temp(t) => t, _ => continue };
                let val = match v {
                    T2::Val(x) => x.clone(),
                    T2::Temp(t2) => match r.get(t2) { Some((n, _)) => V::Ref(*n), None => continue },
                    _ => unreachable!(),
                };
                if let Some(n) = self.by_av(*a, &val) {
                    upserted[i] = true;
                    progressed = true;
                    // Resolved after the entity itself was already resolved in an earlier round
                    // without the value being known then.
                    if let (T2::Temp(t2), Some((_, re))) = (v, r.get(t)) {
                        if r[t2].1 > *re { late.insert(i); }
                    }
                    if let Some((old, _)) = r.get(t) {
                        if *old != n {
                            if late.contains(&i) { return Outcome::Open("late conflicting upsert".into()); }
                            return Outcome::Reject("conflicting upserts".into());
                        }
                    }
                    if let Some(old) = new.get(t) { if *old != n { return Outcome::Reject("conflicting upserts".into()); } }
                    new.insert(t.clone(), n);
                }
            }
            for (t, n) in new { r.entry(t).or_insert((n, round)); }
            if !progressed { break; }
        }
        // allocation: which temps need fresh entities
        let mut need: BTreeSet<Tmp> = BTreeSet::new();
        for (i, (add, e, _, v)) in ts.iter().enumerate() {
            if !*add || upserted[i] { continue; }
            if let T1::Temp(t) = e { if !r.contains_key(t) { need.insert(t.clone()); } }
            if let T2::Temp(t) = v { if !r.contains_key(t) { need.insert(t.clone()); } }
        }
        let idx: BTreeMap<Tmp, usize> = need.iter().cloned().enumerate().map(|(i, t)| (t, i)).collect();
        let mut uf: Vec<usize> = (0..need.len()).collect();
        // one pass of merging by shared identity
        let pass = |uf: &mut Vec<usize>, transitive: bool| -> bool {
            let mut by: BTreeMap<(i64, Result<V, usize>), usize> = BTreeMap::new();
            let mut merged = false;
            for (i, (add, e, a, v)) in ts.iter().enumerate() {
                if !*add || upserted[i] || !ident_attr(*a) { continue; }
                let t = match e { T1::Temp(t) => match idx.get(t) { Some(x) => *x, None => continue }, _ => continue };
                let key = match v {
                    T2::Val(x) => Ok(x.clone()),
                    T2::Temp(t2) => match r.get(t2) {
                        Some((n, _)) => Ok(V::Ref(*n)),
                        None => Err(if transitive { uf_find(uf, idx[t2]) } else { idx[t2] }),
                    },
                    _ => unreachable!(),
                };
                match by.get(&(*a, key.clone())) {
                    None => { by.insert((*a, key), t); }
                    Some(o) => {
                        let (x, y) = (uf_find(uf, *o), uf_find(uf, t));
                        if x != y { uf[x.max(y)] = x.min(y); merged = true; }
                    }
                }
            }
            merged
        };
        pass(&mut uf, false);
        if pass(&mut uf.clone(), true) { return Outcome::Open("transitive merge of new tempids".into()); }
        let mut classes: BTreeMap<usize, usize> = BTreeMap::new();
        let mut of: BTreeMap<Tmp, Ent> = BTreeMap::new();
        for (t, (n, _)) in &r { of.insert(t.clone(), Ent::Known(*n)); }
        for t in &need {
            let rep = uf_find(&mut uf, idx[t]);
            let k = classes.len();
            let c = *classes.entry(rep).or_insert(k);
            of.insert(t.clone(), Ent::Fresh(c));
        }
        let mut plan = Plan { adds: BTreeSet::new(), rets: BTreeSet::new(), temps: BTreeMap::new(), nfresh: classes.len(), anon: (0..classes.len()).collect(), tx_instant: None, attrs: BTreeSet::new(), upserted: upserted.iter().filter(|x| **x).count() };
        let mut dropped: BTreeSet<(Ent, i64, PV)> = BTreeSet::new();
        for (i, (add, e, a, v)) in ts.iter().enumerate() {
            let pe = match e {
                T1::Known(n) => Ent::Known(*n),
                T1::Temp(t) => match of.get(t) { Some(x) => *x, None => return Outcome::Reject("retract through unresolved tempid".into()) },
                _ => unreachable!(),
            };
            let pv = match v {
                T2::Val(V::Ref(n)) => PV::Ref(Ent::Known(*n)),
                T2::Val(x) => PV::V(x.clone()),
                T2::Temp(t) => match of.get(t) { Some(x) => PV::Ref(*x), None => return Outcome::Reject("retract through unresolved tempid".into()) },
                _ => unreachable!(),
            };
            let at = &self.schema.attrs[a];
            let pvt = match pv { PV::Ref(_) => VT::Ref, PV::V(ref v) => v.vt() };
            if pvt != at.vt { return Outcome::Reject("type disagreement".into()); }
            if *add && upserted[i] {
                // An assertion that resolved its entity is already in the store: nothing to do.
                if late.contains(&i) { plan.adds.insert((pe, *a, pv)); } else { dropped.insert((pe, *a, pv)); }
                continue;
            }
            plan.attrs.insert(*a);
            if *add { plan.adds.insert((pe, *a, pv)); } else { plan.rets.insert((pe, *a, pv)); }
        }
        if late.iter().any(|i| upserted[*i]) && plan.adds.iter().any(|x| plan.rets.contains(x)) { return Outcome::Open("late upsert also retracted".into()); }
        for (t, e) in &of {
            if let Ent::Fresh(c) = e { if let Tmp::Ext(_) = t { plan.anon.remove(c); } }
            if let Tmp::Ext(s) = t { plan.temps.insert(s.clone(), *e); }
        }
        // cardinality and add/retract conflicts
        let mut one: BTreeMap<(Ent, i64), &PV> = BTreeMap::new();
        for (e, a, v) in &plan.adds {
            if plan.rets.contains(&(*e, *a, v.clone())) { return Outcome::Reject("assert and retract of one fact".into()); }
            if !self.schema.attrs[a].many {
                if let Some(o) = one.insert((*e, *a), v) { if o != v { return Outcome::Reject("two values for cardinality one".into()); } }
            }
        }
        let inst = self.boot.get(":db/txInstant");
        for (e, a, v) in &plan.adds {
            if *e == Ent::Known(tx) && *a == inst { if let PV::V(V::Inst(us)) = v { plan.tx_instant = Some(*us); } }
        }
        // A datom the upsert relied on may be contradicted by a second value for the same
        // cardinality-one attribute: that simply replaces it.
        let _ = dropped;
        // schema effects and uniqueness are judged on the result; ids of fresh entities do not matter
        let ids: Vec<i64> = (0..plan.nfresh).map(|i| self.next_user + i as i64).collect();
        let mut m = self.clone();
        match m.apply(&plan, &ids, plan.tx_instant.unwrap_or(0)) {
            Ok(()) => Outcome::Accept(plan),
            Err(e) => Outcome::Reject(e),
        }
    }

    pub fn concrete(plan: &Plan, ids: &[i64]) -> (BTreeSet<Fact>, BTreeSet<Fact>) {
        let n = |e: &Ent| match e { Ent::Known(x) => *x, Ent::Fresh(i) => ids[*i] };
        let f = |s: &BTreeSet<(Ent, i64, PV)>| s.iter().map(|(e, a, v)| (n(e), *a, match v { PV::V(v) => v.clone(), PV::Ref(r) => V::Ref(n(r)) })).collect();
        (f(&plan.adds), f(&plan.rets))
    }

    /// Apply an accepted plan. `ids` numbers the fresh entities; `instant` is the reported instant.
    pub fn apply(&mut self, plan: &Plan, ids: &[i64], instant: i64) -> Result<(), String> {
        let tx = self.next_tx;
        let (mut adds, rets) = Model::concrete(plan, ids);
        let inst = self.boot.get(":db/txInstant");
        if plan.tx_instant.is_none() { adds.insert((tx, inst, V::Inst(instant))); }
        let mut log: LogEntry = BTreeSet::new();
        for f in &rets {
            if self.facts.contains_key(f) { log.insert((f.0, f.1, f.2.clone(), false)); }
        }
        for f in &adds {
            if self.facts.contains_key(f) { continue; }
            if !self.schema.attrs[&f.1].many {
                for v in self.values(f.0, f.1) { log.insert((f.0, f.1, v, false)); }
            }
            log.insert((f.0, f.1, f.2.clone(), true));
        }
        for (e, a, v, added) in &log { if !*added { self.facts.remove(&(*e, *a, v.clone())); } }
        for (e, a, v, added) in &log { if *added { self.facts.insert((*e, *a, v.clone()), tx); } }
        check_unique(&self.schema, &self.facts)?;
        let new = schema_after(&self.boot, &self.schema, &self.facts, &log)?;
        if new != self.schema {
            // facts of a removed attribute (never a full-text one, in what is generated) don't become full-text
            if let Some((a, _)) = new.attrs.iter().find(|(a, x)| x.fulltext && !self.schema.attrs.contains_key(a) && self.facts.keys().any(|f| f.1 == **a)) { return Err(format!("full-text attribute {} installed over plain facts", a)); }
            self.schema = new;
            check_types(&self.schema, &self.facts)?; // an attribute installed over the facts of a removed one
            check_unique(&self.schema, &self.facts)?;
            check_card(&self.schema, &self.facts)?;
        }
        self.log.push((tx, log));
        self.next_tx += 1;
        self.next_user += plan.nfresh as i64;
        Ok(())
    }

    pub fn replay_log(log: &[(i64, LogEntry)]) -> Result<Facts, String> {
        let mut f = Facts::new();
        for (tx, entries) in log {
            for (e, a, v, added) in entries {
                if !*added && f.remove(&(*e, *a, v.clone())).is_none() { return Err(format!("tx {} retracts absent [{} {} {}]", tx, e, a, v)); }
            }
            for (e, a, v, added) in entries {
                if *added && f.insert((*e, *a, v.clone()), *tx).is_some() { return Err(format!("tx {} asserts present [{} {} {}]", tx, e, a, v)); }
            }
        }
        Ok(f)
    }
}

pub fn check_unique(s: &Schema, facts: &Facts) -> Result<(), String> {
    let mut seen: BTreeMap<(i64, &V), i64> = BTreeMap::new();
    for (e, a, v) in facts.keys() {
        if s.attrs.get(a).map_or(false, |x| x.unique != Uniq::No) {
            if let Some(o) = seen.insert((*a, v), *e) { return Err(format!("unique conflict: {} and {} both have [{} {}]", o, e, a, v)); }
        }
    }
    Ok(())
}
pub fn check_card(s: &Schema, facts: &Facts) -> Result<(), String> {
    let mut last: Option<(i64, i64)> = None;
    for (e, a, _) in facts.keys() {
        if last == Some((*e, *a)) && s.attrs.get(a).map_or(false, |x| !x.many) { return Err(format!("two values for cardinality-one [{} {}]", e, a)); }
        last = Some((*e, *a));
    }
    Ok(())
}
pub fn check_types(s: &Schema, facts: &Facts) -> Result<(), String> {
    for (e, a, v) in facts.keys() {
        match s.attrs.get(a) {
            None => (), // the attribute was removed, its facts were not
            Some(x) if x.vt != v.vt() => return Err(format!("fact [{} {} {}] is not a {:?}", e, a, v, x.vt)),
            _ => (),
        }
    }
    Ok(())
}

fn vt_of_entid(b: &Boot, id: i64) -> Option<VT> { ALL_VT.iter().cloned().find(|t| b.get(t.kw()) == id) }

/// The attribute described by the stored facts about entity e, if any.
pub fn attr_from_facts(b: &Boot, facts: &Facts, e: i64) -> Result<Option<Attr>, String> {
    let get = |k: &str| -> Option<V> {
        let a = b.get(k);
        facts.range((e, a, V::Ref(i64::min_value()))..).next().filter(|(f, _)| f.0 == e && f.1 == a).map(|(f, _)| f.2.clone())
    };
    let vt = match get(":db/valueType") { None => return Ok(None), Some(V::Ref(r)) => vt_of_entid(b, r).ok_or("bad valueType")?, _ => return Err("bad valueType".into()) };
    let many = match get(":db/cardinality") {
        None => false,
        Some(V::Ref(r)) if r == b.get(":db.cardinality/many") => true,
        Some(V::Ref(r)) if r == b.get(":db.cardinality/one") => false,
        _ => return Err("bad cardinality".into()),
    };
    let unique = match get(":db/unique") {
        None => Uniq::No,
        Some(V::Ref(r)) if r == b.get(":db.unique/value") => Uniq::Value,
        Some(V::Ref(r)) if r == b.get(":db.unique/identity") => Uniq::Identity,
        _ => return Err("bad unique".into()),
    };
    let flag = |k: &str| get(k) == Some(V::Bool(true));
    Ok(Some(Attr { vt, many, unique, index: flag(":db/index"), fulltext: flag(":db/fulltext"), component: flag(":db/isComponent"), no_history: flag(":db/noHistory") }))
}

pub fn derive_schema(b: &Boot, facts: &Facts) -> Schema {
    let mut s = Schema::default();
    let vt = b.get(":db/valueType");
    for (e, a, v) in facts.keys() {
        if *a == DB_IDENT { if let V::Kw(k) = v { s.idents.insert(k.clone(), *e); } }
        if *a == vt { if let Ok(Some(x)) = attr_from_facts(b, facts, *e) { s.attrs.insert(*e, x); } }
    }
    s
}

pub fn validate_attr(a: &Attr) -> Result<(), String> {
    if a.unique != Uniq::No && !a.index { return Err("unique without index".into()); }
    if a.fulltext && a.vt != VT::Str { return Err("fulltext on non-string".into()); }
    if a.fulltext && !a.index { return Err("fulltext without index".into()); }
    if a.component && a.vt != VT::Ref { return Err("component on non-ref".into()); }
    Ok(())
}

/// The schema after a transaction whose net changes are `log`, or why it must be refused.
pub fn schema_after(b: &Boot, old: &Schema, facts: &Facts, log: &LogEntry) -> Result<Schema, String> {
    let keys = [":db/valueType", ":db/cardinality", ":db/unique", ":db/index", ":db/fulltext", ":db/isComponent", ":db/noHistory"];
    let ids: Vec<i64> = keys.iter().map(|k| b.get(k)).collect();
    let touched: BTreeSet<i64> = log.iter().filter(|(_, a, _, _)| ids.contains(a)).map(|x| x.0).collect();
    let ident_touched = log.iter().any(|x| x.1 == DB_IDENT);
    if touched.is_empty() && !ident_touched { return Ok(old.clone()); }
    for e in &touched {
        let net = |i: usize| -> (bool, bool) { // (retracted, asserted)
            let f = |added: bool| log.iter().any(|x| x.0 == *e && x.1 == ids[i] && x.3 == added);
            (f(false), f(true))
        };
        let only_ret = |i: usize| net(i) == (true, false);
        let new = attr_from_facts(b, facts, *e)?;
        if new.is_none() && (0..ids.len()).any(|i| net(i).1) { return Err("schema fact asserted on an entity that is not an attribute".into()); }
        match (old.attrs.get(e), new) {
            (None, None) => return Err("schema facts on an entity that is not an attribute".into()),
            (None, Some(n)) => validate_attr(&n)?,
            (Some(_), None) => {
                // removal of an attribute: all defining facts, together with its ident
                if !(only_ret(0) && only_ret(1)) { return Err("partial removal of an attribute".into()); }
                let ident_gone = log.iter().any(|x| x.0 == *e && x.1 == DB_IDENT && !x.3) && !log.iter().any(|x| x.0 == *e && x.1 == DB_IDENT && x.3);
                if !ident_gone { return Err("attribute removed but not its ident".into()); }
            }
            (Some(o), Some(n)) => {
                if net(0) != (false, false) { return Err("valueType changed".into()); }
                if net(4) != (false, false) { return Err("fulltext changed".into()); }
                if only_ret(1) || only_ret(3) || only_ret(6) { return Err("retraction of a non-optional schema fact".into()); }
                let _ = o;
                validate_attr(&n)?;
            }
        }
    }
    Ok(derive_schema(b, facts))
}
