//! Workload generators: schemas, values, transactions.
use crate::model::*;
use crate::rng::Rng;
use crate::val::*;

#[derive(Clone, Debug)]
pub struct AttrDef { pub ident: String, pub attr: Attr }

pub struct Pal { pub defs: Vec<AttrDef> }

fn ad(ident: &str, vt: VT, many: bool, unique: Uniq, index: bool) -> AttrDef {
    AttrDef { ident: ident.to_string(), attr: Attr { vt, many, unique, index: index || unique != Uniq::No, fulltext: false, component: false, no_history: false } }
}

pub fn vt_name(v: VT) -> &'static str {
    match v { VT::Ref => "ref", VT::Bool => "bool", VT::Inst => "inst", VT::Long => "long", VT::Dbl => "dbl", VT::Str => "str", VT::Kw => "kw", VT::Uuid => "uuid" }
}

pub fn palette(rng: &mut Rng) -> Pal {
    let mut d = vec![
        ad(":id/str", VT::Str, false, Uniq::Identity, true),
    ];
    let idvt = *rng.pick(&[VT::Long, VT::Kw, VT::Uuid, VT::Inst, VT::Dbl, VT::Long]);
    d.push(ad(":id/two", idvt, false, Uniq::Identity, true));
    if rng.pct(70) { d.push(ad(":id/ref", VT::Ref, false, Uniq::Identity, true)); }
    if rng.pct(40) { d.push(ad(":id/many", *rng.pick(&[VT::Str, VT::Long]), true, Uniq::Identity, true)); }
    if rng.pct(25) { d.push(ad(":id/refs", VT::Ref, true, Uniq::Identity, true)); }
    d.push(ad(":uv/one", *rng.pick(&[VT::Str, VT::Long, VT::Kw, VT::Ref, VT::Bool]), false, Uniq::Value, true));
    if rng.pct(50) { d.push(ad(":uv/many", *rng.pick(&[VT::Str, VT::Long, VT::Ref]), true, Uniq::Value, true)); }
    for vt in ALL_VT.iter() {
        let ix = rng.pct(50);
        d.push(ad(&format!(":one/{}", vt_name(*vt)), *vt, false, Uniq::No, ix));
        let ix = rng.pct(50);
        d.push(ad(&format!(":many/{}", vt_name(*vt)), *vt, true, Uniq::No, ix));
    }
    for (n, many) in [(":ft/one", false), (":ft/many", true)].iter() {
        let mut a = ad(n, VT::Str, *many, Uniq::No, true);
        a.attr.fulltext = true;
        d.push(a);
    }
    for (n, u) in [(":id/ft", Uniq::Identity), (":uv/ft", Uniq::Value)].iter() {
        if !rng.pct(12) { continue; }
        let mut a = ad(n, VT::Str, rng.pct(30), *u, true);
        a.attr.fulltext = true;
        d.push(a);
    }
    for (n, many) in [(":comp/one", false), (":comp/many", true)].iter() {
        let mut a = ad(n, VT::Ref, *many, Uniq::No, false);
        a.attr.component = true;
        d.push(a);
    }
    if rng.pct(30) { let i = rng.below(d.len()); d[i].attr.no_history = true; }
    Pal { defs: d }
}

pub fn install_item(i: usize, d: &AttrDef) -> Item {
    let a = &d.attr;
    let mut kvs = vec![
        (":db/ident", V::Kw(d.ident.clone())),
        (":db/valueType", V::Kw(a.vt.kw().into())),
        (":db/cardinality", V::Kw(if a.many { ":db.cardinality/many" } else { ":db.cardinality/one" }.into())),
    ];
    match a.unique {
        Uniq::No => (),
        Uniq::Value => kvs.push((":db/unique", V::Kw(":db.unique/value".into()))),
        Uniq::Identity => kvs.push((":db/unique", V::Kw(":db.unique/identity".into()))),
    }
    if a.index { kvs.push((":db/index", V::Bool(true))); }
    if a.fulltext { kvs.push((":db/fulltext", V::Bool(true))); }
    if a.component { kvs.push((":db/isComponent", V::Bool(true))); }
    if a.no_history { kvs.push((":db/noHistory", V::Bool(true))); }
    Item::Map(MapN { id: Some(EP::Temp(format!("attr{:02}", i))), kvs: kvs.into_iter().map(|(k, v)| (AP::Ident(k.into()), VP::Lit(v))).collect() })
}

impl Pal {
    pub fn install(&self) -> TxAst { self.defs.iter().enumerate().map(|(i, d)| install_item(i, d)).collect() }
    pub fn find(&self, ident: &str) -> Option<&AttrDef> { self.defs.iter().find(|d| d.ident == ident) }
    pub fn by<F: Fn(&Attr) -> bool>(&self, f: F) -> Vec<&AttrDef> { self.defs.iter().filter(|d| f(&d.attr)).collect() }
}

pub const WORDS: [&str; 10] = ["alpha", "beta", "gamma", "delta", "omega", "mu", "nu", "kappa", "rho", "tau"];

pub fn sentence(rng: &mut Rng) -> String {
    let n = 1 + rng.below(3);
    let s = (0..n).map(|_| *rng.pick(&WORDS)).collect::<Vec<_>>().join(" ");
    // Not quite the same text, though its words are.
    match rng.below(24) { 0 => s + " ", 1 => format!(" {}", s), 2 => s.to_uppercase(), 3 => s + ".", 4 => s.replace(" ", "  ") + "\n", _ => s }
}

pub fn uuid_n(n: u8) -> V { V::Uuid([n, 0x11, 0x22, 0x33, 0x44, 0x55, 0x46, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, n]) }

/// Small pools, so values collide often; a few hostile ones.
pub fn pool(vt: VT) -> Vec<V> {
    match vt {
        VT::Ref => vec![],
        VT::Bool => vec![V::Bool(true), V::Bool(false)],
        VT::Inst => vec![V::Inst(0), V::Inst(1_500_000_000_000_000), V::Inst(1_500_000_000_000_001), V::Inst(1_600_000_000_123_456), V::Inst(-86_400_000_000), V::Inst(-500_000)],
        VT::Long => vec![V::Long(0), V::Long(1), V::Long(2), V::Long(3), V::Long(-1), V::Long(10), V::Long(i64::max_value()), V::Long(-i64::max_value())],
        VT::Dbl => vec![V::dbl(0.0), V::dbl(1.0), V::dbl(2.5), V::dbl(-1.5), V::dbl(3.0), V::dbl(0.1), V::dbl(1e300)],
        VT::Str => ["a", "b", "c", "A", "", "it's", "x \"y\" \\ z", "日本", "a; DROP TABLE datoms;--", "%"].iter().map(|s| V::Str(s.to_string())).collect(),
        VT::Kw => [":k/a", ":k/b", ":k/c", ":k.sub/a", ":K/a"].iter().map(|s| V::Kw(s.to_string())).collect(),
        VT::Uuid => vec![uuid_n(1), uuid_n(2), uuid_n(3)],
    }
}

pub fn scalar(rng: &mut Rng, a: &Attr) -> V {
    if a.fulltext { return V::Str(sentence(rng)); }
    let p = pool(a.vt);
    if a.unique == Uniq::No || rng.pct(60) {
        let k = if rng.pct(75) { p.len().min(4) } else { p.len() };
        p[rng.below(k)].clone()
    } else {
        match a.vt {
            VT::Long => V::Long(rng.range(0, 30)),
            VT::Str => V::Str(format!("s{}", rng.below(20))),
            VT::Kw => V::Kw(format!(":u/k{}", rng.below(20))),
            VT::Dbl => V::dbl(rng.range(0, 20) as f64 / 2.0),
            VT::Inst => V::Inst(rng.range(0, 20) * 1_000_001),
            VT::Uuid => uuid_n(rng.below(20) as u8),
            _ => p[rng.below(p.len())].clone(),
        }
    }
}

/// Entities the workload plays with: user entities that are not attributes.
pub fn user_entities(m: &Model) -> Vec<i64> {
    let mut es: Vec<i64> = m.facts.keys().map(|k| k.0).filter(|e| *e >= USER0 && *e < TX0 && !m.schema.attrs.contains_key(e)).collect();
    es.dedup();
    es
}

#[derive(Clone)]
pub struct TxOpts {
    pub max_items: usize,
    pub spice: u32,       // percent of transactions with a deliberately odd item
    pub maps: u32,
    pub lookups: u32,
    pub retracts: u32,
    pub bare_value_temps: bool,
    pub tx_facts: u32,
    pub idents: bool,
}
impl Default for TxOpts { fn default() -> TxOpts { TxOpts { max_items: 6, spice: 12, maps: 25, lookups: 12, retracts: 25, bare_value_temps: true, tx_facts: 5, idents: true } } }

pub struct G<'a> { pub rng: &'a mut Rng, pub m: &'a Model, pub pal: &'a Pal, pub o: &'a TxOpts, pub es: Vec<i64>, pub depth: usize }

impl<'a> G<'a> {
    pub fn new(rng: &'a mut Rng, m: &'a Model, pal: &'a Pal, o: &'a TxOpts) -> G<'a> {
        let mut es = user_entities(m);
        // concentrate on few entities
        if es.len() > 8 { let k = es.len(); let mut sel = vec![]; for _ in 0..8 { sel.push(es[rng.below(k)]); } es = sel; }
        G { rng, m, pal, o, es, depth: 0 }
    }
    fn temp(&mut self) -> String { format!("t{}", self.rng.below(5)) }
    fn ap(&mut self, d: &AttrDef) -> AP {
        if self.rng.pct(8) { if let Some(id) = self.m.schema.idents.get(&d.ident) { return AP::Id(*id); } }
        AP::Ident(d.ident.clone())
    }
    pub fn lookup(&mut self) -> Option<(AP, V)> {
        let uniq: Vec<i64> = self.m.schema.attrs.iter().filter(|(k, a)| a.unique != Uniq::No && **k >= USER0).map(|(k, _)| *k).collect();
        let c: Vec<(i64, V)> = self.m.facts.keys().filter(|(_, a, _)| uniq.contains(a)).map(|(_, a, v)| (*a, v.clone())).collect();
        if c.is_empty() { return None; }
        let (a, v) = self.rng.pick(&c).clone();
        let id = match self.m.schema.ident_of(a) { Some(s) if self.rng.pct(90) => AP::Ident(s.clone()), _ => AP::Id(a) };
        let v = if self.rng.pct(6) { scalar(self.rng, &Attr { vt: v.vt(), many: false, unique: Uniq::No, index: false, fulltext: false, component: false, no_history: false }.clone_for_pool()) } else { v };
        Some((id, v))
    }
    pub fn ep(&mut self) -> EP {
        let w = [if self.es.is_empty() { 0 } else { 45 }, 40, self.o.lookups, self.o.tx_facts, if self.o.idents { 3 } else { 0 }];
        match self.rng.weighted(&w) {
            0 => EP::Id(*self.rng.pick(&self.es)),
            1 => EP::Temp(self.temp()),
            2 => match self.lookup() { Some((a, v)) => EP::Lookup(a, v), None => EP::Temp(self.temp()) },
            3 => EP::Tx,
            _ => { let ids: Vec<&String> = self.m.schema.idents.keys().filter(|k| k.starts_with(":ent/") || k.starts_with(":one/")).collect(); if ids.is_empty() { EP::Temp(self.temp()) } else { let k = (*self.rng.pick(&ids)).clone(); EP::Ident(k) } }
        }
    }
    pub fn vp(&mut self, d: &AttrDef, add: bool, nest: bool) -> VP {
        if d.attr.many && self.rng.pct(12) {
            let n = 1 + self.rng.below(3);
            return VP::Vec((0..n).map(|_| self.vp1(d, add, false)).collect());
        }
        self.vp1(d, add, nest)
    }
    fn vp1(&mut self, d: &AttrDef, add: bool, nest: bool) -> VP {
        if d.attr.vt != VT::Ref { return VP::Lit(scalar(self.rng, &d.attr)); }
        let w = [if self.es.is_empty() { 0 } else { 40 }, 35, self.o.lookups, 3, 4, if add && nest && self.depth < 2 { self.o.maps / 2 } else { 0 }, 1];
        match self.rng.weighted(&w) {
            0 => VP::Lit(V::Ref(*self.rng.pick(&self.es))),
            1 => VP::Lit(V::Str(self.temp())),
            2 => match self.lookup() { Some((a, v)) => VP::Lookup(a, v), None => VP::Lit(V::Str(self.temp())) },
            3 => VP::Tx,
            4 => VP::Lit(V::Kw(self.rng.pick(&[":db/ident", ":db/doc", ":one/long"]).to_string())),
            5 => {
                self.depth += 1;
                let need_ident = !d.attr.component;
                let mp = self.map(true, need_ident);
                self.depth -= 1;
                VP::Map(mp)
            }
            _ => VP::Lit(V::Ref(1 << 41)),
        }
    }
    pub fn map(&mut self, nested: bool, need_ident: bool) -> MapN {
        let id = if self.rng.pct(if nested { 25 } else { 65 }) { Some(self.ep()) } else { None };
        let n = 1 + self.rng.below(3);
        let mut kvs: Vec<(AP, VP)> = vec![];
        let mut used: Vec<String> = vec![];
        let ids: Vec<&AttrDef> = self.pal.by(|a| a.unique == Uniq::Identity && a.vt != VT::Ref);
        if need_ident && id.is_none() && !ids.is_empty() && self.rng.pct(93) {
            let d = (*self.rng.pick(&ids)).clone();
            used.push(d.ident.clone());
            let v = self.vp(&d, true, false);
            kvs.push((AP::Ident(d.ident), v));
        }
        for _ in 0..n {
            let d = self.rng.pick(&self.pal.defs).clone();
            if used.contains(&d.ident) { continue; }
            used.push(d.ident.clone());
            if d.attr.vt == VT::Ref && self.rng.pct(12) {
                let v = match self.vp1(&AttrDef { ident: d.ident.clone(), attr: d.attr.clone() }, false, false) { x => x };
                kvs.push((AP::Ident(reverse(&d.ident)), v));
                continue;
            }
            let v = self.vp(&d, true, true);
            let ap = AP::Ident(d.ident);
            kvs.push((ap, v));
        }
        MapN { id, kvs }
    }
    pub fn item(&mut self) -> Item {
        if self.rng.pct(self.o.maps) { return Item::Map(self.map(false, false)); }
        if self.rng.pct(self.o.retracts) {
            // mostly retract something that exists
            let c: Vec<&Fact> = self.m.facts.keys().filter(|(e, a, _)| self.es.contains(e) && self.m.schema.attrs.contains_key(a)).collect();
            if !c.is_empty() && self.rng.pct(75) {
                let (e, a, v) = (*self.rng.pick(&c)).clone();
                let ap = match self.m.schema.ident_of(a) { Some(s) => AP::Ident(s.clone()), None => AP::Id(a) };
                let v = if self.rng.pct(15) { scalar_or_ref(self.rng, &self.m.schema.attrs[&a], &self.es) } else { v };
                return Item::Ret(EP::Id(e), ap, VP::Lit(v));
            }
            let d = self.rng.pick(&self.pal.defs).clone();
            let (e, a) = (self.ep(), self.ap(&d));
            let v = self.vp(&d, false, false);
            return Item::Ret(e, a, v);
        }
        let d = self.rng.pick(&self.pal.defs).clone();
        if d.attr.vt == VT::Ref && self.rng.pct(10) {
            let e = self.ep();
            let v = self.vp1(&d, false, false);
            return Item::Add(e, AP::Ident(reverse(&d.ident)), v);
        }
        let (e, a) = (self.ep(), self.ap(&d));
        let v = self.vp(&d, true, true);
        Item::Add(e, a, v)
    }
    /// Upsert-heavy cluster: several tempids over the identity attributes.
    pub fn upsert_cluster(&mut self) -> Vec<Item> {
        let ids: Vec<AttrDef> = self.pal.by(|a| a.unique == Uniq::Identity).into_iter().cloned().collect();
        let n = 2 + self.rng.below(4);
        let mut out = vec![];
        if ids.is_empty() { return out; }
        for _ in 0..n {
            let d = self.rng.pick(&ids).clone();
            let t = self.temp();
            // prefer existing identity values
            let have: Vec<V> = match self.m.schema.attr(&d.ident) { Some((id, _)) => self.m.facts.keys().filter(|k| k.1 == id).map(|k| k.2.clone()).collect(), None => vec![] };
            let v = if d.attr.vt == VT::Ref { if self.rng.pct(70) || have.is_empty() { VP::Lit(V::Str(self.temp())) } else { VP::Lit(self.rng.pick(&have).clone()) } }
                else if !have.is_empty() && self.rng.pct(60) { VP::Lit(self.rng.pick(&have).clone()) } else { VP::Lit(scalar(self.rng, &d.attr)) };
            out.push(Item::Add(EP::Temp(t), AP::Ident(d.ident), v));
        }
        if self.rng.pct(60) {
            let d = self.rng.pick(&self.pal.defs).clone();
            let t = self.temp();
            let v = self.vp(&d, true, false);
            out.push(if self.rng.pct(80) { Item::Add(EP::Temp(t), AP::Ident(d.ident), v) } else { Item::Ret(EP::Temp(t), AP::Ident(d.ident), v) });
        }
        out
    }
    /// Move unique values around among entities (swap, rotate).
    pub fn unique_shuffle(&mut self) -> Vec<Item> {
        let us: Vec<i64> = self.m.schema.attrs.iter().filter(|(k, a)| a.unique != Uniq::No && **k >= USER0).map(|(k, _)| *k).collect();
        if us.is_empty() { return vec![]; }
        let a = *self.rng.pick(&us);
        let fs: Vec<Fact> = self.m.facts.keys().filter(|f| f.1 == a && f.0 >= USER0).cloned().collect();
        if fs.len() < 2 { return vec![]; }
        let x = self.rng.pick(&fs).clone();
        let y = self.rng.pick(&fs).clone();
        if x == y { return vec![]; }
        let ap = match self.m.schema.ident_of(a) { Some(s) => AP::Ident(s.clone()), None => AP::Id(a) };
        let mut out = vec![Item::Add(EP::Id(x.0), ap.clone(), VP::Lit(y.2.clone()))];
        match self.rng.below(4) {
            0 => out.push(Item::Add(EP::Id(y.0), ap.clone(), VP::Lit(x.2.clone()))),
            1 => out.push(Item::Ret(EP::Id(y.0), ap.clone(), VP::Lit(y.2.clone()))),
            2 => { out.push(Item::Add(EP::Id(y.0), ap.clone(), VP::Lit(x.2.clone()))); out.push(Item::Ret(EP::Id(y.0), ap.clone(), VP::Lit(y.2.clone()))); out.push(Item::Ret(EP::Id(x.0), ap.clone(), VP::Lit(x.2.clone()))); }
            _ => { let d = AttrDef { ident: String::new(), attr: self.m.schema.attrs[&a].clone() }; let v = self.vp1(&d, false, false); out.push(Item::Add(EP::Id(y.0), ap, v)); }
        }
        out
    }
    pub fn spice(&mut self) -> Item {
        let d = self.rng.pick(&self.pal.defs).clone();
        let e = self.ep();
        match self.rng.below(14) {
            0 => Item::Add(EP::Id(self.m.next_user + 1000), AP::Ident(d.ident.clone()), self.vp(&d, true, false)),
            1 => Item::Add(e, AP::Ident(":no/such".into()), VP::Lit(V::Long(1))),
            2 => { let vt = *self.rng.pick(&ALL_VT); let v = if vt == VT::Ref { V::Long(5) } else { self.rng.pick(&pool(vt)).clone() }; Item::Add(e, AP::Ident(d.ident), VP::Lit(v)) }
            3 => Item::Add(EP::Ident(":no/such".into()), AP::Ident(d.ident.clone()), self.vp(&d, true, false)),
            4 => Item::Add(EP::Lookup(AP::Ident(":id/str".into()), V::Str("no such".into())), AP::Ident(d.ident.clone()), self.vp(&d, true, false)),
            5 => Item::Add(EP::Lookup(AP::Ident(":one/long".into()), V::Long(1)), AP::Ident(d.ident.clone()), self.vp(&d, true, false)),
            6 => Item::Add(e, AP::Ident(reverse(&d.ident)), VP::Lit(V::Str("t9".into()))),
            7 => Item::Ret(EP::Temp("t9".into()), AP::Ident(d.ident.clone()), self.vp(&d, false, false)),
            8 => Item::Add(e, AP::Ident(":one/long".into()), VP::Vec(vec![VP::Lit(V::Long(1))])),
            9 => Item::Add(e, AP::Ident(":many/ref".into()), VP::Map(MapN { id: None, kvs: vec![(AP::Ident(":one/long".into()), VP::Lit(V::Long(1)))] })),
            10 => Item::Ret(e, AP::Ident(":many/ref".into()), VP::Map(MapN { id: Some(EP::Temp("t1".into())), kvs: vec![(AP::Ident(":one/long".into()), VP::Lit(V::Long(1)))] })),
            11 => Item::Add(e, AP::Ident(":one/long".into()), VP::Tx),
            12 => Item::Add(e, AP::Id(5_000_000), VP::Lit(V::Long(1))),
            _ => Item::Add(EP::Tx, AP::Ident(":db/txInstant".into()), VP::Lit(V::Inst(self.rng.range(0, 5) * 1_000_000_000_001))),
        }
    }
    pub fn tx(&mut self) -> TxAst {
        let n = 1 + self.rng.below(self.o.max_items);
        let mut t: TxAst = vec![];
        while t.len() < n {
            match self.rng.weighted(&[70, 15, 10]) {
                0 => { let i = self.item(); t.push(i) }
                1 => t.extend(self.upsert_cluster()),
                _ => t.extend(self.unique_shuffle()),
            }
        }
        if self.rng.pct(10) && !t.is_empty() { let x = self.rng.pick(&t).clone(); t.push(x); }
        if self.rng.pct(self.o.spice) { let s = self.spice(); let at = self.rng.below(t.len() + 1); t.insert(at, s); }
        if self.rng.pct(4) { t.push(Item::Add(EP::Tx, AP::Ident(":db/doc".into()), VP::Lit(V::Str("note".into())))); }
        if !self.o.bare_value_temps { fix_bare(&mut t); }
        t
    }
}

impl Attr { fn clone_for_pool(&self) -> Attr { let mut a = self.clone(); if a.vt == VT::Ref { a.vt = VT::Long; } a } }

pub fn scalar_or_ref(rng: &mut Rng, a: &Attr, es: &[i64]) -> V {
    if a.vt == VT::Ref { V::Ref(*rng.pick(es)) } else { scalar(rng, a) }
}

pub fn reverse(ident: &str) -> String { let i = ident.find('/').unwrap(); format!("{}/_{}", &ident[..i], &ident[i + 1..]) }

/// Make sure every tempid used as a value also gets a fact of its own.
fn fix_bare(t: &mut TxAst) {
    for k in 0..5 { t.push(Item::Add(EP::Temp(format!("t{}", k)), AP::Ident(":many/long".into()), VP::Lit(V::Long(k)))); }
}
