//! P23: transactions assembled with builders, against what their text means.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::{gen_any, live_pal};
use crate::p_tx::start;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use core_traits::{KnownEntid, TypedValue};
use edn::entities::{AttributePlace, Entity, EntidOrIdent, EntityPlace, LookupRef, MapNotation, OpType, TempId, ValuePlace};
use edn::InternSet;
use mentat_db::internal_types::{Term, TermWithTempIds};
use mentat_core::util::Either;
use mentat::entity_builder::{BuildTerms, InProgressBuilder, TermBuilder};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P23", rule: "A distinct transaction assembled with builders and judged by what its text means, that changed facts or was refused.",
            case: p23, quick: (3000, 35), thorough: (200_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["Builder values are taken to mean the text with the same value in an attribute of their type; values of other types must be refused.",
                "Transactions whose outcome the language leaves open (transitive merging of new tempids) are compared with the text's effect on a twin store only as to acceptance and temporary ids."] },
    ]
}

type EPl = EntityPlace<TypedValue>;
type VPl = ValuePlace<TypedValue>;

fn unrev(a: &str) -> Option<String> {
    let i = a.find('/')?;
    if a[i + 1..].starts_with('_') { Some(format!("{}/{}", &a[..i], &a[i + 2..])) } else { None }
}

/// The type of the attribute, and whether it is reversed.
fn vt_of(m: &Model, a: &AP) -> (Option<VT>, bool) {
    let (id, rev) = match a {
        AP::Id(i) => (Some(*i), false),
        AP::Ident(s) => match unrev(s) { Some(f) => (m.schema.idents.get(&f).cloned(), true), None => (m.schema.idents.get(s).cloned(), false) },
    };
    (id.and_then(|i| m.schema.attrs.get(&i)).map(|a| a.vt), rev)
}

/// A literal as it is typed in an attribute of this type: whole numbers stand for entities or numbers.
fn typed(vt: Option<VT>, v: &V) -> TypedValue {
    match (vt, v) {
        (Some(VT::Ref), V::Long(i)) => TypedValue::Ref(*i),
        (Some(VT::Ref), _) => v.typed(),
        (_, V::Ref(i)) => TypedValue::Long(*i),
        _ => v.typed(),
    }
}

/// The list [op x :ns/_a y] is by grammar [op y :ns/a x], even if x isn't an entity; builders reverse only references.
fn forward(m: &Model, e: &EP, a: &AP, v: &VP) -> (EP, AP, VP) {
    let same = (e.clone(), a.clone(), v.clone());
    if let (AP::Ident(s), (vt, true)) = (a, vt_of(m, a)) {
        if vt == Some(VT::Ref) { return same; }
        let e2 = match v { VP::Lit(V::Str(s)) => EP::Temp(s.clone()), VP::Lit(V::Long(i)) | VP::Lit(V::Ref(i)) => EP::Id(*i), VP::Lit(V::Kw(k)) => EP::Ident(k.clone()), VP::Lookup(a, v) => EP::Lookup(a.clone(), v.clone()), VP::Tx => EP::Tx, _ => return same };
        let v2 = match e { EP::Temp(t) => VP::Lit(V::Str(t.clone())), EP::Id(i) => VP::Lit(V::Long(*i)), EP::Ident(k) => VP::Lit(V::Kw(k.clone())), EP::Tx => VP::Tx, EP::Lookup(a, v) => VP::Lookup(a.clone(), v.clone()) };
        return (e2, AP::Ident(unrev(s).unwrap()), v2);
    }
    same
}

/// `numbered` counts temporary ids that nothing reports.
struct Build<'a> { rng: &'a mut Rng, m: &'a Model, numbered: i64 }

impl<'a> Build<'a> {
    fn a(&mut self, a: &AP) -> AttributePlace {
        match a {
            AP::Id(i) => if self.rng.pct(50) { AttributePlace::from(*i) } else { KnownEntid(*i).into() },
            AP::Ident(s) => AttributePlace::from(kw(s)),
        }
    }
    fn lookup(&mut self, a: &AP, v: &V) -> LookupRef<TypedValue> {
        let t = typed(vt_of(self.m, a).0, v);
        let a = self.a(a);
        LookupRef { a, v: t }
    }
    fn temp<B: BuildTerms>(&mut self, b: &mut B, t: &str) -> edn::ValueRc<TempId> {
        if self.rng.pct(30) { TempId::External(t.to_string()).into() } else { b.named_tempid(t) }
    }
    fn e<B: BuildTerms>(&mut self, b: &mut B, e: &EP) -> EPl {
        match e {
            EP::Id(i) => if self.rng.pct(50) { KnownEntid(*i).into() } else { EPl::from(*i) },
            EP::Ident(s) => EPl::from(kw(s)),
            EP::Temp(t) => self.temp(b, t).into(),
            EP::Tx => TermBuilder::tx_function("transaction-tx").into(),
            EP::Lookup(a, v) => self.lookup(a, v).into(),
        }
    }
    fn ident_or_id(&mut self, a: &AP) -> EntidOrIdent { let AttributePlace::Entid(x) = self.a(a); x }
    fn v<B: BuildTerms>(&mut self, b: &mut B, a: &AP, v: &VP) -> VPl {
        let (vt, rev) = vt_of(self.m, a);
        match v {
            VP::Tx => TermBuilder::tx_function("transaction-tx").into(),
            VP::Lookup(a, v) => self.lookup(a, v).into(),
            VP::Vec(vs) => ValuePlace::Vector(vs.iter().map(|x| self.v(b, a, x)).collect()),
            VP::Map(mp) => ValuePlace::MapNotation(self.map(b, mp)),
            VP::Lit(l) if rev || vt == Some(VT::Ref) => match l {
                V::Long(i) | V::Ref(i) => match self.rng.below(3) { 0 => KnownEntid(*i).into(), 1 => ValuePlace::Entid(EntidOrIdent::Entid(*i)), _ => TypedValue::Ref(*i).into() },
                V::Kw(k) => ValuePlace::Entid(EntidOrIdent::Ident(kw(k))),
                V::Str(s) => if self.rng.pct(70) { self.temp(b, s).into() } else { TypedValue::typed_string(s).into() },
                x => x.typed().into(),
            },
            VP::Lit(l) => typed(vt, l).into(),
        }
    }
    fn map<B: BuildTerms>(&mut self, b: &mut B, mp: &MapN) -> MapNotation<TypedValue> {
        let mut out = MapNotation::new();
        if let Some(ref e) = mp.id {
            let p: VPl = match (e, self.rng.pct(30)) {
                (EP::Id(i), true) => TypedValue::Ref(*i).into(),
                (EP::Ident(s), true) => TypedValue::Keyword(kw(s).into()).into(),
                (EP::Temp(t), true) => TypedValue::typed_string(t).into(),
                _ => match self.e(b, e) {
                    EntityPlace::Entid(x) => ValuePlace::Entid(x),
                    EntityPlace::TempId(t) => ValuePlace::TempId(t),
                    EntityPlace::LookupRef(l) => ValuePlace::LookupRef(l),
                    EntityPlace::TxFunction(f) => ValuePlace::TxFunction(f),
                },
            };
            out.insert(EntidOrIdent::Ident(edn::Keyword::namespaced("db", "id")), p);
        }
        for (a, v) in &mp.kvs { let k = self.ident_or_id(a); let p = self.v(b, a, v); out.insert(k, p); }
        out
    }
    /// Another anonymous entity.
    fn number(&mut self) -> TempId { self.numbered += 1; TempId::Internal(self.numbered) }
    fn item<B: BuildTerms>(&mut self, mut b: B, it: &Item) -> mentat::Result<B> {
        match it {
            Item::Add(e, a, v) | Item::Ret(e, a, v) => {
                let (e, a, v) = &forward(self.m, e, a, v);
                let (ep, vp) = (self.e(&mut b, e), self.v(&mut b, a, v));
                let ap = self.a(a);
                let add = if let Item::Add(..) = it { true } else { false };
                if self.rng.pct(50) {
                    if add { b.add(ep, ap, vp)? } else { b.retract(ep, ap, vp)? }
                    return Ok(b);
                }
                let mut eb = match e { EP::Temp(t) if self.rng.pct(50) => b.describe_tempid(t), _ => b.describe(ep) };
                if add { eb.add(ap, vp)? } else { eb.retract(ap, vp)? }
                Ok(eb.finish().0)
            }
            Item::Map(mp) => {
                let ep: EPl = match mp.id { Some(ref e) => self.e(&mut b, e), None => self.number().into() };
                let mut kvs = vec![];
                for (a, v) in &mp.kvs { let p = self.v(&mut b, a, v); kvs.push((self.a(a), p)); }
                let mut eb = b.describe(ep);
                for (a, p) in kvs { eb.add(a, p)?; }
                let (b, _) = eb.finish();
                Ok(b)
            }
        }
    }
    fn all<B: BuildTerms>(&mut self, mut b: B, tx: &[Item]) -> mentat::Result<B> {
        for it in tx { b = self.item(b, it)?; }
        Ok(b)
    }
    /// The same as entities, maps kept.
    fn entities(&mut self, tx: &[Item]) -> Vec<Entity<TypedValue>> {
        let mut b = TermBuilder::new();
        tx.iter().map(|it| match it {
            Item::Add(e, a, v) | Item::Ret(e, a, v) => {
                let (e, a, v) = &forward(self.m, e, a, v);
                let op = if let Item::Add(..) = it { OpType::Add } else { OpType::Retract };
                Entity::AddOrRetract { op, e: self.e(&mut b, e), a: self.a(a), v: self.v(&mut b, a, v) }
            }
            Item::Map(mp) => Entity::MapNotation(self.map(&mut b, mp)),
        }).collect()
    }
}

/// The same as the terms that the transactor works with, and the temporary ids in them.
pub fn plain_terms(m: &Model, tx: &[Item]) -> Option<(Vec<TermWithTempIds>, InternSet<TempId>)> {
    let mut set = InternSet::new();
    let mut temp = |t: Tmp| set.intern(match t { Tmp::Ext(s) => TempId::External(s), Tmp::Int(i) => TempId::Internal(i as i64) });
    let terms = m.plain(tx)?.into_iter().map(|(add, e, a, v)| {
        let e = match e { Ok(i) => Either::Left(KnownEntid(i)), Err(t) => Either::Right(temp(t)) };
        let v = match v { Ok(v) => Either::Left(v.typed()), Err(t) => Either::Right(temp(t)) };
        Term::AddOrRetract(if add { OpType::Add } else { OpType::Retract }, e, a, v)
    }).collect();
    Some((terms, set))
}

/// A step, as text or in one of the forms that it can also be given in.
pub fn send(ctx: &mut Ctx, ip: &mut mentat::InProgress, m: &Model, tx: &[Item], text: &str) -> R<Result<Report, String>> {
    let conv = |r: mentat::Result<mentat::TxReport>| r.map(|r| report(&r)).map_err(|e| e.to_string());
    match ctx.rng.below(100) {
        0..=14 => if let Ok(es) = edn::parse::entities(text) { ctx.count("steps_as_entities"); return call(text, || conv(ip.transact_entities(es))); },
        15..=29 => if let (true, Some((terms, set))) = (!m.plain(tx).map_or(true, |ts| ts.iter().any(|t| matches!(&t.1, Err(Tmp::Int(_))) || matches!(&t.3, Err(Tmp::Int(_))))), plain_terms(m, tx)) {
            ctx.count("steps_as_terms");
            return call(text, || conv(ip.transact_terms(terms, set)));
        },
        30..=37 => {
            let path = ctx.file("steps.edn");
            std::fs::write(&path, text).h("write")?;
            ctx.count("steps_imported");
            return call(text, || conv(ip.import(&path)));
        }
        _ => (),
    }
    call(text, || conv(ip.transact(text)))
}

/// A value of another type than the attribute's, in the form given by `how`.
fn mistyped(rng: &mut Rng, m: &Model, pal: &Pal) -> Option<(i64, AttributePlace, VPl, String, Option<TypedValue>)> {
    let es = user_entities(m);
    if es.is_empty() || pal.defs.is_empty() { return None; }
    let d = rng.pick(&pal.defs).clone();
    let e = *rng.pick(&es);
    let mut plain = None;
    let other: VPl = match rng.below(4) {
        0 if d.attr.vt != VT::Ref => KnownEntid(e).into(),
        1 if d.attr.vt != VT::Ref => TempId::External("x".into()).into(),
        2 if d.attr.vt != VT::Ref => ValuePlace::Entid(EntidOrIdent::Ident(kw(":db/doc"))),
        _ => {
            let vt = *rng.pick(&ALL_VT);
            if vt == d.attr.vt || (d.attr.vt == VT::Ref && vt == VT::Str) { return None; }
            let v = if vt == VT::Ref { TypedValue::Ref(e) } else { scalar(rng, &Attr { vt, fulltext: false, ..d.attr.clone() }).typed() };
            plain = Some(v.clone());
            v.into()
        }
    };
    let t = format!("[{} {} {:?}]", e, d.ident, other);
    Some((e, AttributePlace::from(kw(&d.ident)), other, t, plain))
}

fn nested_anonymous(tx: &[Item]) -> bool {
    fn v(x: &VP) -> bool { match x { VP::Map(m) => m.id.is_none() || m.kvs.iter().any(|k| v(&k.1)), VP::Vec(vs) => vs.iter().any(v), _ => false } }
    tx.iter().any(|i| match i { Item::Add(_, _, x) | Item::Ret(_, _, x) => v(x), Item::Map(m) => m.kvs.iter().any(|k| v(&k.1)) })
}

fn p23(ctx: &mut Ctx) -> R {
    let o = TxOpts { ..TxOpts::default() };
    let (mut real, mut m, pal) = start(ctx, "")?;
    for _ in 0..1 + ctx.rng.below(4) {
        let tx = gen_any(ctx, &m, 0, &o);
        step(ctx, &mut real, &mut m, &tx)?;
    }
    for round in 0..8 {
        let mut rng = ctx.rng.clone();
        let before = m.clone();
        let commit = rng.pct(80);
        let steps = 1 + if rng.pct(40) { rng.below(3) } else { 0 };
        ctx.rng = rng.clone();
        let (sqlite, conn) = (&mut real.sqlite, &mut real.conn);
        let mut open = match conn.begin_transaction(sqlite) { Ok(i) => Some(i), Err(e) => return bad(format!("cannot begin: {}", e)) };
        let mut last = None; // the outcome of the builder's own commit
        for s in 0..steps {
            let mut ip = match open.take() { Some(i) => i, None => break };
            let tx = gen_any(ctx, &m, 15, &o);
            let text = tx_text(&tx);
            let mut rng = ctx.rng.clone();
            if let (true, Some((e, a, v, t, plain))) = (rng.pct(6), mistyped(&mut rng, &m, &live_pal(&m))) {
                // a value that no text can express here, or a wrong one
                ctx.note(format!("mistyped {}", t));
                let id = match &a { AttributePlace::Entid(EntidOrIdent::Ident(k)) => m.schema.idents[&k.to_string()], AttributePlace::Entid(EntidOrIdent::Entid(i)) => *i };
                let add = rng.pct(70);
                let mut b = TermBuilder::new();
                if add { b.add(e, a, v).h("add")?; } else { b.retract(e, a, v).h("retract")?; }
                let r = call("mistyped", || ip.transact_builder(b).map_err(|e| e.to_string()))?;
                if let (Err(_), Some(v)) = (&r, plain) {
                    let term = Term::AddOrRetract(if add { OpType::Add } else { OpType::Retract }, Either::Left(KnownEntid(e)), id, Either::Left(v));
                    let r = call("mistyped term", || ip.transact_terms(vec![term], InternSet::new()).map_err(|e| e.to_string()))?;
                    if r.is_ok() { return bad(format!("accepted a term with a value of another type: {} {}", if add { "add" } else { "retract" }, t)); }
                    ctx.count("mistyped_terms_refused");
                }
                if r.is_ok() { return bad(format!("accepted a value of another type: {} {}", if add { "add" } else { "retract" }, t)); }
                ctx.count("mistyped_values_refused");
                if let Some(d) = diff_facts(&m.facts, &facts_of(&ip.transaction)?) { return bad(format!("a refused builder changed facts: {}", d)); }
            }
            let out = m.eval(&tx);
            let plain = if rng.pct(15) { plain_terms(&m, &tx) } else { None };
            let mode = if plain.is_some() { 6 } else { rng.below(if s + 1 == steps { 6 } else { 4 }) };
            ctx.note(format!("round {} build {} by {}", round, text, ["terms", "builder in progress", "entities", "built terms", "commit of the builder", "commit of the entity builder", "plain terms"][mode]));
            let mut bd = Build { rng: &mut rng, m: &m, numbered: 0 };
            let conv = |r: mentat::Result<mentat::TxReport>| r.map(|r| report(&r)).map_err(|e| e.to_string());
            let got = match mode {
                0 => { let b = bd.all(TermBuilder::new(), &tx).h("build")?; call(&text, || conv(ip.transact_builder(b)))? }
                1 => {
                    let b: InProgressBuilder = bd.all(ip.builder(), &tx).h("build")?;
                    let (i, r) = call(&text, || { let (i, r) = b.transact(); (i, conv(r)) })?;
                    ip = i;
                    r
                }
                2 => { let es = bd.entities(&tx); call(&text, || conv(ip.transact_entities(es)))? }
                3 => { let (terms, _) = bd.all(TermBuilder::new(), &tx).h("build")?.build().h("build")?; call(&text, || conv(ip.transact_entities(terms)))? }
                6 => { let (terms, set) = plain.unwrap(); ctx.count("plain_terms"); call(&text, || conv(ip.transact_terms(terms, set)))? }
                _ => {
                    let b: InProgressBuilder = bd.all(ip.builder(), &tx).h("build")?;
                    let r = if mode == 4 { call(&text, || conv(b.commit()))? } else {
                        // the last entity's builder commits all
                        let eb = b.describe(EPl::from(kw(":db/doc")));
                        call(&text, || conv(eb.commit()))?
                    };
                    ctx.rng = rng;
                    last = Some((out, r, text));
                    break;
                }
            };
            ctx.rng = rng;
            if nested_anonymous(&tx) { ctx.count("with_nested_anonymous_maps"); }
            let did = settle_on(ctx, &ip.transaction, &mut m, out, got)?;
            if did == Did::Refused {
                if let Some(d) = diff_facts(&m.facts, &facts_of(&ip.transaction)?) { return bad(format!("a refused builder changed facts: {}", d)); }
            }
            if schema_of(&ip.schema) != m.schema { return bad("the transaction in progress has another schema than its facts describe"); }
            ctx.eval(did != Did::Open, &text);
            open = Some(ip);
        }
        if let Some((out, r, text)) = last {
            drop(open);
            match (&out, &r) {
                (Outcome::Accept(_), Err(e)) => return bad(format!("refused a valid transaction: {}", e)),
                (_, Err(_)) => { m = before; ctx.count("failed_commits"); ctx.eval(true, &format!("{} failed commit", text)); } // takes the earlier steps with it
                _ => { let did = settle_on(ctx, &real.sqlite, &mut m, out, r)?; ctx.eval(did != Did::Open, &text); ctx.count("commits_by_builder"); }
            }
            continue_check(&real, &m)?;
            continue;
        }
        let ip = open.ok_or("nothing in progress").h("end")?;
        if commit { ip.commit().h("commit")?; ctx.count("commits"); } else { if ctx.rng.pct(50) { ip.rollback().h("rollback")?; } else { drop(ip); } m = before; ctx.count("rollbacks"); }
        continue_check(&real, &m)?;
    }
    check_log(&real.sqlite, &m)
}

fn continue_check(real: &Real, m: &Model) -> R {
    if let Some(d) = diff_facts(&m.facts, &real.facts()?) { return bad(format!("facts after the end of the transaction in progress: {}", d)); }
    if real.schema() != m.schema { return bad("the connection's schema differs from the one its facts describe"); }
    if real.next_tx() != m.next_tx { return bad(format!("next transaction {} but {} expected", real.next_tx(), m.next_tx)); }
    Ok(())
}
