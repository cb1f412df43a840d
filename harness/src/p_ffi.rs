//! P24: the C interface, called as a C program would, against the reference model; memory watched.
use crate::alloc;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::gen_any;
use crate::real::*;
use crate::val::*;
use libc::c_char;
use mentat::{AttributeSet, Binding, InProgress, RelResult, Store, TxObserver, TxReport};
use mentat_ffi::utils::error::ExternError;
use mentat_ffi::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CStr, CString};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P24", rule: "A distinct call sequence over the C interface whose effect or result was compared with the model.",
            case: p24, quick: (2000, 40), thorough: (200_000, 600), min_nontrivial: 2000, workers: 8,
            assumptions: &["Callers keep to the documentation: valid pointers and UTF-8 strings, each object released once, keywords that aren't empty, no conversion to a type a value doesn't have (documented to panic).",
                "Strings that hold a NUL character can't be written through this interface, and aren't written natively either.",
                "Rust code is compiled with AddressSanitizer; SQLite's C code is not, but its memory functions are intercepted."] },
    ]
}

type Ip = InProgress<'static, 'static>;

fn c(s: &str) -> CString { CString::new(s).unwrap() }
fn err() -> ExternError { ExternError::default() }

/// A returned C string, released.
unsafe fn take(p: *mut c_char) -> Option<String> {
    if p.is_null() { return None; }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    rust_c_string_destroy(p);
    Some(s)
}

/// The outcome of a call that reports errors.
unsafe fn outcome<T>(p: *mut T, e: ExternError) -> R<Result<*mut T, String>> {
    match take(e.message) {
        Some(m) => if p.is_null() { Ok(Err(m)) } else { bad(format!("a result and an error: {}", m)) },
        None => Ok(Ok(p)),
    }
}
unsafe fn void(e: ExternError) -> Result<(), String> { match take(e.message) { Some(m) => Err(m), None => Ok(()) } }

fn trace(ctx: &mut Ctx, s: String) {
    // the process may not live to tell
    if !ctx.verbose { eprintln!("{}", s); }
    ctx.note(s);
}

fn temps_of(tx: &[Item]) -> BTreeSet<String> {
    fn ep(e: &EP, o: &mut BTreeSet<String>) { if let EP::Temp(t) = e { o.insert(t.clone()); } }
    fn vp(v: &VP, o: &mut BTreeSet<String>) {
        match v { VP::Lit(V::Str(s)) => { o.insert(s.clone()); } VP::Vec(vs) => for x in vs { vp(x, o) }, VP::Map(m) => map(m, o), _ => {} }
    }
    fn map(m: &MapN, o: &mut BTreeSet<String>) { if let Some(ref e) = m.id { ep(e, o); } for (_, v) in &m.kvs { vp(v, o); } }
    let mut o = BTreeSet::new();
    for i in tx { match i { Item::Add(e, _, v) | Item::Ret(e, _, v) => { ep(e, &mut o); vp(v, &mut o); } Item::Map(m) => map(m, &mut o) } }
    o
}

/// Read a report through its accessors; the transaction's instant is taken from its facts.
unsafe fn read_report(ctx: &mut Ctx, p: *mut TxReport, names: &BTreeSet<String>, m: &Model, sqlite: &rusqlite::Connection, log: bool) -> R<Report> {
    let tx_id = tx_report_get_entid(p);
    let mut temps = BTreeMap::new();
    for n in names {
        let e = tx_report_entity_for_temp_id(p, c(n).as_ptr());
        if e.is_null() { continue; }
        temps.insert(n.clone(), *e);
        destroy(e as *mut _);
        ctx.count("temporary_ids_asked");
    }
    if !tx_report_entity_for_temp_id(p, c("no such tempid").as_ptr()).is_null() { return bad("an entity for a temporary id that isn't in the transaction"); }
    let secs = tx_report_get_tx_instant(p);
    let inst: Vec<i64> = facts_of(sqlite)?.keys().filter(|k| k.0 == tx_id && k.1 == m.boot.get(":db/txInstant")).filter_map(|k| if let V::Inst(i) = k.2 { Some(i) } else { None }).collect();
    let _ = log;
    let instant = match inst.as_slice() { [i] => *i, _ => return bad(format!("transaction {} has the instants {:?}", tx_id, inst)) };
    if secs != instant.div_euclid(1_000_000) && secs != instant { return bad(format!("the report's instant is {}, the transaction's {} µs", secs, instant)); }
    tx_report_destroy(p);
    Ok(Report { tx_id, instant, temps })
}

/// One value over the C interface.
fn take_value(ctx: &mut Ctx, want: &V, read: Read) -> R {
    unsafe {
        use core_traits::ValueType as T;
        if let Read::Binding(b) = read {
            let t = typed_value_value_type(b);
            if VT::of_core(t) != want.vt() { return bad(format!("the value is of type {:?}, not that of {}", t, want)); }
        }
        macro_rules! get { ($f:ident, $g:ident) => { match read { Read::Binding(b) => $f(b), Read::At(l, i) => $g(l, i) } } }
        let got = match want.vt().core() {
            T::Long => V::Long(get!(typed_value_into_long, value_at_index_into_long)),
            T::Ref => V::Ref(get!(typed_value_into_entid, value_at_index_into_entid)),
            T::Boolean => match get!(typed_value_into_boolean, value_at_index_into_boolean) { 0 => V::Bool(false), 1 => V::Bool(true), n => return bad(format!("boolean {}", n)) },
            T::Double => V::dbl(get!(typed_value_into_double, value_at_index_into_double)),
            T::Keyword => match take(get!(typed_value_into_kw, value_at_index_into_kw)) { Some(s) => V::Kw(s), None => return bad("null for a keyword") },
            T::String => match take(get!(typed_value_into_string, value_at_index_into_string)) { Some(s) => V::Str(s), None => return bad("null for a string") },
            T::Uuid => { let p = get!(typed_value_into_uuid, value_at_index_into_uuid); if p.is_null() { return bad("null for a UUID"); } let u = *p; uuid_destroy(p); V::Uuid(u) }
            T::Instant => {
                let t = get!(typed_value_into_timestamp, value_at_index_into_timestamp);
                let us = match want { V::Inst(us) => *us, _ => unreachable!() };
                if t != us && t == us.div_euclid(1_000_000) {
                    ctx.finding("instants-in-seconds", format!("{} µs is returned as {}: seconds, where microseconds are documented", us, t));
                    return Ok(());
                }
                V::Inst(t)
            }
        };
        if &got != want { return bad(format!("got {}, expected {}", got, want)); }
        ctx.count(&format!("values_read_{:?}", want.vt()));
    }
    Ok(())
}
#[derive(Clone, Copy)]
enum Read { Binding(*mut Binding), At(*mut Vec<Binding>, i32) }

/// A list of values, by one of the ways to go through it; released.
fn take_list(ctx: &mut Ctx, l: *mut Vec<Binding>, want: &[V]) -> R {
    unsafe {
        if l.is_null() { return bad("null for a list"); }
        let n = want.len() as i32;
        match ctx.rng.below(3) {
            0 => {
                for i in 0..n { take_value(ctx, &want[i as usize], Read::At(l, i))?; }
                typed_value_list_destroy(l);
            }
            1 => {
                for i in 0..n {
                    let b = value_at_index(l, i);
                    if b.is_null() { return bad(format!("no value at {} of {}", i, n)); }
                    if ctx.rng.pct(10) { typed_value_destroy(b); } else { take_value(ctx, &want[i as usize], Read::Binding(b))?; }
                }
                for i in &[n, n + 1, -1, i32::max_value(), i32::min_value()] {
                    let b = value_at_index(l, *i);
                    if !b.is_null() { return bad(format!("a value at {} of {}", i, n)); }
                }
                typed_value_list_destroy(l);
            }
            _ => {
                let it = typed_value_list_into_iter(l);
                let stop = if ctx.rng.pct(20) { ctx.rng.below(want.len() + 1) } else { want.len() };
                for v in &want[..stop] {
                    let b = typed_value_list_iter_next(it);
                    if b.is_null() { return bad("the iterator ends early"); }
                    take_value(ctx, v, Read::Binding(b))?;
                }
                if stop == want.len() { for _ in 0..2 { if !typed_value_list_iter_next(it).is_null() { return bad("the iterator doesn't end"); } } }
                typed_value_list_iter_destroy(it);
            }
        }
    }
    Ok(())
}

fn of_binding(b: &Binding) -> V { match b { Binding::Scalar(tv) => V::of(tv), _ => V::Str("not a value".into()) } }

/// Rows, in any order; released.
fn take_rows(ctx: &mut Ctx, rows: *mut RelResult<Binding>, want: &BTreeSet<Vec<V>>) -> R {
    unsafe {
        if rows.is_null() { return bad("null for rows"); }
        let mut seen: BTreeSet<Vec<V>> = BTreeSet::new();
        let mut row = |ctx: &mut Ctx, l: *mut Vec<Binding>| -> R {
            let vs: Vec<V> = (*l).iter().map(of_binding).collect();
            take_list(ctx, l, &vs)?;
            if !want.contains(&vs) { return bad(format!("row {:?} isn't expected", vs)); }
            if !seen.insert(vs.clone()) { return bad(format!("row {:?} twice", vs)); }
            Ok(())
        };
        if ctx.rng.pct(50) {
            let n = want.len() as i32;
            for i in 0..n {
                let l = row_at_index(rows, i);
                if l.is_null() { return bad(format!("no row {} of {}", i, n)); }
                row(ctx, l)?;
            }
            for i in &[n, n + 1, -1, i32::max_value(), i32::min_value()] { if !row_at_index(rows, *i).is_null() { return bad(format!("a row {} of {}", i, n)); } }
            typed_value_result_set_destroy(rows);
        } else {
            let it = typed_value_result_set_into_iter(rows);
            let whole = ctx.rng.pct(80);
            loop {
                let l = typed_value_result_set_iter_next(it);
                if l.is_null() { break; }
                row(ctx, l)?;
                if !whole { break; }
            }
            let n = seen.len();
            typed_value_result_set_iter_destroy(it);
            typed_value_result_set_destroy(rows);
            if !whole && n > 0 { return Ok(()); }
        }
        if seen.len() != want.len() { return bad(format!("{} rows, expected {}", seen.len(), want.len())); }
    }
    Ok(())
}

fn kwtext(rng: &mut crate::rng::Rng, s: &str) -> CString { c(if rng.pct(25) { &s[1..] } else { s }) }

/// Builders over the C interface: the same calls on either kind.
#[derive(Clone, Copy)]
enum Bl { Ip(*mut InProgressBuilder<'static, 'static>, i64), En(*mut EntityBuilder<InProgressBuilder<'static, 'static>>) }

unsafe fn put(ctx: &mut Ctx, b: Bl, add: bool, a: &str, v: &V) -> Result<(), String> {
    let mut e = err();
    let k = kwtext(&mut ctx.rng, a);
    let k = k.as_ptr();
    macro_rules! go { ($ia:ident, $ir:ident, $ea:ident, $er:ident, $v:expr) => { match (b, add) {
        (Bl::Ip(p, x), true) => $ia(p, x, k, $v, &mut e), (Bl::Ip(p, x), false) => $ir(p, x, k, $v, &mut e),
        (Bl::En(p), true) => $ea(p, k, $v, &mut e), (Bl::En(p), false) => $er(p, k, $v, &mut e),
    } } }
    match v {
        V::Str(s) => { let s = c(s); go!(in_progress_builder_add_string, in_progress_builder_retract_string, entity_builder_add_string, entity_builder_retract_string, s.as_ptr()) }
        V::Long(i) => go!(in_progress_builder_add_long, in_progress_builder_retract_long, entity_builder_add_long, entity_builder_retract_long, *i),
        V::Ref(i) => go!(in_progress_builder_add_ref, in_progress_builder_retract_ref, entity_builder_add_ref, entity_builder_retract_ref, *i),
        V::Kw(s) => { let s = kwtext(&mut ctx.rng, s); go!(in_progress_builder_add_keyword, in_progress_builder_retract_keyword, entity_builder_add_keyword, entity_builder_retract_keyword, s.as_ptr()) }
        V::Bool(x) => go!(in_progress_builder_add_boolean, in_progress_builder_retract_boolean, entity_builder_add_boolean, entity_builder_retract_boolean, *x),
        V::Dbl(d) => go!(in_progress_builder_add_double, in_progress_builder_retract_double, entity_builder_add_double, entity_builder_retract_double, d.0),
        V::Inst(t) => go!(in_progress_builder_add_timestamp, in_progress_builder_retract_timestamp, entity_builder_add_timestamp, entity_builder_retract_timestamp, *t),
        V::Uuid(u) => { let u = *u; go!(in_progress_builder_add_uuid, in_progress_builder_retract_uuid, entity_builder_add_uuid, entity_builder_retract_uuid, &u) }
    }
    void(e)
}

static HEARD: Mutex<Vec<(String, Vec<(i64, BTreeSet<i64>)>)>> = Mutex::new(Vec::new());

extern "C" fn heard(key: *const c_char, reports: &TxChangeList) {
    unsafe {
        let key = CStr::from_ptr(key).to_string_lossy().into_owned();
        let list = reports as *const TxChangeList as *mut TxChangeList;
        let mut out = vec![];
        for i in 0..reports.len as i32 {
            let ch = tx_change_list_entry_at(list, i);
            let mut attrs = BTreeSet::new();
            for j in 0..(*ch).changes_len as i32 { attrs.insert(changelist_entry_at(ch as *mut _, j)); }
            out.push(((*ch).txid, attrs));
        }
        HEARD.lock().unwrap().push((key, out));
    }
}

struct S { st: *mut Store, m: Model, regs: BTreeMap<String, BTreeSet<i64>>, want: Vec<(String, Vec<(i64, BTreeSet<i64>)>)>, alive: Arc<()> }

impl S {
    fn sql(&self) -> &'static rusqlite::Connection { unsafe { &*((*self.st).sqlite_mut() as *const _) } }
    fn facts(&self) -> R<Facts> { facts_of(self.sql()) }
    fn agrees(&self) -> R {
        if let Some(d) = diff_facts(&self.m.facts, &self.facts()?) { return bad(format!("facts: {}", d)); }
        unsafe {
            let conn = (*self.st).conn();
            if schema_of(&conn.current_schema()) != self.m.schema { return bad("the connection's schema differs from the one its facts describe"); }
            if conn.last_tx_id() + 1 != self.m.next_tx { return bad("the connection numbers its next transaction otherwise"); }
        }
        Ok(())
    }
    /// What a commit of the transactions since must have told.
    fn told(&mut self, from: usize) {
        for (key, attrs) in &self.regs {
            let reports: Vec<(i64, BTreeSet<i64>)> = self.m.log[from.min(self.m.log.len())..].iter()
                .map(|(t, e)| (*t, e.iter().map(|x| x.1).collect::<BTreeSet<i64>>())).filter(|(_, a)| a.iter().any(|x| attrs.contains(x))).collect();
            if !reports.is_empty() { self.want.push((key.clone(), reports)); }
        }
    }
}

fn small(tx: &[Item]) -> bool { !tx_text(tx).contains('\0') }

fn gen_nul_free(ctx: &mut Ctx, m: &Model, pct: u32) -> TxAst {
    loop { let t = gen_any(ctx, m, pct, &TxOpts::default()); if small(&t) { return t; } }
}

unsafe fn transact(ctx: &mut Ctx, s: &mut S, schema: u32) -> R {
    let tx = gen_nul_free(ctx, &s.m, schema);
    transact_this(ctx, s, &tx)
}
unsafe fn transact_this(ctx: &mut Ctx, s: &mut S, tx: &[Item]) -> R {
    let text = tx_text(tx);
    trace(ctx, format!("store_transact {}", text));
    let out = s.m.eval(tx);
    let n = s.m.log.len();
    let mut e = err();
    let ct = c(&text);
    let p = call(&text, || store_transact(s.st, ct.as_ptr(), &mut e))?;
    let r = outcome(p, e)?;
    let got = match r {
        Ok(p) if p.is_null() => return bad("neither a report nor an error"),
        Ok(p) => Ok(read_report(ctx, p, &temps_for(&out, tx), &s.m, s.sql(), true)?),
        Err(e) => Err(e),
    };
    let sq = s.sql();
    let did = settle_on(ctx, sq, &mut s.m, out, got)?;
    s.told(n);
    ctx.eval(did != Did::Open, &text);
    s.agrees()
}

/// The temporary ids the report must know; for the rest of the strings it must not.
fn temps_for(out: &Outcome, tx: &[Item]) -> BTreeSet<String> {
    match out { Outcome::Accept(p) => p.temps.keys().cloned().chain(temps_of(tx)).collect(), _ => temps_of(tx) }
}

/// Datoms for a builder: items and whether a value has the wrong type.
fn datoms(ctx: &mut Ctx, m: &Model, pal: &Pal, on: &EP) -> (Vec<(bool, EP, String, V)>, bool) {
    let mut rng = ctx.rng.clone();
    let es = user_entities(m);
    let mut out = vec![];
    let mut wrong = false;
    if es.is_empty() || pal.defs.is_empty() { return (out, wrong); }
    for _ in 0..1 + rng.below(4) {
        let mut d = rng.pick(&pal.defs).clone();
        // A step before this one may have given the ident to another attribute.
        match m.schema.idents.get(&d.ident).and_then(|a| m.schema.attrs.get(a)) { Some(a) => d.attr = a.clone(), None => continue }
        let mut v = loop { let v = scalar_or_ref(&mut rng, &d.attr, &es); if !v.text().contains('\0') { break v; } };
        if let (VT::Ref, V::Long(i)) = (d.attr.vt, v.clone()) { v = V::Ref(i); }
        let e = if let EP::Id(_) = on { if es.is_empty() { on.clone() } else { EP::Id(*rng.pick(&es)) } } else { on.clone() };
        if rng.pct(4) {
            let vt = *rng.pick(&ALL_VT);
            // a string names an entity where one is expected
            if vt != d.attr.vt && vt != VT::Ref && !(d.attr.vt == VT::Ref && vt == VT::Str) && !(d.attr.vt == VT::Ref && vt == VT::Kw) {
                v = scalar(&mut rng, &Attr { vt, fulltext: false, ..d.attr.clone() });
                if v.text().contains('\0') { continue; }
                wrong = true;
            }
        }
        // something that is there to be retracted
        let add = rng.pct(70);
        if !add && !wrong { if let EP::Id(i) = e { let vs = m.values(i, m.schema.idents[&d.ident]); if !vs.is_empty() { v = rng.pick(&vs).clone(); if v.text().contains('\0') { continue; } } } }
        out.push((add, e, d.ident.clone(), v));
    }
    ctx.rng = rng;
    (out, wrong)
}

/// A transaction in progress: several steps by text or builders, then an end.
unsafe fn in_progress(ctx: &mut Ctx, s: &mut S) -> R {
    let before = s.m.clone();
    let n = s.m.log.len();
    let mut m = s.m.clone();
    let mut ip: *mut Ip = std::ptr::null_mut();
    let pal = crate::p_store::live_pal(&m);
    let mut key = String::new();
    let steps = 1 + ctx.rng.below(3);
    for i in 0..steps {
        let kind = ctx.rng.below(3);
        if kind == 0 && ip.is_null() || i == 0 && ctx.rng.pct(50) {
            trace(ctx, "store_begin_transaction".into());
            let mut e = err();
            let p = store_begin_transaction(s.st, &mut e);
            ip = match outcome(p, e)? { Ok(p) => p, Err(e) => return bad(format!("cannot begin: {}", e)) };
        }
        if kind == 0 {
            let tx = gen_nul_free(ctx, &m, 10);
            let text = tx_text(&tx);
            trace(ctx, format!("in_progress_transact {}", text));
            key.push_str(&text);
            let out = m.eval(&tx);
            let mut e = err();
            let ct = c(&text);
            let p = call(&text, || in_progress_transact(ip, ct.as_ptr(), &mut e))?;
            let got = match outcome(p, e)? { Ok(p) => Ok(read_report(ctx, p, &temps_for(&out, &tx), &m, &(*ip).transaction, false)?), Err(e) => Err(e) };
            let did = settle_on(ctx, &(*ip).transaction, &mut m, out, got)?;
            ctx.eval(did != Did::Open, &key);
            continue;
        }
        // builders
        let es = user_entities(&m);
        let on = match ctx.rng.below(3) { 0 if !es.is_empty() => EP::Id(*ctx.rng.pick(&es)), 1 => EP::Temp("t".into()), _ => EP::Temp("another one".into()) };
        let entity = kind == 2 || es.is_empty();
        let on = if entity { on } else { EP::Id(*ctx.rng.pick(&es)) };
        let (mut ds, wrong) = datoms(ctx, &m, &pal, &on);
        if entity { for d in ds.iter_mut() { d.1 = on.clone(); } }
        if ds.is_empty() && (i + 1 == steps || ctx.rng.pct(80)) { continue; }
        let mut e = err();
        let own = ip.is_null();
        let b = match (&on, entity, own) {
            (_, false, true) => { let p = store_in_progress_builder(s.st, &mut e); Bl::Ip(match outcome(p, e)? { Ok(p) => p, Err(e) => return bad(format!("no builder: {}", e)) }, 0) }
            (_, false, false) => Bl::Ip(in_progress_builder(ip), 0),
            (EP::Id(x), true, true) => { let p = store_entity_builder_from_entid(s.st, *x, &mut e); Bl::En(match outcome(p, e)? { Ok(p) => p, Err(e) => return bad(format!("no builder: {}", e)) }) }
            (EP::Id(x), true, false) => Bl::En(in_progress_entity_builder_from_entid(ip, *x)),
            (EP::Temp(t), true, true) => { let p = store_entity_builder_from_temp_id(s.st, c(t).as_ptr(), &mut e); Bl::En(match outcome(p, e)? { Ok(p) => p, Err(e) => return bad(format!("no builder: {}", e)) }) }
            (EP::Temp(t), true, false) => Bl::En(in_progress_entity_builder_from_temp_id(ip, c(t).as_ptr())),
            _ => unreachable!(),
        };
        ip = std::ptr::null_mut();
        let mut tx = vec![];
        for (add, e, a, v) in &ds {
            let bb = match (b, e) { (Bl::Ip(p, _), EP::Id(x)) => Bl::Ip(p, *x), (b, _) => b };
            let (ep, ap, vp) = (e.clone(), AP::Ident(a.clone()), VP::Lit(v.clone()));
            let it = if *add { Item::Add(ep, ap, vp) } else { Item::Ret(ep, ap, vp) };
            trace(ctx, format!("builder {}{}", item_text(&it), if wrong { " (some value of another type)" } else { "" }));
            key.push_str(&item_text(&it));
            if let Err(e) = put(ctx, bb, *add, a, v) { return bad(format!("the builder refuses {}: {}", item_text(&it), e)); }
            tx.push(it);
            ctx.count(&format!("values_built_{:?}", v.vt()));
        }
        let out = if wrong { Outcome::Reject("a value of another type".into()) } else { m.eval(&tx) };
        match ctx.rng.below(if i + 1 == steps { 4 } else { 2 }) {
            0 | 1 => {
                trace(ctx, "builder_transact".into());
                let r = call("transact", || match b { Bl::Ip(p, _) => in_progress_builder_transact(p), Bl::En(p) => entity_builder_transact(p) })?;
                ip = r.in_progress;
                if ip.is_null() { return bad("the transaction in progress isn't given back"); }
                let got = match outcome(r.tx_report, r.err)? { Ok(p) => Ok(read_report(ctx, p, &temps_for(&out, &tx), &m, &(*ip).transaction, false)?), Err(e) => Err(e) };
                let did = settle_on(ctx, &(*ip).transaction, &mut m, out, got)?;
                if did == Did::Refused { if let Some(d) = diff_facts(&m.facts, &facts_of(&(*ip).transaction)?) { return bad(format!("a refused builder changed facts: {}", d)); } }
                ctx.eval(did != Did::Open, &key);
            }
            2 => {
                trace(ctx, "builder_commit".into());
                let mut e = err();
                let p = call("commit", || match b { Bl::Ip(p, _) => in_progress_builder_commit(p, &mut e), Bl::En(p) => entity_builder_commit(p, &mut e) })?;
                let got = match outcome(p, e)? { Ok(p) => Ok(read_report(ctx, p, &temps_for(&out, &tx), &m, s.sql(), true)?), Err(e) => Err(e) };
                if let (Outcome::Open(_), Err(_)) = (&out, &got) { m = before.clone(); } else {
                    let did = settle_on(ctx, s.sql(), &mut m, out, got)?;
                    if did == Did::Refused { m = before.clone(); ctx.count("failed_commits"); }
                    ctx.eval(did != Did::Open, &key);
                }
                s.m = m;
                s.told(n);
                return s.agrees();
            }
            _ => {
                trace(ctx, "builder_destroy".into());
                match b { Bl::Ip(p, _) => in_progress_builder_destroy(p), Bl::En(p) => entity_builder_destroy(p) }
                s.m = before;
                ctx.count("builders_abandoned");
                return s.agrees();
            }
        }
    }
    if ip.is_null() { s.m = before; return s.agrees(); }
    let end = *ctx.rng.pick(&["commit", "commit", "commit", "rollback", "destroy"]);
    trace(ctx, format!("in_progress_{}", end));
    let mut e = err();
    match end {
        "commit" => { in_progress_commit(ip, &mut e); s.m = m; s.told(n); ctx.count("commits"); }
        "rollback" => { in_progress_rollback(ip, &mut e); s.m = before; ctx.count("rollbacks"); }
        _ => { in_progress_destroy(std::mem::transmute(ip)); s.m = before; ctx.count("abandoned"); }
    }
    if let Err(x) = void(e) { return bad(format!("{} failed: {}", end, x)); }
    s.agrees()
}

unsafe fn bind(ctx: &mut Ctx, q: *mut QueryBuilder<'static>, var: &str, v: &V) {
    let var = c(var);
    let var = var.as_ptr();
    match v {
        V::Long(i) => query_builder_bind_long(q, var, *i),
        V::Ref(i) => query_builder_bind_ref(q, var, *i),
        V::Kw(s) => query_builder_bind_kw(q, var, kwtext(&mut ctx.rng, s).as_ptr()),
        V::Bool(b) => query_builder_bind_boolean(q, var, *b),
        V::Dbl(d) => query_builder_bind_double(q, var, d.0),
        V::Inst(t) => query_builder_bind_timestamp(q, var, *t),
        V::Str(s) => query_builder_bind_string(q, var, c(s).as_ptr()),
        V::Uuid(u) => query_builder_bind_uuid(q, var, u),
    }
    ctx.count(&format!("values_bound_{:?}", v.vt()));
}

/// A query about one attribute, its answer known.
unsafe fn query(ctx: &mut Ctx, s: &S, note: bool) -> R {
    let attrs: Vec<(i64, Attr)> = s.m.schema.attrs.iter().filter(|(a, _)| **a >= USER0 && s.m.schema.ident_of(**a).is_some()).map(|(a, x)| (*a, x.clone())).collect();
    if attrs.is_empty() { return Ok(()); }
    let (a, _) = ctx.rng.pick(&attrs).clone();
    let k = s.m.schema.ident_of(a).unwrap().clone();
    let rows: Vec<(i64, V)> = s.m.facts.keys().filter(|f| f.1 == a).map(|f| (f.0, f.2.clone())).collect();
    if rows.iter().any(|r| r.1.text().contains('\0')) { return Ok(()); }
    let (e0, v0) = if rows.is_empty() { (USER0, V::Long(1)) } else { ctx.rng.pick(&rows).clone() };
    let shape = ctx.rng.below(9);
    let text = match shape {
        0 => format!("[:find ?e ?v :where [?e {} ?v]]", k),
        1 => format!("[:find ?v :in ?e :where [?e {} ?v]]", k),
        2 => format!("[:find [?v ...] :in ?e :where [?e {} ?v]]", k),
        3 => format!("[:find [?e ...] :in ?v :where [?e {} ?v]]", k),
        4 => format!("[:find [?e ?v] :in ?e :where [?e {} ?v]]", k),
        5 => format!("[:find ?v . :in ?e :where [?e {} ?v]]", k),
        6 => "[:find ?e ?v :in ?a :where [?e ?a ?v]]".to_string(),
        7 => format!("[:find ?e . :in ?v :where [?e {} ?v]]", k),
        _ => format!("[:find ?e . :where [?e {} ?v] [?e", k),
    };
    if note { trace(ctx, format!("query {} with e {} v {}", text, e0, v0)); }
    let q = store_query(s.st, c(&text).as_ptr());
    match shape { 1 | 2 | 4 | 5 => bind(ctx, q, "?e", &V::Ref(e0)), 3 | 7 => bind(ctx, q, "?v", &v0), 6 => query_builder_bind_ref_kw(q, c("?a").as_ptr(), kwtext(&mut ctx.rng, &k).as_ptr()), _ => {} }
    let es: Vec<i64> = rows.iter().filter(|r| r.1 == v0).map(|r| r.0).collect();
    let vs: BTreeSet<V> = rows.iter().filter(|r| r.0 == e0).map(|r| r.1.clone()).collect();
    let mut e = err();
    match shape {
        0 | 1 | 6 => {
            let r = outcome(query_builder_execute(q, &mut e), e)?;
            let want: BTreeSet<Vec<V>> = if shape == 1 { vs.iter().map(|v| vec![v.clone()]).collect() } else { rows.iter().map(|(e, v)| vec![V::Ref(*e), v.clone()]).collect() };
            match r { Ok(p) => take_rows(ctx, p, &want)?, Err(e) => return bad(format!("query failed: {}", e)) }
        }
        2 | 3 => {
            let l = match outcome(query_builder_execute_coll(q, &mut e), e)? { Ok(l) => l, Err(e) => return bad(format!("query failed: {}", e)) };
            let got: Vec<V> = (*l).iter().map(of_binding).collect();
            let want: BTreeSet<V> = if shape == 2 { vs } else { es.iter().map(|e| V::Ref(*e)).collect() };
            let mut g2 = got.clone();
            g2.sort();
            if g2 != want.iter().cloned().collect::<Vec<V>>() { return bad(format!("collection {:?}, expected {:?}", got, want)); }
            take_list(ctx, l, &got)?;
        }
        4 => {
            let l = match outcome(query_builder_execute_tuple(q, &mut e), e)? { Ok(l) => l, Err(e) => return bad(format!("query failed: {}", e)) };
            if l.is_null() != vs.is_empty() { return bad(format!("tuple is null: {}, but there are {} rows", l.is_null(), vs.len())); }
            if !l.is_null() {
                let got: Vec<V> = (*l).iter().map(of_binding).collect();
                if got.len() != 2 || got[0] != V::Ref(e0) || !vs.contains(&got[1]) { return bad(format!("tuple {:?}", got)); }
                take_list(ctx, l, &got)?;
            }
        }
        5 | 7 => {
            let b = match outcome(query_builder_execute_scalar(q, &mut e), e)? { Ok(b) => b, Err(e) => return bad(format!("query failed: {}", e)) };
            let want: BTreeSet<V> = if shape == 5 { vs } else { es.iter().map(|e| V::Ref(*e)).collect() };
            if b.is_null() != want.is_empty() { return bad(format!("scalar is null: {}, but there are {} rows", b.is_null(), want.len())); }
            if !b.is_null() {
                let v = of_binding(&*b);
                if !want.contains(&v) { return bad(format!("scalar {}", v)); }
                take_value(ctx, &v, Read::Binding(b))?;
            }
        }
        _ => {
            let r = outcome(query_builder_execute_scalar(q, &mut e), e)?;
            if r.is_ok() { return bad("a malformed query gives a result"); }
        }
    }
    // once more, for another kind of result
    if shape == 0 && ctx.rng.pct(30) {
        let mut e = err();
        if outcome(query_builder_execute_coll(q, &mut e), e)?.is_ok() { return bad("a relation given as a collection"); }
    }
    query_builder_destroy(q);
    if note { ctx.eval(true, &format!("{} {} {} {:?}", text, e0, v0, rows)); }
    Ok(())
}

unsafe fn lookups(ctx: &mut Ctx, s: &S) -> R {
    let es = user_entities(&s.m);
    for (k, a) in s.m.schema.idents.iter() {
        if !s.m.schema.attrs.contains_key(a) || k.contains('\0') { continue; }
        if !ctx.rng.pct(20) { continue; }
        let got = store_entid_for_attribute(s.st, kwtext(&mut ctx.rng, k).as_ptr());
        if got != *a { return bad(format!("the entity of {} is {}, not {}", k, got, a)); }
        let e = if es.is_empty() || ctx.rng.pct(10) { 12345 } else { *ctx.rng.pick(&es) };
        let vs = s.m.values(e, *a);
        if vs.iter().any(|v| v.text().contains('\0')) { continue; }
        let mut er = err();
        let b = match outcome(store_value_for_attribute(s.st, e, kwtext(&mut ctx.rng, k).as_ptr(), &mut er), er)? { Ok(b) => b, Err(x) => return bad(format!("value of {} {}: {}", e, k, x)) };
        if b.is_null() != vs.is_empty() { return bad(format!("value of {} {} is null: {}, but it has {:?}", e, k, b.is_null(), vs)); }
        if !b.is_null() {
            let v = of_binding(&*b);
            if !vs.contains(&v) { return bad(format!("value of {} {} is {}, but it has {:?}", e, k, v, vs)); }
            take_value(ctx, &v, Read::Binding(b))?;
        }
        ctx.count("lookups");
    }
    // not attributes
    for k in &[":no/such", "no/such", ":foo", "foo", ":a/b/c", "a.b/c", ":db.part/user", ":db/", "/ident", ":db/ident/x", ":db/ident/", ":db.type/string"] {
        if ctx.rng.pct(85) { continue; }
        trace(ctx, format!("unknown attribute {}", k));
        let mut e = err();
        let r = outcome(store_value_for_attribute(s.st, USER0, c(k).as_ptr(), &mut e), e)?;
        if let Ok(p) = r { return bad(format!("no error for the value of {:?} (null: {})", k, p.is_null())); }
        let mut e = err();
        match ctx.rng.below(3) { 0 => store_cache_attribute_forward(s.st, c(k).as_ptr(), &mut e), 1 => store_cache_attribute_reverse(s.st, c(k).as_ptr(), &mut e), _ => store_cache_attribute_bi_directional(s.st, c(k).as_ptr(), &mut e) }
        if void(e).is_ok() { return bad(format!("no error for caching {:?}", k)); }
        ctx.count("unknown_attributes");
    }
    Ok(())
}

unsafe fn cache(ctx: &mut Ctx, s: &S) -> R {
    let ids: Vec<String> = s.m.schema.attrs.keys().filter(|a| **a >= USER0).filter_map(|a| s.m.schema.ident_of(*a).cloned()).collect();
    if ids.is_empty() { return Ok(()); }
    let k = ctx.rng.pick(&ids).clone();
    let w = ctx.rng.below(3);
    trace(ctx, format!("cache {} {}", k, ["forward", "reverse", "both ways"][w]));
    let mut e = err();
    let kc = kwtext(&mut ctx.rng, &k);
    match w { 0 => store_cache_attribute_forward(s.st, kc.as_ptr(), &mut e), 1 => store_cache_attribute_reverse(s.st, kc.as_ptr(), &mut e), _ => store_cache_attribute_bi_directional(s.st, kc.as_ptr(), &mut e) }
    if let Err(x) = void(e) { return bad(format!("cannot cache {}: {}", k, x)); }
    let conn = (*s.st).conn();
    let cc = conn.current_cache();
    let a = s.m.schema.idents[&k];
    use mentat_core::CachedAttributes;
    if !(if w == 0 { cc.is_attribute_cached_forward(a) } else if w == 1 { cc.is_attribute_cached_reverse(a) } else { cc.is_attribute_cached_forward(a) && cc.is_attribute_cached_reverse(a) }) {
        return bad(format!("{} isn't cached {}", k, ["forward", "reverse", "both ways"][w]));
    }
    ctx.count("cached");
    Ok(())
}

const KEYS: [&str; 3] = ["a", "ключ", ""];

unsafe fn observe(ctx: &mut Ctx, s: &mut S) {
    let key = ctx.rng.pick(&KEYS).to_string();
    if ctx.rng.pct(25) {
        trace(ctx, format!("unregister {:?}", key));
        store_unregister_observer(s.st, c(&key).as_ptr());
        s.regs.remove(&key);
        return;
    }
    let all: Vec<i64> = s.m.schema.attrs.keys().cloned().collect();
    let mut attrs: Vec<i64> = vec![];
    for _ in 0..ctx.rng.below(5) { attrs.push(*ctx.rng.pick(&all)); }
    trace(ctx, format!("register {:?} for {:?}", key, attrs));
    store_register_observer(s.st, c(&key).as_ptr(), attrs.as_ptr(), attrs.len(), heard);
    s.regs.insert(key, attrs.into_iter().collect());
    ctx.count("observers");
}

unsafe fn open(ctx: &mut Ctx, path: &str) -> R<*mut Store> {
    trace(ctx, format!("store_open {:?}", path));
    let mut e = err();
    let p = store_open(c(path).as_ptr(), &mut e);
    match outcome(p, e)? { Ok(p) => Ok(p), Err(e) => bad(format!("cannot open the store: {}", e)) }
}

/// Released, and everything observers had to be told was told.
unsafe fn close(ctx: &mut Ctx, s: &mut S) -> R {
    trace(ctx, "store_destroy".into());
    store_destroy(s.st);
    let t0 = Instant::now();
    while Arc::strong_count(&s.alive) > 1 {
        if t0.elapsed() > Duration::from_secs(60) { return bad("a minute after the store was destroyed, observers are still held"); }
        std::thread::sleep(Duration::from_micros(200));
    }
    let got = std::mem::take(&mut *HEARD.lock().unwrap());
    ctx.add("events", got.len() as u64);
    let keys: BTreeSet<String> = got.iter().chain(s.want.iter()).map(|x| x.0.clone()).collect();
    for k in keys {
        let f = |l: &[(String, Vec<(i64, BTreeSet<i64>)>)]| -> Vec<Vec<(i64, BTreeSet<i64>)>> { l.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect() };
        let (g, w) = (f(&got), f(&s.want));
        if g != w {
            let n = g.iter().zip(w.iter()).take_while(|(a, b)| a == b).count();
            return bad(format!("observer {:?}: told {} times, expected {}; first difference: told {:?}, expected {:?}", k, g.len(), w.len(), g.get(n), w.get(n)));
        }
    }
    s.want.clear();
    s.regs.clear();
    Ok(())
}

fn p24(ctx: &mut Ctx) -> R {
    let r = unsafe { run(ctx) };
    HEARD.lock().unwrap().clear();
    if let Some(x) = alloc::complaint() { return bad(format!("memory: {}", x)); }
    r
}

/// Keeps count of the observer worker's life: it's released with the store.
fn witness(st: *mut Store, alive: &Arc<()>) {
    let a = alive.clone();
    unsafe { (*st).register_observer("witness".into(), Arc::new(TxObserver::new(AttributeSet::new(), move |_, _| { let _ = &a; }))); }
}

/// Stores opened, changed and destroyed over and over leave nothing behind.
unsafe fn leftovers(ctx: &mut Ctx) -> R {
    trace(ctx, "stores over and over".into());
    let seed = ctx.rng.u64();
    let mut sizes = vec![];
    for _ in 0..6 {
        let mut e = err();
        let st = match outcome(store_open(c("").as_ptr(), &mut e), e)? { Ok(p) => p, Err(e) => return bad(format!("cannot open the store: {}", e)) };
        let alive = Arc::new(());
        witness(st, &alive);
        let mut rng = crate::rng::Rng::new(seed);
        let mut e = err();
        let r = outcome(store_transact(st, c("[{:db/ident :l/s :db/valueType :db.type/string :db/cardinality :db.cardinality/many} {:db/ident :l/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one}]").as_ptr(), &mut e), e)?;
        match r { Ok(p) => tx_report_destroy(p), Err(e) => return bad(format!("cannot install: {}", e)) }
        for _ in 0..4 {
            let mut e = err();
            let ip = match outcome(store_begin_transaction(st, &mut e), e)? { Ok(p) => p, Err(e) => return bad(format!("cannot begin: {}", e)) };
            let mut e = err();
            let good = rng.pct(70);
            let text = c(if good { "[[:db/add \"t\" :l/s \"x\"]]" } else { "[[:db/add \"t\" :l/s 5]]" });
            match outcome(in_progress_transact(ip, text.as_ptr(), &mut e), std::mem::replace(&mut e, err()))? { Ok(p) => tx_report_destroy(p), Err(_) if !good => {}, Err(e) => return bad(format!("refused: {}", e)) }
            let eb = in_progress_entity_builder_from_temp_id(ip, c("u").as_ptr());
            entity_builder_add_string(eb, c(":l/s").as_ptr(), c("some text").as_ptr(), &mut e);
            if rng.pct(30) { entity_builder_add_long(eb, c(":l/s").as_ptr(), 5, &mut e); }
            entity_builder_add_keyword(eb, c(":l/k").as_ptr(), c(":some/keyword").as_ptr(), &mut e);
            match rng.below(4) {
                0 => entity_builder_destroy(eb),
                1 => { let p = entity_builder_commit(eb, &mut e); if let Ok(p) = outcome(p, std::mem::replace(&mut e, err()))? { tx_report_destroy(p); } }
                n => {
                    let r = entity_builder_transact(eb);
                    if let Ok(p) = outcome(r.tx_report, r.err)? { tx_report_destroy(p); }
                    if n == 2 { in_progress_commit(r.in_progress, &mut e); } else if rng.pct(50) { in_progress_rollback(r.in_progress, &mut e); } else { in_progress_destroy(r.in_progress as *mut _); }
                }
            }
            if let Some(m) = take(e.message) { return bad(format!("error: {}", m)); }
        }
        let q = store_query(st, c("[:find ?v . :where [_ :l/k ?v]]").as_ptr());
        let mut e = err();
        if let Ok(b) = outcome(query_builder_execute_scalar(q, &mut e), e)? { typed_value_destroy(b); }
        query_builder_destroy(q);
        store_destroy(st);
        let t0 = Instant::now();
        while Arc::strong_count(&alive) > 1 {
            if t0.elapsed() > Duration::from_secs(60) { return bad("a minute after the store was destroyed, observers are still held"); }
            std::thread::sleep(Duration::from_micros(200));
        }
        drop(alive);
        std::thread::sleep(Duration::from_millis(2));
        sizes.push(alloc::live());
    }
    if sizes[2..].windows(2).all(|w| w[1] > w[0]) { return bad(format!("live blocks after each store: {:?}", sizes)); }
    ctx.count("rounds_of_stores");
    Ok(())
}

unsafe fn run(ctx: &mut Ctx) -> R {
    let path = if ctx.rng.pct(30) { let p = ctx.file("p24.db"); p.to_str().unwrap().to_string() } else { String::new() };
    if !path.is_empty() { for x in &["", "-wal", "-shm"] { let _ = std::fs::remove_file(format!("{}{}", path, x)); } }
    let st = open(ctx, &path)?;
    limit_work((*st).sqlite_mut());
    let mut rng = ctx.rng.clone();
    let pal = palette(&mut rng);
    ctx.rng = rng;
    let sq: &rusqlite::Connection = (*st).sqlite_mut();
    let log = log_of(sq, 0)?;
    let m = Model::new(facts_of(sq)?, log.clone(), stored_next_user(&log), (*st).conn().last_tx_id() + 1);
    let mut s = S { st, m, regs: BTreeMap::new(), want: vec![], alive: Arc::new(()) };
    let alive = s.alive.clone();
    witness(st, &alive);
    drop(alive);
    let install = pal.install();
    transact_this(ctx, &mut s, &install)?;
    for _ in 0..2 { transact(ctx, &mut s, 0)?; }
    for _ in 0..14 {
        match ctx.rng.weighted(&[14, 34, 26, 10, 6, 8]) {
            0 => transact(ctx, &mut s, 15)?,
            1 => in_progress(ctx, &mut s)?,
            2 => query(ctx, &s, true)?,
            3 => lookups(ctx, &s)?,
            4 => cache(ctx, &s)?,
            _ => observe(ctx, &mut s),
        }
        if let Some(x) = alloc::complaint() { return bad(format!("memory: {}", x)); }
    }
    if ctx.rng.pct(15) { leftovers(ctx)?; }
    // the same reading over and over leaves nothing behind
    if ctx.rng.pct(50) {
        let keep = ctx.rng.clone();
        let mut sizes = vec![];
        for i in 0..6 {
            ctx.rng = keep.clone();
            if i == 0 { trace(ctx, "repeated reading".into()); }
            for _ in 0..3 { query(ctx, &s, false)?; }
            let n = ctx.trace.len();
            ctx.trace.reserve(64);
            lookups(ctx, &s)?;
            ctx.trace.truncate(n);
            sizes.push(alloc::live());
        }
        if sizes[2..].windows(2).all(|w| w[1] > w[0]) { return bad(format!("live blocks after each round of the same reading: {:?}", sizes)); }
        ctx.count("rounds_for_leaks");
    }
    s.agrees()?;
    check_log(s.sql(), &s.m)?;
    close(ctx, &mut s)?;
    if !path.is_empty() {
        s.st = open(ctx, &path)?;
        let alive = s.alive.clone();
        witness(s.st, &alive);
        drop(alive);
        s.agrees()?;
        for _ in 0..2 { query(ctx, &s, true)?; }
        transact(ctx, &mut s, 0)?;
        close(ctx, &mut s)?;
        ctx.count("reopened");
    }
    if ctx.rng.pct(10) {
        let p = format!("{}/no/such/directory/x.db", ctx.scratch.display());
        let mut e = err();
        let r = outcome(store_open(c(&p).as_ptr(), &mut e), e)?;
        if r.is_ok() { return bad("opened a store in a directory that doesn't exist"); }
        ctx.count("failed_opens");
    }
    Ok(())
}
