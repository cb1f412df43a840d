//! P15: values written through every path and read back through every path.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_input::nasty;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat::{Binding, CacheAction, CacheDirection, QueryInputs, QueryResults, Queryable, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P15", rule: "A distinct stored value (attribute kind, write path, value) read back through every read path and found by value.",
            case: p15, quick: (4000, 35), thorough: (400_000, 600), min_nontrivial: 4000, workers: 8,
            assumptions: &["Instants are kept to the microsecond and doubles 0.0 and -0.0 are one value; NaN cannot be stored.",
                "Keywords have the forms the textual format can write."] },
    ]
}

const DAY: i64 = 86_400_000_000;
fn special(rng: &mut Rng, vt: VT, es: &[i64]) -> V {
    let f = |rng: &mut Rng, l: &[i64]| *rng.pick(l);
    match vt {
        VT::Ref => if !es.is_empty() && rng.pct(70) { V::Ref(*rng.pick(es)) } else { V::Ref(*rng.pick(&[0i64, 1, 2, 10, 22, 35, TX0, TX0 + 1])) },
        VT::Bool => V::Bool(rng.pct(50)),
        VT::Long => match rng.below(5) {
            0 => V::Long(f(rng, &[i64::max_value(), i64::min_value(), i64::max_value() - 1, i64::min_value() + 1, 0, 1, -1, 2, (1 << 53) + 1, (1 << 53), -(1 << 53) - 1, 1 << 31, (1 << 31) - 1, 1 << 32, -(1 << 31), 1 << 62])),
            1 => V::Long(rng.range(-3, 12)),
            2 => V::Long((1i64 << rng.below(63)).wrapping_add(rng.range(-1, 2))),
            3 => V::Long(-((1i64 << rng.below(63)).wrapping_add(rng.range(-1, 2)))),
            _ => V::Long(rng.u64() as i64),
        },
        VT::Dbl => match rng.below(5) {
            0 => V::dbl(*rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.30000000000000004, 0.3, 1e15, 1e16, 1e17, 123456789012345680.0, 9007199254740993.0, 9007199254740992.0, 9.223372036854775807e18, 1e21, 1e22, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0 + f64::EPSILON, 2.2250738585072011e-308, 1.7976931348623155e308, std::f64::consts::PI, 1e-7, 1.5e-5])),
            1 => V::dbl(rng.range(-50, 50) as f64 / 4.0),
            2 => if rng.pct(25) { V::dbl(if rng.pct(50) { f64::INFINITY } else { f64::NEG_INFINITY }) } else { V::dbl((rng.u64() as i64) as f64) },
            _ => { let mut d = f64::from_bits(rng.u64()); while d.is_nan() { d = f64::from_bits(rng.u64()); } V::dbl(d) }
        },
        VT::Inst => match rng.below(5) {
            0 => V::Inst(f(rng, &[0, 1, -1, 999_999, -999_999, 1_000_000, -1_000_000, 1_000, 999, -1_001, 59_999_999, DAY - 1, -DAY, -DAY - 1, 951_782_400_000_000, 951_868_799_999_999, 4_107_542_399_999_999, 253_402_300_799_999_999, -62_135_596_800_000_000, -62_167_219_200_000_000, 1_483_228_799_999_999, 1_483_228_800_000_000])),
            1 => V::Inst(rng.range(-62_167_219_200_000_000, 253_402_300_799_999_999)),
            2 => V::Inst(rng.range(-62_167_219_200, 253_402_300_799) * 1_000_000),
            3 => V::Inst(rng.range(-62_167_219_200_000, 253_402_300_799_999) * 1_000),
            _ => V::Inst(1_500_000_000_000_000 + rng.range(-3, 4)),
        },
        VT::Str => match rng.below(6) {
            0 => V::Str(nasty(rng)),
            1 => V::Str(rng.pick(&["", " ", "  ", "a", "A", "á", "a\u{301}", "ß", "ẞ", "ﬁ", "İ", "a ", " a", "1", "1.0", "01", "0x10", "true", "nil", ":k/a", "#inst \"1970-01-01T00:00:00Z\"", "\\n", "\\", "\"", "\u{0}", "a\u{0}", "a\u{0}b", "\u{10FFFF}", "\u{FFFD}", "\u{E000}", "\u{85}", "\u{2028}", ";x", "#_x", "NaN", "1e5", "9223372036854775808"]).to_string()),
            2 => { let n = *rng.pick(&[100usize, 999, 1000, 1001, 70_000]); V::Str(std::iter::repeat(*rng.pick(&["x", "é", "ab'", "\u{1F600}", "%"])).take(n).collect()) }
            3 => { let n = rng.below(12); V::Str((0..n).map(|_| loop { let c = match rng.below(4) { 0 => rng.below(128), 1 => rng.below(0x800), 2 => rng.below(0x1_0000), _ => rng.below(0x11_0000) } as u32; if let Some(c) = std::char::from_u32(c) { break c; } }).collect()) }
            _ => V::Str(sentence(rng)),
        },
        VT::Kw => match rng.below(4) {
            0 => V::Kw(rng.pick(&[":a/b", ":a.b/c", ":a/b-c", ":A/b", ":a/B", ":a.b.c/d", ":db/ident", ":db.type/ref", ":x", ":a", ":0/0", ":a/*", ":a/!", ":a/?", ":a/$v", ":a/%", ":a/&", ":a/=", ":a/<", ":a/>", ":_a/b", ":a-b+c/d-e+f", ":true", ":nil/nil", ":a/true", ":a/nil"]).to_string()),
            _ => {
                const I: &[u8] = b"abzAZ09*!_?$%&=<>";
                const S: &[u8] = b"abzAZ09*!_?$%&=<>+-";
                let mut part = |rng: &mut Rng, dots: bool| { let mut s = String::new(); s.push(*rng.pick(I) as char); for _ in 0..rng.below(6) { s.push(*rng.pick(S) as char); } if dots { for _ in 0..rng.below(3) { s.push('.'); s.push(*rng.pick(S) as char); } } s };
                let n = part(rng, false);
                if rng.pct(80) { let ns = part(rng, true); V::Kw(format!(":{}/{}", ns, n)) } else { V::Kw(format!(":{}", n)) }
            }
        },
        VT::Uuid => { let mut u = [0u8; 16]; match rng.below(4) { 0 => (), 1 => u = [0xff; 16], 2 => u[rng.below(16)] = 1 << rng.below(8), _ => for b in u.iter_mut() { *b = rng.u64() as u8; } } V::Uuid(u) }
    }
}

const ATTRS: [(&str, VT, &str); 21] = [
    (":v/ref", VT::Ref, ""), (":v/refs", VT::Ref, "m"), (":v/bool", VT::Bool, ""), (":v/bools", VT::Bool, "m"),
    (":v/long", VT::Long, ""), (":v/longs", VT::Long, "mi"), (":v/ulong", VT::Long, "u"), (":v/dbl", VT::Dbl, ""), (":v/dbls", VT::Dbl, "mi"), (":v/udbl", VT::Dbl, "u"),
    (":v/inst", VT::Inst, "i"), (":v/insts", VT::Inst, "m"), (":v/uinst", VT::Inst, "u"), (":v/str", VT::Str, ""), (":v/strs", VT::Str, "m"), (":v/ustr", VT::Str, "u"),
    (":v/ft", VT::Str, "fi"), (":v/kw", VT::Kw, ""), (":v/kws", VT::Kw, "m"), (":v/uuid", VT::Uuid, "i"), (":v/uuuid", VT::Uuid, "u"),
];

struct St { real: Real, ids: BTreeMap<&'static str, i64>, have: BTreeMap<(i64, &'static str), BTreeSet<V>> }

fn scalar_of(r: QueryResults) -> R<Option<V>> { match r { QueryResults::Scalar(None) => Ok(None), QueryResults::Scalar(Some(Binding::Scalar(v))) => Ok(Some(V::of(&v))), _ => bad("not a scalar") } }
fn coll_of(r: QueryResults) -> R<BTreeSet<V>> {
    match r {
        QueryResults::Coll(c) => { let mut s = BTreeSet::new(); for b in &c { match b { Binding::Scalar(v) => { if !s.insert(V::of(v)) { return bad(format!("{} is found twice", V::of(v))); } } _ => return bad("not a value") } } Ok(s) }
        _ => bad("not a collection"),
    }
}
fn ask(st: &St, text: &str) -> R<QueryResults> { match st.real.q(text)? { Ok(r) => Ok(r), Err(e) => bad(format!("refused {}: {}", cut(text), e)) } }
fn ask_in(st: &St, text: &str, ins: Vec<(&str, V)>) -> R<QueryResults> {
    let i = QueryInputs::with_value_sequence(ins.iter().map(|(k, v)| (Variable::from_valid_name(k), v.typed())).collect());
    match call(text, || st.real.conn.q_once(&st.real.sqlite, text, i).map(|o| o.results).map_err(|e| e.to_string()))? { Ok(r) => Ok(r), Err(e) => bad(format!("refused {} with an input: {}", cut(text), e)) }
}
fn cut(s: &str) -> String { if s.len() < 200 { s.to_string() } else { format!("{}…", s.chars().take(150).collect::<String>()) } }
fn show(v: &BTreeSet<V>) -> String { cut(&format!("{{{}}}", v.iter().map(|v| cut(&v.to_string())).collect::<Vec<_>>().join(" "))) }

/// Every way of taking a value apart: by its own type it gives what it is, by any other nothing.
fn taken_apart(b: &Binding) -> Result<(), String> {
    let tv = match b { Binding::Scalar(tv) => tv, _ => return Err(format!("{:?} is no scalar", b)) };
    let v = V::of(tv);
    let micros = |t: chrono::DateTime<chrono::Utc>| V::Inst(inst_micros(&t));
    let bytes = |u: uuid::Uuid| V::Uuid(*u.as_bytes());
    let parts: Vec<(&str, VT, Vec<Option<V>>)> = vec![
        ("entid", VT::Ref, vec![tv.clone().into_entid().map(V::Ref), b.clone().into_entid().map(V::Ref), b.as_entid().map(|x| V::Ref(*x)), tv.clone().into_known_entid().map(|x| V::Ref(x.into())), b.clone().into_known_entid().map(|x| V::Ref(x.into()))]),
        ("boolean", VT::Bool, vec![tv.clone().into_boolean().map(V::Bool), b.clone().into_boolean().map(V::Bool), b.as_boolean().map(|x| V::Bool(*x))]),
        ("long", VT::Long, vec![tv.clone().into_long().map(V::Long), b.clone().into_long().map(V::Long), b.as_long().map(|x| V::Long(*x))]),
        ("double", VT::Dbl, vec![tv.clone().into_double().map(V::dbl), b.clone().into_double().map(V::dbl), b.as_double().map(|x| V::dbl(*x))]),
        ("instant", VT::Inst, vec![tv.clone().into_instant().map(micros), b.clone().into_instant().map(micros), b.as_instant().map(|t| micros(*t))]),
        ("string", VT::Str, vec![tv.clone().into_string().map(|s| V::Str(s.to_string())), b.clone().into_string().map(|s| V::Str(s.to_string())), b.as_string().map(|s| V::Str(s.to_string()))]),
        ("keyword", VT::Kw, vec![tv.clone().into_kw().map(|k| V::Kw(k.to_string())), b.clone().into_kw().map(|k| V::Kw(k.to_string())), b.as_kw().map(|k| V::Kw(k.to_string()))]),
        ("uuid", VT::Uuid, vec![tv.clone().into_uuid().map(bytes), b.clone().into_uuid().map(bytes), b.as_uuid().map(|u| bytes(*u))]),
    ];
    for (what, vt, got) in parts {
        let want = if v.vt() == vt { Some(v.clone()) } else { None };
        for (i, g) in got.iter().enumerate() { if *g != want { return Err(format!("{:?} as {} ({}) is {:?}", tv, what, i, g)); } }
    }
    let text = if let V::Uuid(u) = &v { Some(uuid_text(u)) } else { None };
    if tv.clone().into_uuid_string() != text || b.clone().into_uuid_string() != text { return Err(format!("{:?} as the text of a uuid is {:?}", tv, tv.clone().into_uuid_string())); }
    let seconds = if let V::Inst(us) = &v { Some(us.div_euclid(1_000_000)) } else { None };
    if tv.clone().into_timestamp() != seconds || b.clone().into_timestamp() != seconds { return Err(format!("{:?} as a timestamp is {:?}", tv, tv.clone().into_timestamp())); }
    for vt in ALL_VT.iter() {
        let t = vt.core();
        let own = *vt == v.vt();
        if tv.matches_type(t) != own || b.matches_type(t) != own || tv.is_congruent_with(t) != own || b.is_congruent_with(t) != own || (tv.value_type() == t) != own || (b.value_type() == Some(t)) != own { return Err(format!("{:?} is wrongly of type {} or not", tv, t)); }
    }
    if !tv.is_congruent_with(None) || !b.is_congruent_with(None) { return Err(format!("{:?} is not of any type", tv)); }
    if b.clone().into_scalar().as_ref() != Some(tv) || b.as_scalar() != Some(tv) || b.as_vec().is_some() || b.as_map().is_some() || b.clone().into_vec().is_some() || b.clone().into_map().is_some() { return Err(format!("{:?} is not a scalar alone", tv)); }
    Ok(())
}

fn check(ctx: &mut Ctx, st: &St, e: i64, a: &'static str, full: bool, when: &str) -> R {
    let want = match st.have.get(&(e, a)) { Some(w) => w.clone(), None => BTreeSet::new() };
    let fail = |what: &str, got: String| -> R { bad(format!("{}: {} of {} {} gives {}, written was {}", when, what, e, a, got, show(&want))) };
    let id = st.ids[a];
    let got = coll_of(ask(st, &format!("[:find [?v ...] :where [{} {} ?v]]", e, a))?)?;
    if got != want { return fail("query", show(&got)); }
    let one = ask(st, &format!("[:find ?v . :where [{} {} ?v]]", e, a))?;
    if let QueryResults::Scalar(Some(b)) = &one { if let Err(x) = taken_apart(b) { return fail("scalar query", x); } }
    let one = scalar_of(one)?;
    if one.as_ref().map_or(!want.is_empty(), |v| !want.contains(v)) { return fail("scalar query", format!("{:?}", one)); }
    let got: BTreeSet<V> = match call("lookup", || st.real.conn.lookup_values_for_attribute(&st.real.sqlite, e, &kw(a)).map(|v| v.iter().map(V::of).collect()).map_err(|e| e.to_string()))? { Ok(v) => v, Err(x) => return fail("lookup", x) };
    if got != want { return fail("lookup", show(&got)); }
    let got: Option<V> = match call("lookup", || st.real.conn.lookup_value_for_attribute(&st.real.sqlite, e, &kw(a)).map(|v| v.as_ref().map(V::of)).map_err(|e| e.to_string()))? { Ok(v) => v, Err(x) => return fail("lookup", x) };
    if got.as_ref().map_or(!want.is_empty(), |v| !want.contains(v)) { return fail("lookup of one", format!("{:?}", got)); }
    let got: BTreeSet<V> = match call("pull", || st.real.conn.pull_attributes_for_entity(&st.real.sqlite, e, vec![id]).map_err(|e| e.to_string()))? {
        Err(x) => return fail("pull", x),
        Ok(m) => { let mut s = BTreeSet::new(); for (k, b) in m.0.iter() { if k.to_string() != a { return fail("pull", k.to_string()); } match b { Binding::Scalar(v) => { s.insert(V::of(v)); } Binding::Vec(vs) => for b in vs.iter() { if let Binding::Scalar(v) = b { s.insert(V::of(v)); } }, _ => return fail("pull", "a map".into()) } } s }
    };
    if got != want { return fail("pull", show(&got)); }
    ctx.count("reads");
    if !full { return Ok(()); }
    // untyped
    let got: BTreeSet<V> = rel_rows(&ask(st, &format!("[:find ?a ?v :where [{} ?a ?v]]", e))?).unwrap_or_default().into_iter().filter(|r| r[0] == V::Ref(id)).map(|r| r[1].clone()).collect();
    if got != want { return fail("untyped query", show(&got)); }
    // found by value
    for v in want.iter().take(3) {
        let holders: BTreeSet<V> = st.have.iter().filter(|((_, b), vs)| *b == a && vs.contains(v)).map(|((e, _), _)| V::Ref(*e)).collect();
        let text = format!("[:find [?e ...] :where [?e {} {}]]", a, v.text());
        let got = coll_of(ask(st, &text)?)?;
        if got != holders { return bad(format!("{}: {} finds {}, {} hold it", when, cut(&text), show(&got), show(&holders))); }
        let text = format!("[:find [?e ...] :in ?val :where [?e {} ?val]]", a);
        let got = coll_of(ask_in(st, &text, vec![("?val", v.clone())])?)?;
        if got != holders { return bad(format!("{}: {} with {} finds {}, {} hold it", when, text, cut(&v.to_string()), show(&got), show(&holders))); }
        if let V::Long(_) | V::Ref(_) | V::Kw(_) = v { } else {
            let text = format!("[:find [?x ...] :where [?x _ {}] [?x {} {}]]", v.text(), a, v.text());
            let got = coll_of(ask(st, &text)?)?;
            if got != holders { return bad(format!("{}: {} finds {}, {} hold it", when, cut(&text), show(&got), show(&holders))); }
        }
        // unifies with itself under every attribute of the type
        let vt = v.vt();
        for (b, bt, _) in ATTRS.iter().filter(|x| x.1 == vt) {
            if !ctx.rng.pct(35) { continue; }
            let _ = bt;
            let both: BTreeSet<V> = st.have.iter().filter(|((_, c), vs)| c == b && vs.contains(v)).map(|((e, _), _)| V::Ref(*e)).collect();
            let text = format!("[:find [?y ...] :in ?one ?ref :where [?one {} ?v] [?y {} ?v]]", a, b);
            let text = text.replace(" ?ref", "");
            let got = coll_of(ask_in(st, &text, vec![("?one", V::Ref(e))])?)?;
            let all: BTreeSet<V> = st.have.iter().filter(|((_, c), vs)| c == b && vs.intersection(&want).next().is_some()).map(|((e, _), _)| V::Ref(*e)).collect();
            if got != all { return bad(format!("{}: {} with {} unifies with {}, {} hold an equal value", when, text, e, show(&got), show(&all))); }
            let _ = both;
            ctx.count("unifications");
        }
        ctx.count("found_by_value");
    }
    Ok(())
}

fn write(ctx: &mut Ctx, st: &mut St, items: &[(i64, &'static str, V, bool)]) -> R<Result<i64, String>> {
    let builder = ctx.rng.pct(45);
    if builder {
        for (e, a, v, add) in items { ctx.note(format!("build {} {} {} {}", if *add { "add" } else { "retract" }, e, a, cut(&v.to_string()))); }
        let mut b = TermBuilder::new();
        for (e, a, v, add) in items {
            use mentat::KnownEntid;
            // sub-microsecond noise must not matter
            let tv = match v { V::Inst(_) => match v.typed() { mentat::TypedValue::Instant(t) => mentat::TypedValue::Instant(t + chrono::Duration::nanoseconds(ctx.rng.below(1000) as i64)), x => x }, v => v.typed() };
            let r = if *add { b.add(KnownEntid(*e), kw(a), tv) } else { b.retract(KnownEntid(*e), kw(a), tv) };
            if let Err(x) = r { return bad(format!("cannot build: {}", x)); }
        }
        let sq = &mut st.real.sqlite;
        let conn = &mut st.real.conn;
        call("transact builder", || { let mut ip = conn.begin_transaction(sq).map_err(|e| e.to_string())?; let r = ip.transact_builder(b).map_err(|e| e.to_string())?; ip.commit().map_err(|e| e.to_string())?; Ok(r.tx_id) })
    } else {
        let text = format!("[{}]", items.iter().map(|(e, a, v, add)| format!("[:db/{} {} {} {}]", if *add { "add" } else { "retract" }, e, a, v.text())).collect::<Vec<_>>().join("\n "));
        ctx.note(format!("transact {}", cut(&text)));
        Ok(st.real.transact(&text)?.map(|r| r.tx_id))
    }
}

fn p15(ctx: &mut Ctx) -> R {
    let file = ctx.rng.pct(50);
    let path = ctx.file("p15.db");
    let mut real = if file { Real::open_path(&path)? } else { Real::memory()? };
    let mut t = String::from("[");
    for (i, (k, vt, f)) in ATTRS.iter().enumerate() {
        t += &format!("{{:db/id \"a{}\" :db/ident {} :db/valueType {} :db/cardinality {}", i, k, vt.kw(), if f.contains('m') { ":db.cardinality/many" } else { ":db.cardinality/one" });
        if f.contains('u') { t += " :db/unique :db.unique/value :db/index true"; }
        if f.contains('i') { t += " :db/index true"; }
        if f.contains('f') { t += " :db/fulltext true"; }
        t += "}\n";
    }
    t += "]";
    let r = match real.transact(&t)? { Ok(r) => r, Err(e) => return bad(format!("cannot install: {}", e)) };
    let ids: BTreeMap<&'static str, i64> = ATTRS.iter().enumerate().map(|(i, a)| (a.0, r.temps[&format!("a{}", i)])).collect();
    let n = 14;
    let t = format!("[{}]", (0..n).map(|i| format!("[:db/add \"e{}\" :db/doc \"entity\"]", i)).collect::<Vec<_>>().join(" "));
    let r = match real.transact(&t)? { Ok(r) => r, Err(e) => return bad(format!("cannot allocate: {}", e)) };
    let es: Vec<i64> = (0..n).map(|i| r.temps[&format!("e{}", i)]).collect();
    let mut st = St { real, ids, have: BTreeMap::new() };
    let mut log: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>> = BTreeMap::new();
    for round in 0..7 {
        if round > 0 && ctx.rng.pct(25) {
            let a = ctx.rng.pick(&ATTRS).0;
            ctx.note(format!("cache {}", a));
            let schema = st.real.conn.current_schema();
            let _ = call("cache", || st.real.conn.cache(&mut st.real.sqlite, &schema, &kw(a), CacheDirection::Both, CacheAction::Register).map_err(|e| e.to_string()))?;
        }
        // A few writes that do not contradict each other.
        let mut items: Vec<(i64, &'static str, V, bool)> = vec![];
        let mut touched: BTreeSet<(i64, &'static str)> = BTreeSet::new();
        let mut uniq: BTreeSet<(&'static str, V)> = BTreeSet::new();
        for _ in 0..1 + ctx.rng.below(14) {
            let (a, vt, f) = *ctx.rng.pick(&ATTRS);
            let e = *ctx.rng.pick(&es);
            if !touched.insert((e, a)) && !f.contains('m') { continue; }
            let held = st.have.get(&(e, a)).cloned().unwrap_or_default();
            if !held.is_empty() && ctx.rng.pct(20) { let v = held.iter().next().unwrap().clone(); if !items.iter().any(|x| x.0 == e && x.1 == a && x.2 == v) { items.push((e, a, v, false)); } continue; }
            let mut v = special(&mut ctx.rng, vt, &es);
            if ctx.rng.pct(25) { let all: Vec<V> = st.have.values().flat_map(|s| s.iter()).filter(|v| v.vt() == vt).cloned().collect(); if !all.is_empty() { v = ctx.rng.pick(&all).clone(); } }
            if let (V::Str(s), true) = (&v, f.contains('f')) { if s.len() > 5000 { continue; } }
            if f.contains('u') && (st.have.iter().any(|((x, b), vs)| *b == a && *x != e && vs.contains(&v)) || !uniq.insert((a, v.clone()))) { continue; }
            if items.iter().any(|x| x.0 == e && x.1 == a && (x.2 == v || !f.contains('m'))) { continue; }
            items.push((e, a, v, true));
        }
        if items.is_empty() { continue; }
        let tx = match write(ctx, &mut st, &items)? { Ok(t) => t, Err(e) => return bad(format!("refused to store: {}", e)) };
        for (e, a, v, add) in &items {
            let s = st.have.entry((*e, a)).or_default();
            let l = log.entry(tx).or_default();
            let id = st.ids[a];
            if *add {
                if s.contains(v) { continue; }
                if !ATTRS.iter().find(|x| x.0 == *a).unwrap().2.contains('m') { for old in s.iter() { l.insert((*e, id, old.clone(), false)); } s.clear(); }
                s.insert(v.clone());
                l.insert((*e, id, v.clone(), true));
            } else if s.remove(v) { l.insert((*e, id, v.clone(), false)); }
        }
        for (e, a, _, _) in &items { check(ctx, &st, *e, a, true, "after writing")?; }
        for (e, a, v, add) in &items { if *add { ctx.eval(true, &format!("{}|{}|{}", a, file, v)); } let _ = e; }
        // Writing the same again changes nothing.
        if ctx.rng.pct(30) {
            let again: Vec<(i64, &'static str, V, bool)> = items.iter().filter(|x| x.3).cloned().collect();
            if !again.is_empty() {
                let before = st.real.facts()?;
                let tx = match write(ctx, &mut st, &again)? { Ok(t) => t, Err(e) => return bad(format!("refused to repeat: {}", e)) };
                let mut after = st.real.facts()?;
                after.retain(|k, _| k.0 != tx);
                if let Some(d) = diff_facts(&before, &after) { return bad(format!("repeating values changed facts: {}", d)); }
                ctx.count("repeated_writes");
            }
        }
        // The log.
        if ctx.rng.pct(50) {
            let want: BTreeSet<(i64, i64, V, bool)> = log[&tx].clone();
            let full: BTreeSet<(i64, i64, V, bool)> = { let mut s = BTreeSet::new(); for (t, l) in st.real.log()? { if t == tx { for f in l.iter() { s.insert(f.clone()); } } } s };
            let full: BTreeSet<_> = full.into_iter().filter(|f| f.0 != tx).collect();
            if full != want { return bad(format!("the log of {} holds {:?}, written was {:?}", tx, full, want)); }
            let ft = st.ids[":v/ft"];
            if !want.iter().any(|w| w.1 == ft) {
                let r = ask_in(&st, "[:find ?e ?a ?v ?op :in ?t :where [(tx-data $ ?t) [[?e ?a ?v _ ?op]]]]", vec![("?t", V::Ref(tx))])?;
                let got: BTreeSet<(i64, i64, V, bool)> = rel_rows(&r).unwrap_or_default().into_iter().filter_map(|r| match (&r[0], &r[1], &r[3]) { (V::Ref(e), V::Ref(a), V::Bool(o)) if *e != tx => Some((*e, *a, r[2].clone(), *o)), _ => None }).collect();
                if got != want { return bad(format!("tx-data of {} gives {:?}, written was {:?}", tx, got, want)); }
                ctx.count("log_reads");
            }
        }
        if file && ctx.rng.pct(30) {
            ctx.note("reopen");
            let mut r = Real::open_path(&path)?;
            std::mem::swap(&mut st.real, &mut r);
            drop(r);
            let keys: Vec<(i64, &'static str)> = st.have.keys().cloned().collect();
            for (e, a) in keys { check(ctx, &st, e, a, false, "after reopening")?; }
            ctx.count("reopened");
        }
    }
    let keys: Vec<(i64, &'static str)> = st.have.keys().cloned().collect();
    for (e, a) in keys { let full = ctx.rng.pct(30); check(ctx, &st, e, a, full, "at the end")?; }
    // What has no place in the store.
    if ctx.rng.pct(30) {
        let before = dump(&st.real.sqlite)?;
        let bads = ["#f NaN", "9223372036854775808", "1N"];
        let b = *ctx.rng.pick(&bads);
        let a = if b == "#f NaN" { ":v/dbl" } else { ":v/long" };
        let text = format!("[[:db/add {} {} {}]]", es[0], a, b);
        ctx.note(format!("transact {}", text));
        if st.real.transact(&text)?.is_ok() { return bad(format!("{} was stored", b)); }
        if let Some(d) = diff_lines(&before, &dump(&st.real.sqlite)?) { return bad(format!("refusing {} changed the store: {}", b, d)); }
    }
    Ok(())
}
