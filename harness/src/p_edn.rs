//! P16: the EDN reader and printers against our own writer, and hostile texts.
use crate::fw::*;
use crate::p_input::nasty;
use crate::p_query::populated;
use crate::val::*;
use mentat::{QueryInputs, Queryable, Variable};
use crate::rng::Rng;
use edn::{SpannedValue, ValueAndSpan, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P16", rule: "A distinct text that was read as data, a transaction or a query; accepted data compared with the value it was written from and printed and read again.",
            case: p16, quick: (6000, 30), thorough: (1_000_000, 600), min_nontrivial: 20_000, workers: 8,
            assumptions: &["Texts nest at most 60 levels deep, apart from one directed input: the reader is recursive.",
                "A map or set does not repeat a key or element in the texts compared; instants are not leap seconds."] },
    ]
}

#[derive(Clone, Debug)]
enum T {
    Nil, Bool(bool), Int(i64), Big(String), Flt(f64), Str(String), Uuid(u128), Inst(i64, u32),
    Sym(String), Key(String), Vec(Vec<T>), List(Vec<T>), Set(Vec<T>), Map(Vec<(T, T)>),
}

fn canon(t: &T) -> String {
    match t {
        T::Nil => "nil".into(),
        T::Bool(b) => format!("b{}", b),
        T::Int(i) => format!("i{}", i),
        T::Big(s) => format!("N{}", s),
        T::Flt(f) => format!("f{:?}", f),
        T::Str(s) => format!("s{:?}", s),
        T::Uuid(u) => format!("u{:032x}", u),
        T::Inst(s, n) => format!("t{}.{}", s, n),
        T::Sym(s) => format!("y{}", s),
        T::Key(s) => format!("k{}", s),
        T::Vec(v) => format!("[{}]", v.iter().map(canon).collect::<Vec<_>>().join(" ")),
        T::List(v) => format!("({})", v.iter().map(canon).collect::<Vec<_>>().join(" ")),
        T::Set(v) => { let mut v: Vec<_> = v.iter().map(canon).collect(); v.sort(); format!("#{{{}}}", v.join(" ")) }
        T::Map(v) => { let mut v: Vec<_> = v.iter().map(|(k, v)| format!("{} {}", canon(k), canon(v))).collect(); v.sort(); format!("{{{}}}", v.join(", ")) }
    }
}
fn read_atom(v: &Value) -> T {
    match v {
        Value::Nil => T::Nil,
        Value::Boolean(b) => T::Bool(*b),
        Value::Integer(i) => T::Int(*i),
        Value::BigInteger(b) => T::Big(b.to_string()),
        Value::Float(f) => T::Flt(f.into_inner()),
        Value::Text(s) => T::Str(s.clone()),
        Value::Uuid(u) => T::Uuid(u.as_u128()),
        Value::Instant(t) => { let (s, n) = (t.timestamp(), t.timestamp_subsec_nanos()); T::Inst(s + i64::from(n / 1_000_000_000), n % 1_000_000_000) }
        Value::PlainSymbol(s) => T::Sym(s.to_string()),
        Value::NamespacedSymbol(s) => T::Sym(format!("{}/{}", s.namespace(), s.name())),
        Value::Keyword(k) => T::Key(match k.namespace() { Some(n) => format!("{}/{}", n, k.name()), None => k.name().to_string() }),
        Value::Vector(v) => T::Vec(v.iter().map(read_atom).collect()),
        Value::List(v) => T::List(v.iter().map(read_atom).collect()),
        Value::Set(v) => T::Set(v.iter().map(read_atom).collect()),
        Value::Map(v) => T::Map(v.iter().map(|(k, v)| (read_atom(k), read_atom(v))).collect()),
    }
}

const I: &[u8] = b"abzAZ09*!_?$%&=<>";
const S: &[u8] = b"abzAZ09*!_?$%&=<>+-";
fn name(rng: &mut Rng, first: &[u8]) -> String {
    let mut s = String::new();
    s.push(*rng.pick(first) as char);
    for _ in 0..rng.below(5) { s.push(*rng.pick(S) as char); }
    s
}
fn namespace(rng: &mut Rng, first: &[u8]) -> String {
    let mut s = name(rng, first);
    for _ in 0..rng.weighted(&[6, 2, 1]) { s.push('.'); for _ in 0..1 + rng.below(4) { s.push(*rng.pick(S) as char); } }
    s
}

fn text_of(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => nasty(rng),
        1 => { let n = rng.below(8); (0..n).map(|_| loop { let c = match rng.below(4) { 0 => rng.below(128), 1 => rng.below(0x800), 2 => rng.below(0x1_0000), _ => rng.below(0x11_0000) } as u32; if let Some(c) = std::char::from_u32(c) { break c; } }).collect() }
        2 => { let n = rng.below(6); (0..n).map(|_| *rng.pick(&['\\', '"', 'n', 't', 'r', '\n', '\t', '\r', ';', ',', ' '])).collect() }
        _ => rng.pick(&["", "a", "hello world", "\\n", "[1 2]", ":a/b", ";c", "#_", "\\\\", "\\\""]).to_string(),
    }
}

fn atom(rng: &mut Rng) -> T {
    match rng.below(14) {
        0 => T::Nil,
        1 => T::Bool(rng.pct(50)),
        2 => T::Int(rng.range(-100, 100)),
        3 => T::Int(match rng.below(3) { 0 => *rng.pick(&[i64::max_value(), i64::min_value(), i64::max_value() - 1]), 1 => rng.u64() as i64, _ => (1i64 << rng.below(63)) - 1 }),
        4 => T::Big(match rng.below(3) {
            0 => rng.pick(&["0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "340282366920938463463374607431768211457"]).to_string(),
            1 => (rng.u64() as i64).to_string(),
            _ => { let n = 1 + rng.below(60); let mut s: String = if rng.pct(50) { "-".into() } else { String::new() }; s.push((b'1' + rng.below(9) as u8) as char); for _ in 0..n { s.push((b'0' + rng.below(10) as u8) as char); } s }
        }),
        5 => T::Flt(match rng.below(4) {
            0 => *rng.pick(&[0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0]),
            1 => rng.range(-50, 50) as f64 / 4.0 + 0.0,
            _ => { let mut d = f64::from_bits(rng.u64()); while d.is_nan() || d == 0.0 { d = f64::from_bits(rng.u64()); } d }
        }),
        6 | 7 => T::Str(text_of(rng)),
        8 => T::Uuid(if rng.pct(20) { *rng.pick(&[0, u128::max_value(), 1]) } else { (rng.u64() as u128) << 64 | rng.u64() as u128 }),
        9 => { // years 0000 to 9999 in the RFC form, any others in the others
            let s = if rng.pct(80) { rng.range(-62_167_219_200, 253_402_300_799) } else { rng.range(-8_000_000_000_000, 8_000_000_000_000) };
            let n = match rng.below(5) { 0 => 0, 1 => rng.below(1000) as u32 * 1_000_000, 2 => rng.below(1_000_000) as u32 * 1000, 3 => *rng.pick(&[1u32, 999_999_999, 999_999_000, 1_000]), _ => rng.below(1_000_000_000) as u32 };
            let n = if s < -62_167_219_200 || s > 253_402_300_799 { n / 1000 * 1000 } else { n };
            T::Inst(s, n)
        }
        10 | 11 => T::Sym(match rng.below(6) {
            0 => rng.pick(&["...", ".", "nilly", "nil?", "truest", "true?", "falsehood", "false-", "nil*", "true/false", "nil/nil", "nil.x/a", "a/nil", "a/...", "a/.", "_", "$", "?x", "?x-y", "<=", "!=", "=", "*", "&", "%", "e", "E", "N", "r", "x", "a/b", "a.b/c", "a.b.c/d", "e1", "!"]).to_string(),
            1 => format!("{}/{}", namespace(rng, b"abz*!_?$%&=<>"), name(rng, I)),
            _ => name(rng, b"abz*!_?$%&=<>"),
        }),
        _ => T::Key(match rng.below(4) {
            0 => rng.pick(&["a", "nil", "true", "0", "1/2", "a/b", "a.b/c", "a/_b", "_a", "db/id", "a-b+c/d-e+f", "a.-b/c", "0.1/2"]).to_string(),
            1 => name(rng, I),
            _ => format!("{}/{}", namespace(rng, I), name(rng, I)),
        }),
    }
}
fn value(rng: &mut Rng, depth: usize) -> T {
    if depth == 0 || rng.pct(35) { return atom(rng); }
    let n = rng.weighted(&[1, 3, 4, 3, 2, 1]);
    let mut uniq = |rng: &mut Rng, n: usize| {
        let mut m: BTreeMap<String, T> = BTreeMap::new();
        for _ in 0..n { let t = value(rng, depth - 1); m.insert(canon(&t), t); }
        let mut v: Vec<T> = m.into_iter().map(|x| x.1).collect();
        rng.shuffle(&mut v);
        v
    };
    match rng.below(5) {
        0 | 1 => T::Vec((0..n).map(|_| value(rng, depth - 1)).collect()),
        2 => T::List((0..n).map(|_| value(rng, depth - 1)).collect()),
        3 => T::Set(uniq(rng, n)),
        _ => { let ks = uniq(rng, n); T::Map(ks.into_iter().map(|k| { let v = value(rng, depth - 1); (k, v) }).collect()) }
    }
}

/// Something that separates tokens; empty only where `need` is false.
fn sep(rng: &mut Rng, out: &mut String, need: bool, plain: bool) {
    if plain { if need { out.push(' '); } return; }
    let before = out.len();
    for _ in 0..rng.weighted(&[8, 6, 2, 1]) {
        match rng.below(9) {
            0 => out.push('\n'), 1 => out.push('\t'), 2 => out.push_str("\r\n"), 3 => out.push(','), 4 => out.push_str(" , "),
            5 => { out.push_str("; "); let c = rng.pick(&["comment", "[", "\"", "", ")", "}}", "日本", ";;", "#inst", "\t'"]).to_string(); out.push_str(&c); out.push(*rng.pick(&['\n', '\r'])); }
            _ => out.push(' '),
        }
    }
    if need && out.len() == before { out.push(' '); }
}
fn blank(rng: &mut Rng, plain: bool) -> String { let mut s = String::new(); sep(rng, &mut s, true, plain); if s.trim_start_matches(|c| " \n\t\r,".contains(c)).is_empty() { s } else { " ".into() } }

fn esc(rng: &mut Rng, s: &str, plain: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            '\n' if !plain && rng.pct(50) => o.push_str("\\n"),
            '\t' if !plain && rng.pct(50) => o.push_str("\\t"),
            '\r' if !plain && rng.pct(50) => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Days to a civil date (proleptic Gregorian).
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

fn inst(rng: &mut Rng, s: i64, n: u32, plain: bool) -> String {
    let b = blank(rng, plain);
    let rfc_ok = |s: i64| s >= -62_167_219_200 && s <= 253_402_300_799;
    if n % 1_000_000 == 0 && rng.pct(20) { return format!("#instmillis{}{}", b, s as i128 * 1000 + (n / 1_000_000) as i128); }
    if n % 1000 == 0 && (rng.pct(20) || !rfc_ok(s)) { return format!("#instmicros{}{}", b, s as i128 * 1_000_000 + (n / 1000) as i128); }
    let (off, tz) = if rng.pct(60) { (0, "Z".to_string()) } else {
        let m = rng.range(-23 * 60 - 59, 23 * 60 + 59);
        if rfc_ok(s + m * 60) { (m * 60, format!("{}{:02}:{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60)) } else { (0, "Z".into()) }
    };
    let l = s + off;
    let (y, mo, d) = civil(l.div_euclid(86_400));
    let t = l.rem_euclid(86_400);
    let mut frac = if n == 0 && rng.pct(70) { String::new() } else { let mut f = format!("{:09}", n); while f.len() > 1 && f.ends_with('0') && rng.pct(70) { f.pop(); } if rng.pct(10) { f.push_str("00"); } format!(".{}", f) };
    if frac == "." { frac.clear(); }
    format!("#inst{}\"{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}\"", b, y, mo, d, t / 3600, t / 60 % 60, t % 60, frac, tz)
}

fn radix(mut n: u64, r: u64, upper: bool) -> String {
    let mut s = vec![];
    loop { let d = (n % r) as u8; s.push(if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 }); n /= r; if n == 0 { break; } }
    s.reverse();
    String::from_utf8(s).unwrap()
}

fn float_text(rng: &mut Rng, f: f64, plain: bool) -> String {
    if f.is_nan() { return format!("#f{}NaN", blank(rng, plain)); }
    if f == f64::INFINITY { return format!("#f{}+Infinity", blank(rng, plain)); }
    if f == f64::NEG_INFINITY { return format!("#f{}-Infinity", blank(rng, plain)); }
    let mut forms = vec![format!("{:e}", f), format!("{:E}", f)];
    if f.abs() < 1e40 && f.abs() > 1e-40 || f == 0.0 { let s = format!("{}", f); forms.push(if s.contains('.') { s } else { format!("{}.0", s) }); }
    let s = rng.pick(&forms).clone();
    let s = if rng.pct(15) { match s.find(|c| c == 'e' || c == 'E') { Some(i) if !s[i + 1..].starts_with('-') => format!("{}+{}", &s[..i + 1], &s[i + 1..]), _ => s } } else { s };
    if !s.starts_with('-') && rng.pct(10) { format!("+{}", s) } else { s }
}

/// Write a value, recording where each node lies (in order of writing).
fn write(rng: &mut Rng, t: &T, out: &mut String, spans: &mut Vec<(usize, usize)>, plain: bool) {
    let at = spans.len();
    spans.push((out.len(), 0));
    let seq = |rng: &mut Rng, open: &str, close: &str, v: &[T], out: &mut String, spans: &mut Vec<(usize, usize)>| {
        out.push_str(open);
        sep(rng, out, false, plain);
        for (i, x) in v.iter().enumerate() {
            if i > 0 { between(rng, out, x, plain); }
            write(rng, x, out, spans, plain);
        }
        sep(rng, out, false, plain);
        out.push_str(close);
    };
    match t {
        T::Nil => out.push_str("nil"),
        T::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        T::Int(i) => {
            let s = match rng.below(12) {
                0 if *i >= 0 => format!("0x{}", radix(*i as u64, 16, rng.pct(50))),
                1 if *i >= 0 => format!("0{}", radix(*i as u64, 8, false)),
                2 | 3 if *i >= 0 => { let r = rng.range(2, 36) as u64; format!("{}r{}", r, radix(*i as u64, r, rng.pct(50))) }
                4 if *i >= 0 => format!("+{}", i),
                _ => i.to_string(),
            };
            out.push_str(&s);
        }
        T::Big(s) => { if !s.starts_with('-') && rng.pct(10) { out.push('+'); } out.push_str(s); out.push('N'); }
        T::Flt(f) => out.push_str(&float_text(rng, *f, plain)),
        T::Str(s) => out.push_str(&esc(rng, s, plain)),
        T::Uuid(u) => { let h = format!("{:032x}", u); let b = blank(rng, plain); out.push_str(&format!("#uuid{}\"{}-{}-{}-{}-{}\"", b, &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])); }
        T::Inst(s, n) => out.push_str(&inst(rng, *s, *n, plain)),
        T::Sym(s) => out.push_str(s),
        T::Key(s) => { out.push(':'); out.push_str(s); }
        T::Vec(v) => seq(rng, "[", "]", v, out, spans),
        T::List(v) => seq(rng, "(", ")", v, out, spans),
        T::Set(v) => seq(rng, "#{", "}", v, out, spans),
        T::Map(v) => {
            out.push('{');
            sep(rng, out, false, plain);
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 { between(rng, out, k, plain); }
                write(rng, k, out, spans, plain);
                between(rng, out, x, plain);
                write(rng, x, out, spans, plain);
            }
            sep(rng, out, false, plain);
            out.push('}');
        }
    }
    spans[at].1 = out.len();
}
/// A separator is needed unless one side delimits itself.
fn between(rng: &mut Rng, out: &mut String, next: &T, plain: bool) {
    let need = match next { T::Vec(_) | T::List(_) | T::Str(_) | T::Map(_) | T::Set(_) => false, _ => !out.ends_with(|c| ")]}\"".contains(c)) };
    sep(rng, out, need || plain, plain);
}

fn spans_of(v: &ValueAndSpan, out: &mut Vec<(usize, usize)>) {
    out.push((v.span.0 as usize, v.span.1 as usize));
    match &v.inner {
        SpannedValue::Vector(x) => for y in x { spans_of(y, out) },
        SpannedValue::List(x) => for y in x { spans_of(y, out) },
        SpannedValue::Set(x) => for y in x { spans_of(y, out) },
        SpannedValue::Map(x) => for (k, y) in x { spans_of(k, out); spans_of(y, out) },
        _ => (),
    }
}

fn parse(text: &str) -> R<Option<ValueAndSpan>> {
    let t = Instant::now();
    let r = call(&format!("reading {:?}", text.chars().take(300).collect::<String>()), || edn::parse::value(text).ok())?;
    slow(t, text)?;
    Ok(r)
}
fn slow(t: Instant, text: &str) -> R {
    if t.elapsed() > Duration::from_secs(20) { return bad_sig("slow", format!("reading {} characters took {:?}: {:?}", text.len(), t.elapsed(), text)); }
    Ok(())
}

fn one_value(ctx: &mut Ctx) -> R {
    let deep = ctx.rng.pct(4);
    let t = if deep {
        let mut t = atom(&mut ctx.rng);
        for _ in 0..ctx.rng.below(55) { let o = atom(&mut ctx.rng); t = match ctx.rng.below(5) { 0 => T::Vec(vec![t]), 1 => T::List(vec![o, t]), 2 => T::Set(vec![t]), 3 => T::Map(vec![(o, t)]), _ => T::Vec(vec![t, o]) } }
        t
    } else { let d = ctx.rng.below(5); value(&mut ctx.rng, d) };
    let want = canon(&t);
    let mut text = String::new();
    let mut spans = vec![];
    let plain = ctx.rng.pct(20);
    sep(&mut ctx.rng, &mut text, false, plain);
    write(&mut ctx.rng, &t, &mut text, &mut spans, plain);
    sep(&mut ctx.rng, &mut text, false, plain);
    ctx.sample(|| text.clone());
    let v = match parse(&text)? { Some(v) => v, None => return bad(format!("not read: {:?}\n(denotes {})", text, want)) };
    let mut got_spans = vec![];
    spans_of(&v, &mut got_spans);
    let v = v.without_spans();
    let got = canon(&read_atom(&v));
    if got != want { return bad(format!("{:?}\nreads as {}\ndenotes  {}", text, got, want)); }
    got_spans.sort();
    spans.sort();
    if got_spans != spans { return bad(format!("{:?}\nspans reported {:?}\nspans written  {:?}", text, got_spans, spans)); }
    ctx.eval(true, &text);
    round_trip(ctx, &v)
}

/// An instant no notation can write exactly.
fn odd_instant(t: &T) -> bool {
    match t {
        T::Inst(s, n) => n % 1000 != 0 && (*s < -62_167_219_200 || *s > 253_402_300_799),
        T::Vec(v) | T::List(v) | T::Set(v) => v.iter().any(odd_instant),
        T::Map(v) => v.iter().any(|(k, v)| odd_instant(k) || odd_instant(v)),
        _ => false,
    }
}
fn leap(v: &Value) -> bool { let s = format!("{:?}", v); s.contains(":60") }
/// Both printers give text that reads as the same value.
fn round_trip(ctx: &mut Ctx, v: &Value) -> R {
    let t = read_atom(v);
    if odd_instant(&t) { ctx.count("leap seconds and far instants finer than a microsecond, not printed"); return Ok(()); }
    let want = canon(&t);
    let width = *ctx.rng.pick(&[0usize, 1, 2, 5, 10, 20, 40, 80, 120, 100_000]);
    for (how, printed) in vec![("Display", call("printing", || v.to_string())?), ("to_pretty", call("pretty-printing", || v.to_pretty(width)).map(|r| r.unwrap_or_default())?)] {
        match parse(&printed)? {
            None => return bad(format!("{} of {} gives {:?}, which isn't read", how, want, printed)),
            Some(b) => {
                let b = b.without_spans();
                let got = canon(&read_atom(&b));
                if got != want { return bad(format!("{} of {} gives {:?}, which reads as {}", how, want, printed, got)); }
                if (b != *v || b.cmp(v) != std::cmp::Ordering::Equal) && !leap(v) { return bad(format!("{} of {} reads back as an unequal value", how, want)); }
            }
        }
        ctx.eval(true, &printed);
        ctx.count("values printed and read again");
    }
    Ok(())
}

const TX: [&str; 14] = [
    "[[:db/add \"t\" :a/b 1]]", "[[:db/add 100 :a/_b (lookup-ref :x/y \"z\")] [:db/retract :a/b :c/d :e/f]]", "[{:db/id \"x\" :a/b {:c/d 1, :e/_f [\"g\" 2]}}]", "[{:db/id (transaction-tx) :db/txInstant #inst \"2020-01-01T00:00:00.5Z\"}]",
    "[[:db/add (lookup-ref :a/b #uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\") :c/d [1 2 [3]]]]", "[]", "[{}]", "[{:a/b [{:c/d \"e\"} {:f/g #instmicros 5}] :h/i -1.5e10 :j/k nil}]",
    "[[:db/add \"a\" :b/c #f NaN]]", "[{:db/id 0x10 :db/ident :k :db/valueType :db.type/string}]", "[[:db/add \"a\" 12 -9223372036854775808]]", "[[:db/retract 36r1z :a/b 5N]]", "[{:a/_b (lookup-ref :c/d \"e\")}]", "[[:db/add [{:a/b 1}] :c/_d \"x\"]]",
];
const QS: [&str; 22] = [
    "[:find ?e :where [?e :a/b ?v]]", "[:find ?e . :in ?v ?w :where [?e :a/b ?v] [(< ?v 10)] :limit 5 :order (desc ?e) ?v]", "[:find [?e ...] :where [_ :a/_b ?e ?tx]]", "[:find [?x (max ?y) (count ?z)] :with ?w :where [?x _ ?y] (or [?x :a/b ?z] (and [?x :c/d ?z] [?z :e/f ?w]))]",
    "[:find (the ?x) (min ?y) :where (or-join [?x ?y] [?x :a/b ?y] [?y :a/_b ?x])]", "[:find ?x :where (not [?x :a/b 1]) [?x :db/ident :k/w]]", "[:find ?x :where (not-join [?x] [?x :a/b ?y] (not [?y :c/d true]))]",
    "[:find ?x ?t :where [(fulltext $ :a/b \"q\") [[?x _ ?t]]]]", "[:find ?t :where [(tx-ids $ #inst \"2020-01-01T00:00:00Z\" 1000) [[?t]]]]", "[:find ?e ?a ?v :where [(tx-data $ ?t) [[?e ?a ?v _ ?op]]]]", "[:find ?x :where [(ground [[1 2] [3 4]]) [[?x _]]]]",
    "[:find ?x :where [(ground [:a/b :c/d]) [?x ...]] [(type ?x :db.type/keyword)]]", "[:find (pull ?e [* :db/id :a/b :as :c/d]) ?x :where [?e _ ?x]]", "[:find ?x :where [(get-else $ ?e :a/b 5) ?x]]", "[:find ?x :where [?x :a/b 5N]]", "[:find ?x :where [$ ?x :a/b \"\\\"\"] [(!= ?x ?y)]]",
    "[:find ?x :limit ?n :in ?n :where [?x :a/b -1.5e300]]", "[:find (sum ?x) (avg ?x) :where [?y :a/b ?x]]", "[:find ?x :where [?x :a/b :c]]", "[:find ?x :where [?x ?a #f -Infinity]]", "[:find ?x :where [(ground 1) ?x] [(> ?x 0x5)]]", "[:find ?x :where [(rule ?x)]]",
];
const BITS: [&str; 66] = [
    "[", "]", "(", ")", "{", "}", "#{", "\"", "\\", ";", ",", " ", "\n", "#", "#f", "NaN", "Infinity", "+", "-", ".", "...", ":", "/", "_", "nil", "true", "false", "0", "1", "9223372036854775808", "0x", "0xfffffffffffffffff", "37r1", "2r2", "1r0", "0r0", "08", "1e", "1e999", "-1e-999", "N", "1N",
    "#inst \"0000-00-00T00:00:00Z\"", "#inst \"2020-02-30T24:60:60Z\"", "#inst \"9999-12-31T23:59:60-23:59\"", "#instmillis 9223372036854775807", "#instmicros -9223372036854775808", "#uuid \"", "#inst", "?x", "$", ":a/b", "é", "\u{0}", "\u{1F600}", ":where", ":find", ":in", ":limit", "and", "or", "not", "ground", "pull", "#inst \"0000-01-01T00:00:00+23:59\"", "#instmillis -8334632851200000",
];

fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(4) {
        let n = c.len();
        match rng.below(7) {
            0 if n > 0 => { let i = rng.below(n); c.remove(i); }
            1 if n > 0 => { let i = rng.below(n); let j = (i + rng.below(8)).min(n); c.drain(i..j); }
            2 if n > 1 => { let (i, j) = (rng.below(n), rng.below(n)); c.swap(i, j); }
            3 if n > 0 => { // duplicate a stretch elsewhere
                let i = rng.below(n); let j = (i + 1 + rng.below(12)).min(n); let part: Vec<char> = c[i..j].to_vec(); let k = rng.below(n + 1); c.splice(k..k, part); }
            4 if n > 0 => { let i = rng.below(n); c[i] = std::char::from_u32(rng.below(128) as u32).unwrap(); }
            5 if n > 0 => { let i = rng.below(n); c.truncate(i); }
            _ => { let k = rng.below(n + 1); let b: Vec<char> = rng.pick(&BITS).chars().collect(); c.splice(k..k, b); }
        }
    }
    c.into_iter().collect()
}
fn depth(s: &str) -> usize { s.chars().filter(|c| "([{".contains(*c)).count() }

fn fuzz(ctx: &mut Ctx) -> R {
    let base = match ctx.rng.below(4) {
        0 => ctx.rng.pick(&TX).to_string(),
        1 | 2 => ctx.rng.pick(&QS).to_string(),
        _ => { let mut s = String::new(); let t = value(&mut ctx.rng, 3); write(&mut ctx.rng, &t, &mut s, &mut vec![], true); s }
    };
    let text = if ctx.rng.pct(8) { let n = ctx.rng.below(12); (0..n).map(|_| ctx.rng.pick(&BITS).to_string()).collect() } else { mutate(&mut ctx.rng, &base) };
    if depth(&text) > 60 { return Ok(()); }
    ctx.eval(true, &text);
    if let Some(v) = parse(&text)? {
        ctx.count("mutated data accepted");
        let n = text.len();
        let mut spans = vec![];
        spans_of(&v, &mut spans);
        if spans.iter().any(|&(a, b)| a >= b || b > n || !text.is_char_boundary(a) || !text.is_char_boundary(b)) { return bad(format!("{:?}: spans {:?} are out of place", text, spans)); }
        round_trip(ctx, &v.without_spans())?;
    }
    let what = format!("{:?}", text);
    let t = Instant::now();
    if call(&format!("reading the transaction {}", what), || edn::parse::entities(&text).is_ok())? { ctx.count("mutated transactions accepted"); }
    slow(t, &text)?;
    let t = Instant::now();
    if call(&format!("reading the query {}", what), || edn::parse::parse_query(&text).is_ok())? { ctx.count("mutated queries accepted"); }
    slow(t, &text)
}

/// Tokens of a text, kept whole.
pub fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        let ch = c[i];
        if " ,\n\t\r".contains(ch) { i += 1; continue; }
        let st = i;
        if ch == '"' { i += 1; while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1; } i += 1; } i += 1; }
        else if ch == '#' && i + 1 < c.len() && c[i + 1] == '{' { i += 2; }
        else if "()[]{}".contains(ch) { i += 1; }
        else { while i < c.len() && !" ,\n\t\r()[]{}\"".contains(c[i]) { i += 1; } }
        out.push(c[st..i.min(c.len())].iter().collect());
    }
    out
}
/// Layout doesn't matter to transactions and queries either.
fn layout(ctx: &mut Ctx) -> R {
    let query = ctx.rng.pct(60);
    let base = if query { ctx.rng.pick(&QS).to_string() } else { ctx.rng.pick(&TX).to_string() };
    let toks = tokens(&base);
    let mut text = String::new();
    sep(&mut ctx.rng, &mut text, false, false);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let free = p.ends_with(|c| "([{)]}\"".contains(c)) || t.starts_with(|c| "([{)]}\"".contains(c)) || t == "#{";
            // `#inst` and the like take no comment before their value.
            if p.starts_with('#') && p != "#{" { text.push_str(*ctx.rng.pick(&[" ", "\n", ",", "\t ,"])); }
            else { sep(&mut ctx.rng, &mut text, !free, false); }
        }
        text.push_str(t);
    }
    sep(&mut ctx.rng, &mut text, false, false);
    ctx.eval(true, &text);
    ctx.count("layouts compared");
    let (want, got) = if query {
        (call("reading a query", || edn::parse::parse_query(&base).map(|q| format!("{:?}", q)).map_err(|_| ()))?, call("reading a query", || edn::parse::parse_query(&text).map(|q| format!("{:?}", q)).map_err(|_| ()))?)
    } else {
        let strip = |s: String| strip_spans(&s);
        (call("reading a transaction", || edn::parse::entities(&base).map(|q| strip(format!("{:?}", q))).map_err(|_| ()))?, call("reading a transaction", || edn::parse::entities(&text).map(|q| strip(format!("{:?}", q))).map_err(|_| ()))?)
    };
    if want != got { return bad(format!("{:?}\nreads as {:?}\nand {:?}\nas {:?}", base, want, text, got)); }
    Ok(())
}
fn strip_spans(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("Span(") {
        out.push_str(&rest[..i + 5]);
        rest = &rest[i + 5..];
        match rest.find(')') { Some(j) => rest = &rest[j..], None => break }
    }
    out + rest
}

/// Texts with a known meaning that tests could fix, kept as anchors.
fn anchors(ctx: &mut Ctx) -> R {
    for (text, want) in &[
        ("[nil?]", "[ynil?]"), ("(truest falsehood)", "(ytruest yfalsehood)"), ("[1,,2]", "[i1 i2]"), ("-0x1", ""), ("[1 ;]\n 2]", "[i1 i2]"), ("#{}", "#{}"), ("{1 2 3}", ""), ("9223372036854775808", ""), ("[]]", ""), ("\"\\x\"", ""), ("", ""), ("010", "i8"), ("36rZ", "i35"),
        ("#inst \"2020-01-01T00:00:00+01:00\"", "t1577833200.0"), ("1e3", "f1000.0"), ("+5", "i5"), ("-5N", "N-5"),
    ] {
        let got = parse(text)?.map(|v| canon(&read_atom(&v.without_spans()))).unwrap_or_default();
        if got != *want { return bad(format!("{:?} reads as {:?}, not {:?}", text, got, want)); }
    }
    // deep nesting, in a process of its own
    if let Ok(exe) = std::env::current_exe() {
        let st = std::process::Command::new(exe).args(&["deep", "100000"]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().h("spawn")?;
        if !st.success() { ctx.finding("deep-nesting", format!("reading 100000 nested vectors kills the process ({:?})", st)); }
    }
    Ok(())
}
pub fn deep(n: usize) -> i32 {
    let text: String = std::iter::repeat('[').take(n).chain(std::iter::repeat(']').take(n)).collect();
    let v = edn::parse::value(&text);
    std::mem::forget(v);
    0
}

/// Accepted texts are run too: whatever comes of it, it's not a crash, and a query alters nothing.
const RUN: [&str; 60] = [
    "[:find ?e ?v :where [?e :many/string ?v]]", "[:find ?x ?t :where [(fulltext $ :one/fulltext \"q\") [[?x _ ?t]]]]", "[:find ?x ?v ?t ?s :where [(fulltext $ :many/fulltext \"a b\") [[?x ?v ?t ?s]]]]", "[:find ?x :in ?s :where [(fulltext $ :one/fulltext ?s) [[?x]]]]",
    "[:find ?t :where [(tx-ids $ #inst \"2020-01-01T00:00:00Z\" 1000) [[?t]]]]", "[:find ?t ?e ?a ?v ?o :where [(tx-ids $ 268435456 268435460) [[?t]]] [(tx-data $ ?t) [[?e ?a ?v _ ?o]]]]", "[:find ?e ?v :where [(tx-data $ 268435457) [[?e :db/ident ?v]]]]",
    "[:find ?x :where [(ground [[1 2] [3 4]]) [[?x _]]]]", "[:find ?x ?y :where [(ground [[1 :a/b] [3 :db/ident]]) [[?x ?y]]] [_ ?y ?x]]", "[:find ?x :where [(ground [1 2.0 true \"x\"]) [?x ...]]]", "[:find ?x :where [(ground [:a/b :c/d]) [?x ...]] [(type ?x :db.type/keyword)]]", "[:find ?x :where [(ground 5) ?x] [?e :one/long ?x]]",
    "[:find ?x ?y :where [(ground [1 \"a\"]) [?x ?y]]]", "[:find (pull ?e [* :db/id :one/long :as :c/d]) ?x :where [?e :db/ident ?x]]", "[:find [(pull ?e [:one/long]) ...] :where [?e :one/long _]]", "[:find (pull ?e [*]) . :where [?e :many/ref ?x]]", "[:find [(pull ?e [:many/ref]) ?v] :where [?e :one/long ?v]]",
    "[:find ?x :where [?x :one/long ?y] [(< ?y 10)]]", "[:find ?x :where [?x :one/instant ?y] [(<= #inst \"2000-01-01T00:00:00Z\" ?y)]]", "[:find ?x :where [?x ?a ?y] [(!= ?y 10)] [(>= ?x 0)]]", "[:find ?x :where [?x :one/double ?y] [(> ?y 1.5)]]", "[:find ?x ?y :where [?x :one/long ?z] [?y :one/long ?w] [(unpermute ?x ?y)] [(!= ?z ?w)]]",
    "[:find ?x :where (or [?x :one/long 1] [?x :many/long 2])]", "[:find ?x ?y :where (or (and [?x :one/long ?y] [?x :one/ref ?z]) [?x :many/long ?y])]", "[:find ?x :where (or-join [?x] [?x :one/long 1] (and [?x :many/ref ?y] [?y :one/long 1]))]", "[:find ?x :where [?x :db/ident ?y] (not [?x :db/valueType _])]", "[:find ?x :where [?x :db/ident _] (not-join [?x] [?x :one/long ?y] [(> ?y 3)])]",
    "[:find ?x :where [?x :db/ident _] (not [?x :one/long 1] (or [?x :one/long 2] [?x :one/long 3]))]", "[:find ?x :where [?x :many/_ref ?y]]", "[:find ?x ?tx :where [?x :one/ref :db/ident ?tx]]", "[:find ?x ?i :where [?x :one/long _ ?tx] [?tx :db/txInstant ?i]]", "[:find ?a :where [_ ?a 1]]", "[:find ?a :where [_ ?a \"x\"] [?a :db/valueType :db.type/string]]", "[:find ?v :where [10 1 ?v]]", "[:find ?e :where [?e 1 :db/ident]]",
    "[:find (count ?e) . :where [?e :db/ident _]]", "[:find (sum ?v) (avg ?v) (max ?v) (min ?v) (count ?v) :where [_ :one/long ?v]]", "[:find ?a (count ?e) :where [?e ?a _]]", "[:find (the ?e) (max ?v) :where [?e :one/long ?v]]", "[:find ?e (min ?v) :with ?w :where [?e :many/long ?v] [?e :many/string ?w]]", "[:find (max ?v) :where [_ ?a ?v]]", "[:find (the ?e) (the ?v) (min ?i) :where [?e :one/instant ?i] [?e :one/string ?v]]",
    "[:find ?x ?v :in ?x :where [?x :one/long ?v] :order (desc ?v) ?x :limit 3]", "[:find ?x :in ?x ?n :where [?x :one/long _] :limit ?n]", "[:find ?x :order ?x :where [?x :one/double ?y]]", "[:find ?x . :where [?x :one/uuid #uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\"]]", "[:find ?x :where [?x :one/keyword :k/w]]", "[:find ?x :where [?x :one/boolean true]]", "[:find ?x ?y :where [?x :one/instant ?i] [?y :one/instant ?i]]", "[:find ?x :where (type ?x :db.type/long)]",
    "[:find ?x :where [?y :one/long ?x] [(type ?x :db.type/long)]]", "[:find ?x ?x :where [?x :one/long ?x]]", "[:find ?x :where [?x ?x ?x]]", "[:find ?x :where [?e :one/ref ?x] [?x :one/ref ?e]]", "[:find ?v :where [:db/ident :db/doc ?v]]", "[:find ?v :where [:nosuch/ident :db/doc ?v]]", "[:find ?v :where [_ :nosuch/attr ?v]]", "[:find ?e :where [?e _ 5N]]", "[:find ?e :where [?e :one/keyword :plain]]", "[:find ?x :where [(ground :db/ident) ?x] [?x :db/valueType ?y]]",
];
const RUN_TX: [&str; 24] = [
    "[[:db/add \"t\" :one/long 1]]", "[{:db/id \"t\" :many/string [\"a\" \"b\"] :one/ref {:db/id \"u\" :one/long 5}}]", "[[:db/retract 100 :many/long 2]]", "[{:db/ident :x/y :db/valueType :db.type/long :db/cardinality :db.cardinality/many}]", "[[:db/add (lookup-ref :db/ident :one/long) :db/doc \"d\"]]",
    "[{:db/id (transaction-tx) :db/txInstant #inst \"2035-01-01T00:00:00.5Z\" :db/doc \"x\"}]", "[[:db/add \"a\" :many/_ref \"b\"] [:db/add \"a\" :one/uuid #uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\"]]", "[[:db/add :one/long :db/unique :db.unique/value] [:db/add :one/long :db/index true]]", "[[:db/retract :one/long :db/ident :one/long]]", "[[:db/retract :one/long :db/ident :one/long] [:db/retract :one/long :db/valueType :db.type/long] [:db/retract :one/long :db/cardinality :db.cardinality/one]]",
    "[[:db/add :one/long :db/ident :one/renamed]]", "[{:db/id \"f\" :one/fulltext \"words in here\" :many/fulltext [\"a b\" \"c\"]}]", "[[:db/add \"t\" :one/double 1.5] [:db/add \"t\" :one/instant #instmicros 55] [:db/add \"t\" :one/boolean false] [:db/add \"t\" :one/keyword :a/b]]", "[[:db/add \"t\" 1 :k/l]]", "[{:many/_ref [\"x\" {:one/long 3}] :one/string \"s\"}]", "[[:db/add \"t\" :one/double #f NaN]]",
    "[[:db/add \"t\" :one/double #f +Infinity]]", "[[:db/add 268435457 :db/txInstant #inst \"1999-01-01T00:00:00Z\"]]", "[{:db/id \"s\" :db/ident :s/t} {:db/id \"s2\" :one/ref \"s\"} [:db/add \"s\" :one/ref \"s\"]]", "[[:db/add \"t\" :many/ref [100 :db/ident \"u\" (lookup-ref :db/ident :one/long)]]]", "[[:db/add :db/ident :db/cardinality :db.cardinality/many]]", "[[:db/add \"t\" :many/long [1 2 3]] [:db/retract \"t\" :many/long 1]]", "[{}]", "[{:db/id :one/long :db/noHistory true :db/isComponent false :db/fulltext true}]",
];
fn execute(ctx: &mut Ctx) -> R {
    let (mut real, m, _) = populated(ctx, 25)?;
    let attrs: Vec<String> = m.schema.attrs.keys().filter_map(|a| m.schema.ident_of(*a).cloned()).collect();
    let kinds: Vec<_> = m.schema.attrs.values().filter(|a| a.vt != VT::Ref).cloned().collect();
    let name = |rng: &mut Rng, t: &str| -> String {
        // the attributes the texts name stand for those of this store
        let mut t = t.to_string();
        for old in &[":one/long", ":many/long", ":one/ref", ":many/ref", ":one/double", ":one/instant", ":one/string", ":many/string", ":one/fulltext", ":many/fulltext", ":one/uuid", ":one/keyword", ":one/boolean"] {
            if t.contains(old) && !attrs.iter().any(|a| a == old) && rng.pct(90) { let new = rng.pick(&attrs).clone(); t = t.replace(old, &new); }
        }
        t
    };
    let before = real.facts().h("facts")?;
    for _ in 0..60 {
        let base = ctx.rng.pick(&RUN).to_string();
        let base = name(&mut ctx.rng, &base);
        let text = if ctx.rng.pct(12) { base } else if ctx.rng.pct(60) { let o = ctx.rng.pick(&RUN).to_string(); let o = name(&mut ctx.rng, &o); splice(&mut ctx.rng, &base, &o) } else { mutate(&mut ctx.rng, &base) };
        if depth(&text) > 60 { continue; }
        let inputs = if text.contains(":in") { let k = ctx.rng.pick(&kinds).clone(); let v = crate::gen::scalar(&mut ctx.rng, &k); let k = ctx.rng.pick(&kinds).clone(); let w = crate::gen::scalar(&mut ctx.rng, &k); let n = V::Long(ctx.rng.range(-1, 5)); QueryInputs::with_values(vec![("?x", v), ("?s", w), ("?n", n)].into_iter().filter(|(k, _)| text.contains(k)).map(|(k, v)| (Variable::from_valid_name(k), v.typed())).collect()) } else { QueryInputs::default() };
        ctx.eval(true, &text);
        let ok = call(&format!("running the query {:?}", text), || real.conn.q_once(&real.sqlite, &text, inputs).map(|_| ()).map_err(|e| e.to_string()))?;
        match ok { Ok(()) => ctx.count("mutated queries run"), Err(e) => {
            // P17 has this one: the log refers to full-text values by number.
            if text.contains("tx-data") && e.contains("bad SQL (value_type_tag, value) pair: (Integer(") && e.ends_with(", 10)") { ctx.count("full-text values in the log"); continue; }
            if e.contains("integer overflow") { ctx.count("overflowing sums refused"); continue; }
            if e.contains("SQL") || e.contains("qlite") { return bad(format!("{}\nis refused with {}", text, e)); }
            ctx.count("mutated queries refused")
        } }
    }
    if real.facts().h("facts")? != before { return bad("the store changed while only queries ran"); }
    for _ in 0..25 {
        let base = ctx.rng.pick(&RUN_TX).to_string();
        let base = name(&mut ctx.rng, &base);
        let text = if ctx.rng.pct(20) { base } else if ctx.rng.pct(60) { let o = ctx.rng.pick(&RUN_TX).to_string(); let o = name(&mut ctx.rng, &o); splice(&mut ctx.rng, &base, &o) } else { mutate(&mut ctx.rng, &base) };
        if depth(&text) > 60 { continue; }
        ctx.eval(true, &text);
        let before = real.facts().h("facts")?;
        let r = call(&format!("running the transaction {:?}", text), || real.conn.transact(&mut real.sqlite, text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?;
        match r {
            Ok(()) => ctx.count("mutated transactions run"),
            Err(e) => {
                ctx.count("mutated transactions refused");
                if e.contains("SQL") && !e.contains("UNIQUE") || e.contains("sqlite") { return bad(format!("{}\nis refused with {}", text, e)); }
                if real.facts().h("facts")? != before { return bad(format!("{}\nis refused, but changes the store", text)); }
            }
        }
    }
    Ok(())
}
/// Replace some forms of one text with forms of another.
fn splice(rng: &mut Rng, a: &str, b: &str) -> String {
    let fa = forms(a);
    let fb = forms(b);
    if fa.is_empty() || fb.is_empty() { return a.to_string(); }
    let mut out = a.to_string();
    for _ in 0..1 + rng.below(2) {
        let f = forms(&out);
        if f.is_empty() { break; }
        let (s, e) = *rng.pick(&f);
        let (bs, be) = *rng.pick(&fb);
        let new = &b[bs..be];
        out = if rng.pct(60) { format!("{}{}{}", &out[..s], new, &out[e..]) } else { format!("{} {} {}", &out[..s], new, &out[s..]) };
    }
    out
}
/// Where the forms of a text lie, but not the whole.
fn forms(s: &str) -> Vec<(usize, usize)> {
    let mut spans = vec![];
    if let Ok(v) = edn::parse::value(s) { spans_of(&v, &mut spans); }
    if !spans.is_empty() { spans.remove(0); }
    spans
}

pub fn p16(ctx: &mut Ctx) -> R {
    if ctx.index == 0 { return anchors(ctx); }
    if ctx.index % 8 == 1 { return execute(ctx); }
    for _ in 0..25 {
        match ctx.rng.below(10) { 0..=3 => one_value(ctx)?, 4 => layout(ctx)?, _ => fuzz(ctx)? }
    }
    Ok(())
}
