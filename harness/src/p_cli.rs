//! P27: the command-line shell against the same store driven through the interface.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_query::*;
use crate::p_store::{live_pal, schema_tx};
use crate::p_tx::gen_tx;
use crate::query::*;
use crate::real::*;
use crate::val::*;
use mentat::{Binding, QueryResults, StructuredMap, TypedValue};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P27", rule: "A distinct command, with the store it was given to, whose printed outcome was compared with the outcome of the same operation through the interface.",
            case: p27, quick: (400, 35), thorough: (20_000, 600), min_nontrivial: 400, workers: 8,
            assumptions: &["The shell is run without a terminal; line editing and history are not looked at.",
                "The wording of messages is not judged, only whether there is one; a transaction's report, a query's table and a schema are.",
                "Timings are printed when asked for; their values are not judged."] },
    ]
}

const PROMPT: &str = "\x1b[38;2;153;170;255mmentat=> \x1b[39m";
const MORE: &str = "\x1b[38;2;153;170;255mmentat.> \x1b[39m";

struct Shell { child: Child, stdin: Option<std::process::ChildStdin>, rx: Receiver<Vec<u8>>, buf: Vec<u8> }

impl Drop for Shell { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

enum Got { Prompt(String), Ended(String) }

impl Shell {
    fn start(dir: &std::path::Path, args: &[String]) -> R<Shell> {
        let exe = std::env::current_exe().h("exe")?.with_file_name("shell");
        // Both of its outputs go to one pipe, so that they stay in order.
        let (mut r, w) = std::io::pipe().h("pipe")?;
        let w2 = w.try_clone().h("pipe")?;
        let mut child = Command::new(exe).arg("--no-tty").args(args).current_dir(dir)
            .env_clear().env("HOME", dir).env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped()).stdout(w).stderr(w2).spawn().h("start the shell")?;
        let stdin = child.stdin.take();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut b = vec![0u8; 65536];
            loop {
                match r.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => if tx.send(b[..n].to_vec()).is_err() { break },
                }
            }
        });
        Ok(Shell { child, stdin, rx, buf: vec![] })
    }

    /// Everything up to the next prompt for a command.
    fn until_prompt(&mut self) -> R<Got> {
        let end = Instant::now() + Duration::from_secs(40);
        loop {
            if self.buf.ends_with(PROMPT.as_bytes()) {
                let b = std::mem::replace(&mut self.buf, vec![]);
                let s = String::from_utf8(b).h("output is not text")?;
                return Ok(Got::Prompt(s[..s.len() - PROMPT.len()].replace(MORE, "")));
            }
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(b) => self.buf.extend(b),
                Err(RecvTimeoutError::Timeout) => { let _ = self.child.kill(); return inconclusive("the shell gave no prompt in 40 s"); }
                Err(RecvTimeoutError::Disconnected) => return Ok(Got::Ended(String::from_utf8_lossy(&std::mem::replace(&mut self.buf, vec![])).replace(MORE, ""))),
            }
        }
    }

    fn send(&mut self, text: &str) {
        if let Some(i) = self.stdin.as_mut() { let _ = i.write_all(text.as_bytes()); let _ = i.flush(); }
    }

    /// The shell's answer to a command.
    fn ask(&mut self, ctx: &mut Ctx, text: &str) -> R<String> {
        ctx.note(format!("> {}", text));
        self.send(&format!("{}\n", text));
        match self.until_prompt()? {
            Got::Prompt(s) => { let s = plain(&s); ctx.note(format!("{}", s.chars().take(600).collect::<String>())); Ok(s) }
            Got::Ended(s) => bad(format!("the shell ended at {:?}: {}", text, plain(&s).chars().take(300).collect::<String>())),
        }
    }

    fn finish(&mut self) -> R<String> {
        let mut rest = String::new();
        self.stdin = None;
        loop {
            match self.until_prompt()? { Got::Prompt(s) => rest.push_str(&s), Got::Ended(s) => { rest.push_str(&s); break } }
        }
        let s = self.child.wait().h("wait")?;
        if !s.success() { return bad(format!("the shell ended with {}: {}", s, rest)); }
        Ok(rest)
    }
}

/// Without what the library itself prints along the way.
fn plain(s: &str) -> String {
    s.lines().filter(|l| !l.starts_with("CC known empty") && !l.starts_with("d: ")).map(|l| format!("{}\n", l)).collect()
}

fn untimed(s: &str) -> (String, u64) {
    let mut n = 0;
    let mut out = String::new();
    for l in s.lines() {
        if l.contains("Run time") || l.contains("Prepare time") { n += 1; } else { out.push_str(l); out.push('\n'); }
    }
    (out, n)
}

fn squeeze(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

fn value(v: &TypedValue) -> String {
    match v {
        TypedValue::Boolean(b) => b.to_string(),
        TypedValue::Double(d) => d.to_string(),
        TypedValue::Instant(i) => i.to_string(),
        TypedValue::Keyword(k) => k.to_string(),
        TypedValue::Long(l) => l.to_string(),
        TypedValue::Ref(r) => r.to_string(),
        TypedValue::String(s) => format!("{:?}", s.as_str()),
        TypedValue::Uuid(u) => u.to_string(),
    }
}

fn cell(b: &Binding) -> String {
    match b {
        Binding::Scalar(v) => value(v),
        Binding::Map(m) => map(m),
        Binding::Vec(v) => format!("[{}]", v.iter().map(cell).collect::<Vec<_>>().join(", ")),
    }
}
fn map(m: &StructuredMap) -> String { format!("{{{}}}", m.0.iter().map(|(k, v)| format!("{} {}", k, cell(v))).collect::<Vec<_>>().join(", ")) }

/// The rows of a table, without the padding.
fn rows(r: &QueryResults) -> Vec<String> {
    let line = |bs: Vec<String>| squeeze(&format!("| {} |", bs.join(" | ")));
    let mut v: Vec<String> = match r {
        QueryResults::Scalar(None) | QueryResults::Tuple(None) => vec![],
        QueryResults::Scalar(Some(b)) => vec![line(vec![cell(b)])],
        QueryResults::Tuple(Some(bs)) => vec![line(bs.iter().map(cell).collect())],
        QueryResults::Coll(bs) => bs.iter().map(|b| line(vec![cell(b)])).collect(),
        QueryResults::Rel(rel) => rel.rows().map(|r| line(r.iter().map(cell).collect())).collect(),
    };
    v.sort();
    v
}

/// Header and rows of a printed table.
fn table(s: &str) -> Option<(String, Vec<String>)> {
    let ls: Vec<&str> = s.lines().collect();
    if ls.len() < 3 || !ls[1].starts_with("---") || !ls[ls.len() - 1].starts_with("---") { return None; }
    Some((squeeze(ls[0]), { let mut v: Vec<String> = ls[2..ls.len() - 1].iter().map(|l| squeeze(l)).collect(); v.sort(); v }))
}

struct Side { real: Real, m: Model, pal: Pal }

fn instant_of(s: &str) -> Option<i64> {
    let t = chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%d %H:%M:%S%.f UTC").ok()?;
    Some(t.timestamp_micros())
}

/// A store of our own like the one the shell has just made: it was made at another moment.
fn twin(ctx: &mut Ctx, sh: &mut Shell) -> R<Side> {
    let out = sh.ask(ctx, &format!(".q [:find ?i . :where [{} :db/txInstant ?i]]", TX0))?;
    let at = match table(&untimed(&out).0).and_then(|t| t.1.get(0).cloned()).and_then(|l| instant_of(l.trim_matches(|c| c == '|' || c == ' '))) {
        Some(i) => i, None => return bad(format!("no instant of the first transaction: {}", out)),
    };
    let real = Real::memory()?;
    let a = mentat_db::entids::DB_TX_INSTANT;
    for t in &["datoms", "timelined_transactions"] {
        real.sqlite.execute(&format!("UPDATE {} SET v = ? WHERE e = ? AND a = ?", t), &[&at, &TX0, &a]).h("set the twin's first instant")?;
    }
    let m = real.model()?;
    let mut rng = ctx.rng.clone();
    let pal = palette(&mut rng);
    ctx.rng = rng;
    Ok(Side { real, m, pal })
}

fn kw_of_time() -> AP { AP::Ident(":db/txInstant".into()) }

/// What the shell said of a transaction must be what happens to the twin.
fn transacted(ctx: &mut Ctx, side: &mut Side, tx: &TxAst, said: &str) -> R {
    let reports: Vec<&str> = said.lines().filter(|l| l.starts_with("TxReport {")).collect();
    let mut tx = tx.clone();
    let accepted = reports.len() == 1 && said.lines().count() == 1;
    if accepted {
        // Give the twin the same instant.
        let when = match reports[0].split("tx_instant: ").nth(1).and_then(|r| r.split(", tempids").next()).and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()) {
            Some(d) => d.timestamp_micros(), None => return bad(format!("no instant in {}", reports[0])),
        };
        if !tx_text(&tx).contains(":db/txInstant") { tx.push(Item::Add(EP::Tx, kw_of_time(), VP::Lit(V::Inst(when)))); }
    } else if !reports.is_empty() || said.trim().is_empty() {
        return bad(format!("neither a report nor a refusal: {:?}", said));
    }
    let out = side.m.eval(&tx);
    let got = side.real.transact(&tx_text(&tx))?;
    match &got {
        Ok(r) => {
            if !accepted { return bad(format!("the shell refused what the interface accepts: {}", said)); }
            let i = chrono::DateTime::<chrono::Utc>::from_timestamp_micros(r.instant).h_opt("instant")?;
            let want = format!("TxReport {{ tx_id: {}, tx_instant: {:?}, tempids: {:?} }}", r.tx_id, i, r.temps);
            if reports[0] != want { return bad(format!("the shell reports {} for {}", reports[0], want)); }
            ctx.count("transactions");
        }
        Err(e) => {
            if accepted { return bad(format!("the shell accepted what the interface refuses: {}", e)); }
            ctx.count("refusals");
        }
    }
    settle(ctx, &side.real, &mut side.m, out, got)?;
    Ok(())
}

trait Opt<T> { fn h_opt(self, what: &str) -> R<T>; }
impl<T> Opt<T> for Option<T> { fn h_opt(self, what: &str) -> R<T> { match self { Some(x) => Ok(x), None => inconclusive(format!("harness: {}", what)) } } }

/// A query the twin answers or refuses quickly, and its answer.
fn question(ctx: &mut Ctx, side: &Side) -> R<Option<(String, Option<QueryResults>, Option<QueryResults>)>> {
    let user = user_facts(&side.m);
    if user.is_empty() { return Ok(None); }
    let (text, whole) = match ctx.rng.below(10) {
        0 | 1 => {
            // Pulls.
            let e = ctx.rng.pick(&user).0;
            let mut specs: Vec<String> = side.m.schema.attrs.iter().filter(|(k, a)| **k >= USER0 && !a.many && side.m.schema.ident_of(**k).is_some()).map(|(k, _)| side.m.schema.ident_of(*k).unwrap().to_string()).collect();
            ctx.rng.shuffle(&mut specs);
            specs.truncate(1 + ctx.rng.below(4));
            if specs.is_empty() { return Ok(None); }
            if ctx.rng.pct(30) { specs.push(":db/id".into()); }
            let a = ctx.rng.pick(&user).1;
            match side.m.schema.ident_of(a) {
                Some(a) if ctx.rng.pct(50) => (format!("[:find [(pull ?e [{}]) ...] :where [?e {} _]]", specs.join(" "), a), None),
                _ => { let a = match side.m.schema.ident_of(a) { Some(a) => a.to_string(), None => return Ok(None) }; (format!("[:find ?e (pull ?e [{}]) :where [?e {} _] [(= ?e {})]]", specs.join(" "), a, e), None) }
            }
        }
        2 => {
            let a = match side.m.schema.ident_of(ctx.rng.pick(&user).1) { Some(a) => a.to_string(), None => return Ok(None) };
            (format!("[:find (count ?v) . :where [?e {} ?v]]", a), None)
        }
        3 => (ctx.rng.pick(&["[:find ?x]", "[:find ?x :where [?y :no/such ?x]]", "[:find ?x :where [?x :db/ident ?k] [(foo ?x)]]", "{:find ?x}", "[1 2]", "[:find ?x :where [?x :db/ident]]", "[:find ?x :in ?y :where [?x :db/ident ?y]]"]).to_string(), None),
        _ => match gen_query(ctx, &side.m, &user) {
            None => return Ok(None),
            Some(mut q) => {
                let db = Db::new(&side.m);
                match db.run(&q) { Ok(w) if w.len() < 2000 => (), _ => { ctx.count("too_big"); return Ok(None); } }
                let t = q_text(&q);
                let spec = q.spec;
                q.spec = 0;
                (t, if spec < 2 { None } else { Some(q_text(&q)) })
            }
        },
    };
    let ask = |t: &str| -> R<Option<Option<QueryResults>>> { match side.real.q(t) { Err(Bad::Costly) => Ok(None), Err(e) => Err(e), Ok(r) => Ok(Some(r.ok())) } };
    let want = match ask(&text)? { Some(r) => r, None => { ctx.count("costly"); return Ok(None); } };
    let all = match whole { None => None, Some(w) => match ask(&w)? { Some(r) => r, None => { ctx.count("costly"); return Ok(None); } } };
    Ok(Some((text, want, all)))
}

fn answered(ctx: &mut Ctx, text: &str, want: &Option<QueryResults>, all: &Option<QueryResults>, said: &str) -> R {
    match (want, table(said)) {
        (None, None) => { if said.trim().is_empty() { return bad(format!("no word of a refused query {}", text)); } ctx.count("queries_refused"); }
        (None, Some(_)) => return bad(format!("the shell answers a query the interface refuses: {}", text)),
        (Some(_), None) => return bad(format!("the shell doesn't answer {}: {}", text, said.chars().take(200).collect::<String>())),
        (Some(w), Some((head, got))) => {
            let mut want = rows(w);
            if let Some(all) = all {
                // Any one of them will do.
                let of = rows(all);
                if got.len() != want.len() || got.iter().any(|g| !of.contains(g)) { return bad(format!("{} prints {:?}, of {:?}", text, got, of)); }
                want = got.clone();
            }
            // The same values in any order within a vector.
            let loose = |v: &Vec<String>| if text.contains("(pull") { let mut v: Vec<Vec<char>> = v.iter().map(|s| { let mut c: Vec<char> = s.chars().collect(); c.sort(); c }).collect(); v.sort(); format!("{:?}", v) } else { format!("{:?}", v) };
            if loose(&got) != loose(&want) { return bad(format!("{} prints {:?}, the interface gives {:?}", text, got, want)); }
            let cols: Vec<&str> = if text.contains("(pull") || text.contains("(count") { vec![] } else { text["[:find ".len()..].split(" :where").next().unwrap().split(|c| c == ' ' || c == '[' || c == ']').filter(|s| s.starts_with('?')).collect() };
            if !cols.is_empty() && head != format!("| {} |", cols.join(" | ")) { return bad(format!("{} is headed {:?}", text, head)); }
            ctx.count("queries_answered");
            ctx.add("rows_compared", got.len() as u64);
            if got.len() > 1 { ctx.sample(|| format!("{} -> {}", text, got.join("; ").chars().take(300).collect::<String>())); }
        }
    }
    Ok(())
}

/// The word that is too much (or unheard of) comes last in these, and is named in the answer.
const TOO_MUCH: [&str; 8] = [".open alpha beta", ".open alpha beta gamma", ".close today", ".schema today", ".sync alpha beta gamma", ".exit today", ".help cach", ".help .quer"];
const NONSENSE: [&str; 29] = [".q", ".q foo", ".query", ".t", ".transact hello", ".nonsense", "hello", ".", " ", ".timer", ".timer maybe", ".cache", ".cache :p/n", ".cache :p/n sideways",
    ".open", ".open a b", ".close now", ".schema now", ".sync", ".sync a b c", ".sync http://127.0.0.1:1", ".import", ".import no-such-file", ".open no/such/directory/file.db",
    ".sync http://127.0.0.1:1 316ea470-ce35-4adf-9c61-e0de6e289c59", ".sync nowhere nobody", ".help nonsense", ".cache nonsense forward", ".cache :no/such-attribute both"];
const COMMANDS: [&str; 13] = [".help", ".exit", ".open", ".schema", ".import", ".query", ".q", ".query_prepared", ".transact", ".t", ".explain_query", ".timer", ".cache"];

fn p27(ctx: &mut Ctx) -> R {
    let dir = ctx.scratch.join(format!("shell-{}", ctx.index));
    std::fs::create_dir_all(&dir).h("scratch")?;
    let r = session(ctx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn session(ctx: &mut Ctx, dir: &std::path::Path) -> R {
    let mut sh = Shell::start(dir, &[])?;
    match sh.until_prompt()? { Got::Prompt(_) => (), Got::Ended(s) => return bad(format!("the shell doesn't start: {}", s)) }
    let mut stores: BTreeMap<String, Side> = BTreeMap::new();
    let mut cur = String::new();
    let side = twin(ctx, &mut sh)?;
    stores.insert(cur.clone(), side);
    let mut timer = false;
    let n = 12 + ctx.rng.below(30);
    let names = ["one.db", "two.db"];
    let mut fresh = true;
    for k in 0..n {
        let kind = if fresh { 0 } else { ctx.rng.weighted(&[0, 24, 24, 10, 8, 4, 4, 4, 4, 6, 6, 3, 5]) };
        let mut timed = 0;
        let mut key = String::new();
        match kind {
            0 | 1 | 2 => {
                // A transaction.
                let side = stores.get_mut(&cur).unwrap();
                let t = if fresh { side.pal.install() } else if ctx.rng.pct(12) { let mut rng = ctx.rng.clone(); let t = schema_tx(&mut rng, &side.m, &side.pal); ctx.rng = rng; t }
                    else { let p = live_pal(&side.m); let o = TxOpts { spice: 12, ..TxOpts::default() }; gen_tx(ctx, &side.m, if p.defs.is_empty() { &side.pal } else { &p }, &o) };
                let mut t = t;
                if !fresh && ctx.rng.pct(25) {
                    let strs: Vec<String> = live_pal(&side.m).defs.iter().filter(|d| d.attr.vt == VT::Str && !d.attr.fulltext && d.attr.unique == Uniq::No).map(|d| d.ident.clone()).collect();
                    if !strs.is_empty() { let a = ctx.rng.pick(&strs).clone(); let v = crate::p_input::nasty(&mut ctx.rng); t.push(Item::Add(EP::Temp("nasty".into()), AP::Ident(a), VP::Lit(V::Str(v)))); ctx.count("odd_strings"); }
                }
                fresh = false;
                let text = tx_text(&t);
                let said = if ctx.rng.pct(25) {
                    let f = format!("import-{}.edn", k);
                    std::fs::write(dir.join(&f), format!("{}{}", text, if ctx.rng.pct(30) { "\n; done\n" } else { "" })).h("write")?;
                    ctx.note(format!("{} holds {}", f, text));
                    let c = if ctx.rng.pct(50) { ".import" } else { ".i" };
                    sh.ask(ctx, &format!("{} {}", c, f))?
                } else {
                    let c = *ctx.rng.pick(&[".t ", ".transact ", ".t", "  .transact   "]);
                    sh.ask(ctx, &format!("{}{}", c, text))?
                };
                let (said, times) = untimed(&said);
                timed = if timer { 1 } else { 0 };
                if times != timed { return bad(format!("{} timings printed, the timer is {}", times, timer)); }
                transacted(ctx, side, &t, &said)?;
                key = text;
            }
            3 | 4 | 5 | 6 => {
                let side = &stores[&cur];
                let (text, want, all) = match question(ctx, side)? { Some(x) => x, None => continue };
                let spread = if ctx.rng.pct(30) && !text.contains('"') { text.replacen(" :where", "\n  :where", 1).replace("] [", "]\n[") } else { text.clone() };
                if kind == 6 {
                    let c = ctx.rng.pick(&[".explain_query ", ".eq ", ".eq"]).to_string();
                    let said = sh.ask(ctx, &format!("{}{}", c, spread))?;
                    if said.trim().is_empty() { return bad(format!("no explanation of {}", text)); }
                    if want.is_none() && said.starts_with("SQL") && !text.contains(":in") { return bad(format!("the shell explains a query the interface refuses: {}", text)); }
                    if want.is_some() && !said.starts_with("SQL: ") && !said.starts_with("Query is known") { return bad(format!("no plan of {}: {}", text, said)); }
                    ctx.count("explanations");
                } else {
                    let c = match kind { 3 => ".q ", 4 => ".query ", _ => ".query_prepared " };
                    let said = sh.ask(ctx, &format!("{}{}", c, spread))?;
                    let (said, times) = untimed(&said);
                    if !timer && times > 0 || timer && times == 0 { return bad(format!("{} timings printed, the timer is {}", times, timer)); }
                    timed = times;
                    answered(ctx, &text, &want, &all, &said)?;
                }
                key = text;
            }
            7 => {
                let said = sh.ask(ctx, ".schema")?;
                let want = stores[&cur].real.conn.current_schema().to_edn_value();
                match edn::parse::value(&said) {
                    Ok(v) => if v.without_spans() != want { return bad(format!("the shell's schema is {}", said)); },
                    Err(e) => return bad(format!("the schema printed is no data: {} {}", e, said)),
                }
                ctx.count("schemas");
            }
            8 => {
                let side = &stores[&cur];
                let live = live_pal(&side.m);
                if live.defs.is_empty() { continue; }
                let d = ctx.rng.below(live.defs.len());
                let said = sh.ask(ctx, &format!(".cache {} {}", live.defs[d].ident, ctx.rng.clone().pick(&["forward", "reverse", "both"])))?;
                if !said.trim().is_empty() { return bad(format!("cannot cache: {}", said)); }
                ctx.count("caches");
            }
            9 => {
                // Another store, or the same again.
                let to = names[ctx.rng.below(2)].to_string();
                let said = sh.ask(ctx, &format!(".open {}", to))?;
                if !said.contains("opened") || !said.contains(&to) { return bad(format!("opening {} says {:?}", to, said)); }
                if cur.is_empty() && to != cur { stores.remove(""); }
                if !stores.contains_key(&to) { let s = twin(ctx, &mut sh)?; stores.insert(to.clone(), s); fresh = true; }
                cur = to;
                ctx.count("openings");
            }
            10 => {
                let what = *ctx.rng.pick(&NONSENSE[..]);
                let said = sh.ask(ctx, what)?;
                if said.trim().is_empty() { return bad("no word of a command that makes no sense"); }
                if said.lines().any(|l| l.starts_with("TxReport")) { return bad(format!("a command that makes no sense was carried out: {}", said)); }
                let what = *ctx.rng.pick(&TOO_MUCH[..]);
                let word = if what.starts_with(".open alpha beta") { "beta" } else { what.rsplit(|c| c == ' ' || c == '.').next().unwrap() };
                let said = sh.ask(ctx, what)?;
                if !said.split(|c: char| c.is_whitespace() || "\"'`.\\".contains(c)).any(|w| w == word) { return bad(format!("{:?} is answered with {:?}", what, said)); }
                ctx.count("nonsense");
            }
            11 => {
                let said = sh.ask(ctx, ".close")?;
                if !said.contains("closed") { return bad(format!("closing says {:?}", said)); }
                stores.remove("");
                cur = String::new();
                let s = twin(ctx, &mut sh)?;
                stores.insert(cur.clone(), s);
                fresh = true;
                ctx.count("closings");
            }
            _ => {
                if ctx.rng.pct(70) {
                    timer = ctx.rng.pct(50);
                    let said = sh.ask(ctx, if timer { ".timer on" } else { ".timer off" })?;
                    if !said.trim().is_empty() { return bad(format!("setting the timer says {:?}", said)); }
                } else {
                    let said = sh.ask(ctx, ".help")?;
                    for c in &COMMANDS[..] {
                        if !said.lines().any(|l| l.split_whitespace().next() == Some(c)) { return bad(format!("no help for {}: {}", c, said)); }
                    }
                }
                key = format!("timer {}", timer);
            }
        }
        ctx.add("timings", timed);
        ctx.count("commands");
        ctx.eval(!key.is_empty(), &format!("{}|{}|{}|{}", ctx.index, cur, stores.get(&cur).map_or(0, |s| s.m.log.len()), key));
    }
    // An incomplete command at the end has no effect, and nothing follows an exit.
    match ctx.rng.below(4) {
        0 => { sh.send(".t [[:db/add \"x\"\n :db/doc"); }
        1 => { sh.send(".exit\n.t [[:db/add \"x\" :db/doc \"after\"]]\n"); }
        2 => { sh.send(".e\n.t [[:db/add \"x\" :db/doc \"after\"]]\n"); }
        _ => (),
    }
    let rest = sh.finish()?;
    if rest.contains("TxReport") || rest.contains("panicked") { return bad(format!("after the end: {}", rest)); }
    drop(sh);
    for (name, side) in &stores {
        if name.is_empty() { continue; }
        let real = Real::open_path(&dir.join(name))?;
        if let Some(d) = diff_facts(&side.m.facts, &real.facts()?) { return bad(format!("the facts of {} differ from the interface's: {}", name, d)); }
        check_log(&real.sqlite, &side.m)?;
        if real.next_tx() != side.m.next_tx { return bad(format!("the next transaction of {} is {} for {}", name, real.next_tx(), side.m.next_tx)); }
        ctx.count("files_compared");
    }
    if ctx.rng.pct(60) { startup(ctx, dir)?; }
    Ok(())
}

/// Commands given as options.
fn startup(ctx: &mut Ctx, dir: &std::path::Path) -> R {
    // The store is made beforehand.
    let file = format!("start-{}.db", ctx.index);
    let p = dir.join(&file);
    let pal = { let mut rng = ctx.rng.clone(); let p = palette(&mut rng); ctx.rng = rng; p };
    let mut side = { let real = Real::open_path(&p)?; let m = real.model()?; Side { real, m, pal } };
    let t = side.pal.install();
    step(ctx, &mut side.real, &mut side.m, &t)?;
    let o = TxOpts { spice: 3, ..TxOpts::default() };
    // What is given is settled beforehand on a store in memory with the same contents.
    let at = side.m.log[0].1.iter().find_map(|f| match (&f.2, f.0) { (V::Inst(i), TX0) => Some(*i), _ => None }).h_opt("first instant")?;
    let _ = at;
    drop(side.real);
    let copy = dir.join(format!("twin-{}.db", ctx.index));
    std::fs::copy(&p, &copy).h("copy")?;
    side.real = Real::open_path(&copy)?;
    let mut writes: Vec<(TxAst, Vec<String>, String)> = vec![];
    let mut ahead = side.m.clone();
    for i in 0..1 + ctx.rng.below(3) {
        // Only transactions that certainly succeed, and say when they happened.
        let mut t = gen_tx(ctx, &ahead, &side.pal, &o);
        t.retain(|i| match i { Item::Add(_, AP::Ident(a), _) | Item::Ret(_, AP::Ident(a), _) => a != ":db/txInstant", _ => true });
        if tx_text(&t).contains("txInstant") { continue; }
        t.push(Item::Add(EP::Tx, kw_of_time(), VP::Lit(V::Inst(ahead.log.len() as i64 * 1_000_000 + 1_700_000_000_000_000 + 1000 * i as i64))));
        if let Outcome::Accept(_) = ahead.eval(&t) {
            let did = step(ctx, &mut side.real, &mut ahead, &t)?;
            if did != Did::Accepted { continue; }
            let text = tx_text(&t);
            if ctx.rng.pct(40) {
                let f = format!("start-{}-{}.edn", ctx.index, i);
                std::fs::write(dir.join(&f), &text).h("write")?;
                writes.push((t, vec![ctx.rng.pick(&["-i", "--import"]).to_string(), f.clone()], format!(".import {}", f)));
            } else {
                writes.push((t, vec![ctx.rng.pick(&["-t", "--transact"]).to_string(), text.clone()], format!(".transact {}", text)));
            }
        }
    }
    side.m = ahead;
    let mut questions = vec![];
    for _ in 0..1 + ctx.rng.below(3) {
        if let Some((text, want, all)) = question(ctx, &side)? { if text.starts_with("[:find") { questions.push((text, want, all)); } }
    }
    // Queries may be given before the transactions, but come after them.
    let mut options: Vec<Vec<String>> = writes.iter().map(|w| w.1.clone()).collect();
    for q in &questions {
        let at = ctx.rng.below(options.len() + 1);
        // In their own order.
        let last = options.iter().rposition(|o| o[0].ends_with('q') || o[0] == "--query").map_or(0, |i| i + 1);
        options.insert(at.max(last), vec![ctx.rng.pick(&["-q", "--query"]).to_string(), q.0.clone()]);
    }
    let mut args = vec!["-d".to_string(), file.clone()];
    for o in options { args.extend(o); }
    ctx.note(format!("start with {:?}", args));
    let mut sh = Shell::start(dir, &args)?;
    let out = match sh.until_prompt()? { Got::Prompt(s) => plain(&s), Got::Ended(s) => return bad(format!("the shell ended: {}", s)) };
    ctx.note(out.chars().take(2000).collect::<String>());
    let rest = sh.finish()?;
    if rest.contains("panicked") { return bad(rest); }
    drop(sh);
    // Each command is printed before its outcome.
    let mut left = out.as_str();
    let echoes: Vec<String> = Some(format!(".open {}", file)).into_iter().chain(writes.iter().map(|w| w.2.clone())).chain(questions.iter().map(|q| format!(".query {}", q.0))).collect();
    let mut outcomes = vec![];
    for (i, e) in echoes.iter().enumerate() {
        let e = format!("{}\n", e);
        match left.find(&e) {
            Some(0) => (),
            x => return bad(format!("expected {:?} to be carried out as number {}, it is at {:?} of {:?}", e, i, x, left.chars().take(300).collect::<String>())),
        }
        left = &left[e.len()..];
        let end = echoes.get(i + 1).and_then(|n| left.find(&format!("{}\n", n))).unwrap_or(left.len());
        outcomes.push(&left[..end]);
        left = &left[end..];
    }
    for (i, w) in writes.iter().enumerate() {
        let o = outcomes[1 + i];
        if o.lines().count() != 1 || !o.starts_with("TxReport {") { return bad(format!("{} says {:?}", w.2, o)); }
    }
    for (i, q) in questions.iter().enumerate() { answered(ctx, &q.0, &q.1, &q.2, outcomes[1 + writes.len() + i])?; }
    let real = Real::open_path(&p)?;
    if let Some(d) = diff_facts(&side.m.facts, &real.facts()?) { return bad(format!("the facts of {} differ from the interface's: {}", file, d)); }
    ctx.add("startup_commands", echoes.len() as u64);
    ctx.count("startups");
    ctx.eval(!writes.is_empty(), &format!("{:?}", args));
    Ok(())
}
