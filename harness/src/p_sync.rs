//! P21: replicas that share a global transaction log through `mentat_tolstoy`.
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::p_store::{gen_any, scan, schema_agrees};
use crate::p_tx::small_statements;
use crate::real::*;
use crate::rng::Rng;
use crate::val::*;
use mentat::{AttributeSet, CacheAction, CacheDirection, QueryResults, TxObserver};
use mentat_tolstoy::{GlobalTransactionLog, SyncFollowup, SyncReport, SyncResult, Syncer, Tx, TxPart};
use public_traits::errors::{MentatError, Result as MResult};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use mentat::Syncable;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P21", rule: "A distinct exchange (the transactions uploaded or merged, as text) after which all replicas were found to be identical.",
            case: p21, quick: (900, 35), thorough: (100_000, 600), min_nontrivial: 600, workers: 8,
            assumptions: &["The remote log is linear: nobody else moves its head between a replica's reading and setting it, and what it acknowledged it keeps.",
                "A replica whose sync asks for a follow-up does it before another replica syncs, as mentat's own Store does.",
                "Concurrent changes are restricted to what merging is documented to support: new entities, told apart by a unique identity, with scalar attributes."] },
        Prop { id: "P26", rule: "A distinct exchange over HTTP (the transactions uploaded or merged, as text) after which all replicas were found to be identical.",
            case: p26, quick: (250, 35), thorough: (50_000, 600), min_nontrivial: 150, workers: 8,
            assumptions: &["The server answers as the protocol says (head, transactions, chunks as JSON), or with an error status, with something else than JSON, or breaks the connection off; it acknowledges only what it has.",
                "As for P21."] },
    ]
}

/// The remote side: transactions form a chain that ends at the head; what isn't on it doesn't count.
struct Remote {
    head: Uuid,
    chunks: HashMap<Uuid, String>,
    txs: HashMap<Uuid, (Uuid, Vec<Uuid>)>,
    fail_at: Cell<Option<u64>>, // this call fails, without effect
    calls: Cell<u64>,
    problem: Option<String>,
    http: bool,
    fail_how: u32,
}

impl Remote {
    fn new() -> Remote { Remote { head: Uuid::nil(), chunks: HashMap::new(), txs: HashMap::new(), fail_at: Cell::new(None), calls: Cell::new(0), problem: None, http: false, fail_how: 0 } }
    fn tick(&self) -> MResult<()> {
        self.calls.set(self.calls.get() + 1);
        if self.fail_at.get() == Some(self.calls.get()) { return Err(MentatError::IoError(std::io::Error::new(std::io::ErrorKind::TimedOut, "injected"))); }
        Ok(())
    }
    fn chain(&self, after: &Uuid) -> Option<Vec<Uuid>> {
        let mut out = vec![];
        let mut at = self.head;
        while at != *after {
            if at == Uuid::nil() { return None; }
            out.push(at);
            at = self.txs.get(&at)?.0;
        }
        out.reverse();
        Some(out)
    }
}

impl GlobalTransactionLog for Remote {
    fn head(&self) -> MResult<Uuid> { self.tick()?; Ok(self.head) }
    fn transactions_after(&self, tx: &Uuid) -> MResult<Vec<Tx>> {
        self.tick()?;
        let ids = self.chain(tx).ok_or_else(|| MentatError::IoError(std::io::Error::new(std::io::ErrorKind::NotFound, "no such transaction on the way to the head")))?;
        Ok(ids.into_iter().map(|t| Tx { tx: t, parts: self.txs[&t].1.iter().map(|c| serde_json::from_str(&self.chunks[c]).expect("chunk")).collect() }).collect())
    }
    fn set_head(&mut self, tx: &Uuid) -> MResult<()> {
        self.tick()?;
        if !self.txs.contains_key(tx) { self.problem = Some("the head is set to a transaction that was never put".into()); }
        let old = std::mem::replace(&mut self.head, *tx);
        if self.chain(&old).is_none() { self.problem = Some("the new head doesn't descend from the old one".into()); }
        Ok(())
    }
    fn put_transaction(&mut self, tx: &Uuid, parent: &Uuid, chunks: &[Uuid]) -> MResult<()> {
        self.tick()?;
        if self.txs.contains_key(tx) { self.problem = Some("a transaction was put twice".into()); }
        if chunks.is_empty() || chunks.iter().any(|c| !self.chunks.contains_key(c)) { self.problem.get_or_insert("a transaction without its chunks was put".into()); }
        self.txs.insert(*tx, (*parent, chunks.to_vec()));
        Ok(())
    }
    fn put_chunk(&mut self, id: &Uuid, part: &TxPart) -> MResult<()> {
        self.tick()?;
        let text = serde_json::to_string(part).expect("serializable");
        let back: Result<TxPart, _> = serde_json::from_str(&text);
        match back {
            Ok(ref b) if b == part => (),
            b => self.problem = Some(format!("{:?} is {} on the wire, read as {:?}", part, text, b.map_err(|e| e.to_string()))),
        }
        self.chunks.insert(*id, text);
        Ok(())
    }
}

fn once(real: &mut Real, remote: &mut Remote) -> R<Result<SyncReport, String>> {
    if remote.http { return once_http(real, remote); }
    let Real { ref mut sqlite, ref mut conn, .. } = *real;
    call("sync", || {
        let mut ip = conn.begin_transaction(sqlite).map_err(|e| e.to_string())?;
        let r = Syncer::sync(&mut ip, remote).map_err(|e| e.to_string())?;
        ip.commit().map_err(|e| e.to_string())?;
        Ok(r)
    })
}

/// The same, but through mentat's own client and a server of HTTP on the loopback interface.
fn once_http(real: &mut Real, remote: &mut Remote) -> R<Result<SyncReport, String>> {
    let listener = TcpListener::bind("127.0.0.1:0").h("listen")?;
    let port = listener.local_addr().h("port")?.port();
    let user = Uuid::new_v4();
    let shared = Arc::new(Mutex::new(std::mem::replace(remote, Remote::new())));
    let stop = Arc::new(AtomicBool::new(false));
    let server = { let (shared, stop) = (shared.clone(), stop.clone()); std::thread::spawn(move || serve(listener, user, shared, stop)) };
    let Real { ref mut sqlite, ref mut conn, .. } = *real;
    let r = call("sync over HTTP", || {
        let mut ip = conn.begin_transaction(sqlite).map_err(|e| e.to_string())?;
        let r = ip.sync(&format!("http://127.0.0.1:{}/api/0.1", port), &user.to_string()).map_err(|e| e.to_string())?;
        ip.commit().map_err(|e| e.to_string())?;
        Ok(r)
    });
    stop.store(true, Ordering::SeqCst);
    let _ = TcpStream::connect(("127.0.0.1", port));
    let _ = server.join();
    *remote = match Arc::try_unwrap(shared) { Ok(m) => m.into_inner().unwrap_or_else(|e| e.into_inner()), Err(_) => return inconclusive("the server is still running") };
    r
}

fn serve(listener: TcpListener, user: Uuid, remote: Arc<Mutex<Remote>>, stop: Arc<AtomicBool>) {
    for c in listener.incoming() {
        if stop.load(Ordering::SeqCst) { return; }
        if let Ok(mut c) = c { let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(20))); let _ = answer(&mut c, user, &remote); }
    }
}

/// One request on one connection.
fn answer(c: &mut TcpStream, user: Uuid, remote: &Mutex<Remote>) -> std::io::Result<()> {
    let mut buf = vec![];
    let mut b = [0u8; 4096];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break i; }
        let n = c.read(&mut b)?;
        if n == 0 { return Ok(()); }
        buf.extend_from_slice(&b[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..end]).to_string();
    let mut lines = head.lines();
    let first: Vec<String> = lines.next().unwrap_or("").split(' ').map(|s| s.to_string()).collect();
    let mut len = 0;
    let mut json = false;
    for l in lines {
        let l = l.to_ascii_lowercase();
        if let Some(n) = l.strip_prefix("content-length:") { len = n.trim().parse().unwrap_or(0); }
        if l.starts_with("content-type:") && l.contains("application/json") { json = true; }
    }
    let mut body = buf[end + 4..].to_vec();
    while body.len() < len { let n = c.read(&mut b)?; if n == 0 { return Ok(()); } body.extend_from_slice(&b[..n]); }
    let mut r = remote.lock().unwrap_or_else(|e| e.into_inner());
    let (status, out) = if r.tick().is_err() {
        match r.fail_how {
            0 => ("500 Internal Server Error", "oops".to_string()),
            1 => ("409 Conflict", "{}".to_string()),
            2 => ("404 Not Found", "".to_string()),
            3 => return Ok(()), // breaks off
            _ => { if first.get(0).map_or(false, |m| m == "GET") { ("200 OK", "<html>".to_string()) } else { ("503 Service Unavailable", "".to_string()) } }
        }
    } else {
        r.calls.set(r.calls.get() - 1); // the log's own functions count as well
        let hold = r.fail_at.replace(None);
        let a = route(&mut r, user, &first, json, &body);
        r.fail_at.set(hold);
        match a { Ok(x) => x, Err(p) => { if r.problem.is_none() { r.problem = Some(p); } ("400 Bad Request", "".to_string()) } }
    };
    drop(r);
    c.write_all(format!("HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: application/json\r\nConnection: close\r\n\r\n{}", status, out.len(), out).as_bytes())
}

fn route(r: &mut Remote, user: Uuid, first: &[String], json: bool, body: &[u8]) -> Result<(&'static str, String), String> {
    let shown = String::from_utf8_lossy(body).to_string();
    let wrong = || format!("a request outside the protocol: {} {}", first.join(" "), shown);
    if first.len() != 3 { return Err(wrong()); }
    let path = first[1].strip_prefix(&format!("/api/0.1/{}/", user)).ok_or_else(wrong)?;
    let id = |s: &str| Uuid::parse_str(s).map_err(|_| wrong());
    let failed = |e: MentatError| e.to_string();
    let text = body;
    let body: serde_json::Value = if first[0] == "PUT" { if !json { return Err(wrong()); } serde_json::from_slice(body).map_err(|_| wrong())? } else { serde_json::Value::Null };
    let of = |v: &serde_json::Value| v.as_str().ok_or_else(wrong).and_then(|s| id(s));
    let only = |ks: &[&str]| if body.as_object().map_or(false, |o| o.len() == ks.len() && ks.iter().all(|k| o.contains_key(*k))) { Ok(()) } else { Err(wrong()) };
    match (first[0].as_str(), path) {
        ("GET", "head") => { let h = GlobalTransactionLog::head(r).map_err(failed)?; Ok(("200 OK", serde_json::json!({ "head": h.to_string() }).to_string())) }
        ("PUT", "head") => { only(&["head"])?; let h = of(&body["head"])?; r.set_head(&h).map_err(failed)?; Ok(("204 No Content", "".into())) }
        (m, p) if p.starts_with("transactions?from=") && m == "GET" => {
            let from = id(&p["transactions?from=".len()..])?;
            r.calls.set(r.calls.get() + 1);
            let l = r.chain(&from).ok_or_else(wrong)?;
            Ok(("200 OK", serde_json::json!({ "limit": 1000, "from": from.to_string(), "transactions": l.iter().map(|u| u.to_string()).collect::<Vec<_>>() }).to_string()))
        }
        (m, p) if p.starts_with("transactions/") => {
            let t = id(&p["transactions/".len()..])?;
            if m == "GET" {
                r.calls.set(r.calls.get() + 1);
                let (parent, chunks) = r.txs.get(&t).cloned().ok_or_else(wrong)?;
                Ok(("200 OK", serde_json::json!({ "parent": parent.to_string(), "chunks": chunks.iter().map(|u| u.to_string()).collect::<Vec<_>>(), "id": t.to_string(), "seq": r.txs.len() as i64 }).to_string()))
            } else if m == "PUT" {
                only(&["parent", "chunks"])?;
                let parent = of(&body["parent"])?;
                let chunks = body["chunks"].as_array().ok_or_else(wrong)?.iter().map(|c| of(c)).collect::<Result<Vec<_>, _>>()?;
                r.put_transaction(&t, &parent, &chunks).map_err(failed)?;
                Ok(("201 Created", "".into()))
            } else { Err(wrong()) }
        }
        (m, p) if p.starts_with("chunks/") => {
            let k = id(&p["chunks/".len()..])?;
            if m == "GET" { r.calls.set(r.calls.get() + 1); Ok(("200 OK", r.chunks.get(&k).cloned().ok_or_else(wrong)?)) }
            else if m == "PUT" { let part: TxPart = std::str::from_utf8(text).ok().and_then(|t| serde_json::from_str(t).ok()).ok_or_else(wrong)?; r.put_chunk(&k, &part).map_err(failed)?; Ok(("201 Created", "".into())) }
            else { Err(wrong()) }
        }
        _ => Err(wrong()),
    }
}

/// Sync, with its follow-ups; sometimes a call to the remote fails first, which must change nothing here.
fn sync(ctx: &mut Ctx, who: usize, real: &mut Real, remote: &mut Remote) -> R<Vec<SyncReport>> {
    let mut out = vec![];
    for _ in 0..4 {
        let mut fails = if ctx.rng.pct(20) { 1 + ctx.rng.below(3) } else { 0 };
        let r = loop {
            if fails > 0 {
                let n = remote.calls.get() + 1 + match ctx.rng.below(3) { 0 => ctx.rng.below(3), 1 => ctx.rng.below(12), _ => ctx.rng.below(150) } as u64;
                remote.fail_at.set(Some(n));
            }
            remote.fail_how = ctx.rng.below(5) as u32;
            let before = if fails > 0 { Some((dump(&real.sqlite)?, real.schema(), real.next_tx(), next_user(real)?)) } else { None };
            let head = remote.head;
            let r = overheard(ctx, real, |real| once(real, remote))?;
            let hit = remote.fail_at.get().map_or(false, |n| n <= remote.calls.get());
            remote.fail_at.set(None);
            if let Some(ref p) = remote.problem { return bad(p.clone()); }
            match r {
                Ok(r) => { if hit { return bad("a sync succeeded although a call to the remote failed"); } break r; }
                Err(e) => {
                    if !hit { return bad(format!("replica {} can't sync: {}", who, e)); }
                    ctx.note(format!("replica {} fails to sync ({})", who, e));
                    let (d, s, t, u) = before.unwrap();
                    if let Some(x) = diff_lines(&d, &dump(&real.sqlite)?) { return bad(format!("a failed sync changed the store: {}", x)); }
                    if s != real.schema() || t != real.next_tx() || u != next_user(real)? { return bad("a failed sync changed the connection's schema or allocations"); }
                    if head != remote.head { return bad("a failed sync moved the remote's head"); }
                    ctx.count("failed_syncs");
                    fails -= 1;
                }
            }
        };
        ctx.note(format!("replica {} syncs: {:?}", who, r));
        let more = r == SyncReport::Merge(SyncFollowup::FullSync);
        out.push(r);
        if !more { return Ok(out); }
    }
    bad("follow-up syncs ask for follow-ups again and again")
}

/// Whoever observes a replica is told of exactly the transactions that a sync adds to its log, in
/// order, each with the attributes it changed.
fn overheard<T>(ctx: &mut Ctx, real: &mut Real, f: impl FnOnce(&mut Real) -> R<T>) -> R<T> {
    if !ctx.rng.pct(40) { return f(real); }
    let attrs: AttributeSet = real.schema().attrs.keys().cloned().collect();
    let heard: Arc<Mutex<Vec<(i64, BTreeSet<i64>)>>> = Default::default();
    let h = heard.clone();
    let o = Arc::new(TxObserver::new(attrs, move |_, reports| h.lock().unwrap().extend(reports.iter().map(|(t, a)| (**t, a.iter().cloned().collect())))));
    let before = real.log()?;
    real.conn.register_observer("sync".to_string(), o.clone());
    let r = f(real);
    real.conn.unregister_observer("sync");
    let r = r?;
    // what is still to be told holds on to the observer
    let t0 = std::time::Instant::now();
    while Arc::strong_count(&o) > 1 {
        if t0.elapsed().as_secs() > 60 { return bad("a minute after it was unregistered, an observer is still held"); }
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
    let after = real.log()?;
    let n = before.iter().zip(after.iter()).take_while(|(a, b)| a == b).count();
    let want: Vec<(i64, BTreeSet<i64>)> = after[n..].iter().map(|(t, e)| (*t, e.iter().map(|x| x.1).collect())).collect();
    let got = heard.lock().unwrap().clone();
    ctx.add("observed_in_syncs", got.len() as u64);
    if got != want { return bad(format!("a sync added {:?} to the log, but observers were told of {:?}", want, got)); }
    Ok(r)
}

fn next_user(real: &mut Real) -> R<i64> {
    let Real { ref mut sqlite, ref mut conn, .. } = *real;
    let ip = conn.begin_transaction(sqlite).h("begin")?;
    let n = ip.partition_map.get(":db.part/user").map(|p| p.next_entid());
    drop(ip);
    match n { Some(n) => Ok(n), None => inconclusive("no user partition") }
}

/// Every replica keeps the instant of its own bootstrap transaction.
fn localised(m: &Model, real: &Real) -> R<Model> {
    let inst = m.boot.get(":db/txInstant");
    let at = |log: &[(i64, LogEntry)]| log[0].1.iter().find(|x| x.0 == TX0 && x.1 == inst).map(|x| x.2.clone());
    let (old, new) = match (at(&m.log), at(&real.log()?)) { (Some(a), Some(b)) => (a, b), _ => return bad("a bootstrap transaction without an instant") };
    let mut m = m.clone();
    if m.facts.remove(&(TX0, inst, old.clone())).is_some() { m.facts.insert((TX0, inst, new.clone()), TX0); }
    let e = &mut m.log[0].1;
    e.remove(&(TX0, inst, old, true));
    e.insert((TX0, inst, new, true));
    m.next_tx = real.next_tx(); // merging may skip some
    Ok(m)
}

fn same(ctx: &mut Ctx, who: usize, real: &mut Real, m: &Model) -> R {
    let m = &localised(m, real)?;
    let f = real.facts()?;
    if let Some(d) = diff_facts(&m.facts, &f) { return bad(format!("replica {}'s facts differ: {}", who, d)); }
    check_log(&real.sqlite, m).map_err(|e| tag(who, e))?;
    schema_agrees(real, m).map_err(|e| tag(who, e))?;
    scan(real).map_err(|e| tag(who, e))?;
    let q = facts_by_query(real)?;
    if let Some(d) = diff_facts(&m.facts, &q) { return bad(format!("replica {}'s queried facts differ: {}", who, d)); }
    let last = m.log.last().map_or(0, |l| l.0);
    if real.next_tx() <= last { return bad(format!("replica {} goes on with transaction {}, although there's {}", who, real.next_tx(), last)); }
    // values may name entities that don't exist yet
    let used = m.log.iter().flat_map(|l| &l.1).flat_map(|x| vec![x.0, if let V::Ref(r) = x.2 { r } else { 0 }]).filter(|i| *i < m.next_user).max().unwrap_or(0) + 1;
    let n = next_user(real)?;
    if n < used { return bad(format!("replica {} would hand out the entity id {}, while {} is in use", who, n, used - 1)); }
    // what its caches say, if there are any, about all that ever was
    let all: Vec<(i64, i64, V)> = m.log.iter().skip(1).flat_map(|l| &l.1).map(|x| (x.0, x.1, x.2.clone())).filter(|x| x.0 < TX0 && m.schema.attrs.contains_key(&x.1) && m.schema.ident_of(x.1).is_some()).collect();
    for _ in 0..12 {
        if all.is_empty() { break; }
        let (e, a, v) = ctx.rng.pick(&all).clone();
        let name = m.schema.ident_of(a).unwrap().clone();
        let want: BTreeSet<V> = m.values(e, a).into_iter().collect();
        let got: BTreeSet<V> = match call("lookup", || real.conn.lookup_values_for_attribute(&real.sqlite, e, &kw(&name)).map_err(|e| e.to_string()))? { Ok(v) => v.iter().map(V::of).collect(), Err(x) => return bad(format!("lookup of {} of {} failed: {}", name, e, x)) };
        if got != want { return bad(format!("replica {} finds {:?} for {} {}, stored are {:?}", who, got, e, name, want)); }
        if m.schema.attrs[&a].vt == VT::Inst { continue; }
        let q = format!("[:find [?e ...] :where [?e {} {}]]", name, v.text());
        let want: BTreeSet<V> = m.facts.keys().filter(|f| f.1 == a && f.2 == v).map(|f| V::Ref(f.0)).collect();
        let got = match real.q(&q)? { Ok(QueryResults::Coll(v)) => v.into_iter().filter_map(|b| b.into_scalar()).map(|t| V::of(&t)).collect::<BTreeSet<V>>(), Ok(r) => return bad(format!("{} gives {:?}", q, r)), Err(x) => { if type_blind_text(&x) { continue; } return bad(format!("{} fails: {}", q, x)) } };
        if got != want { return bad(format!("replica {} answers {} with {:?}, expected {:?}", who, q, got, want)); }
        ctx.count("lookups");
    }
    Ok(())
}
fn type_blind_text(e: &str) -> bool { e.contains("type") }
fn tag(who: usize, e: Bad) -> Bad { match e { Bad::Violation { sig, msg } => Bad::Violation { sig, msg: format!("replica {}: {}", who, msg) }, e => e } }

const KEYS: &[&str] = &["ada", "bob", "cyd", "dan", "eve", "fay", "gus", "hal", "ivy", "jon"];

fn shared_attrs() -> Vec<(&'static str, &'static str, bool)> {
    vec![(":sh/key", "string", false), (":sh/n", "long", false), (":sh/tag", "keyword", true), (":sh/name", "string", false), (":sh/on", "boolean", true), (":sh/id", "uuid", false), (":sh/at", "instant", false), (":sh/x", "double", true)]
}
fn shared_schema(rng: Option<&mut Rng>) -> String {
    let mut v: Vec<String> = shared_attrs().iter().map(|(a, t, many)| format!("{{:db/ident {} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{}{}}}", a, t, if *many { "many" } else { "one" },
        if *a == ":sh/key" { " :db/unique :db.unique/identity :db/index true" } else { "" })).collect();
    if let Some(r) = rng { r.shuffle(&mut v); }
    format!("[{}]", v.join("\n"))
}
fn shared_value(rng: &mut Rng, ty: &str) -> V {
    match ty {
        "long" => V::Long(rng.range(-3, 3)), "keyword" => V::Kw(rng.pick(&[":k/a", ":k/b", ":k/c"]).to_string()), "string" => V::Str(rng.pick(&WORDS).to_string()),
        "boolean" => V::Bool(rng.pct(50)), "uuid" => V::Uuid(*Uuid::from_u128(rng.u64() as u128 % 4).as_bytes()), "instant" => V::Inst(1_500_000_000_000_000 + rng.range(0, 3)),
        _ => V::Dbl(D::new(*rng.pick(&[0.5, -1.25, 1e300]))),
    }
}

/// A transaction that makes or changes these entities.
fn written(es: &[(String, Vec<(usize, V)>)]) -> String {
    format!("[{}]", es.iter().map(|(k, avs)| {
        let mut s = format!("{{:sh/key \"{}\"", k);
        for (j, (a, _, many)) in shared_attrs().iter().enumerate() {
            let vs: Vec<String> = avs.iter().filter(|x| x.0 == j).map(|x| x.1.text()).collect();
            if !vs.is_empty() { if *many { s.push_str(&format!(" {} [{}]", a, vs.join(" "))); } else { s.push_str(&format!(" {} {}", a, vs[0])); } }
        }
        s + "}"
    }).collect::<Vec<_>>().join(" "))
}

type Keyed = BTreeMap<String, BTreeMap<String, BTreeSet<V>>>;

/// What the store says about the shared entities, by key, and all other facts.
fn keyed(m: &Model) -> (Keyed, Facts) {
    let key = m.schema.idents[":sh/key"];
    let of: HashMap<i64, String> = m.facts.keys().filter(|f| f.1 == key).map(|f| (f.0, match f.2 { V::Str(ref s) => s.clone(), _ => String::new() })).collect();
    let (mut k, mut rest): (Keyed, Facts) = (BTreeMap::new(), BTreeMap::new());
    for ((e, a, v), t) in &m.facts {
        match of.get(e) {
            Some(s) => { k.entry(s.clone()).or_default().entry(m.schema.ident_of(*a).cloned().unwrap_or_default()).or_default().insert(v.clone()); }
            None => { rest.insert((*e, *a, v.clone()), *t); }
        }
    }
    (k, rest)
}

/// Facts about transactions (their instants) are left out.
fn no_tx(f: &Facts) -> Facts { f.iter().filter(|(k, _)| k.0 < TX0).map(|(k, t)| (k.clone(), *t)).collect() }

/// The history of a known finding: after a merge of incoming transactions that mention no newer entity, the
/// rebased ones get entities that are in use.
fn reuse(ctx: &mut Ctx) -> R {
    let mut remote = Remote::new();
    let (mut a, mut b) = (Real::memory()?, Real::memory()?);
    let mut run = |r: &mut Real, t: &str| -> R<i64> { match r.transact(t)? { Ok(r) => Ok(r.temps.get("x").cloned().unwrap_or(0)), Err(e) => bad(format!("{} refused: {}", t, e)) } };
    run(&mut a, "[{:db/ident :sh/name :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]")?;
    let first = run(&mut a, "[{:db/id \"x\" :sh/name \"first\"}]")?;
    let second = run(&mut a, "[{:db/id \"x\" :sh/name \"second\"}]")?;
    sync(ctx, 0, &mut a, &mut remote)?;
    sync(ctx, 1, &mut b, &mut remote)?;
    run(&mut a, &format!("[[:db/add {} :sh/name \"changed\"]]", first))?;
    run(&mut b, "[{:db/id \"x\" :sh/name \"third\"}]")?;
    sync(ctx, 0, &mut a, &mut remote)?;
    sync(ctx, 1, &mut b, &mut remote)?;
    sync(ctx, 0, &mut a, &mut remote)?;
    let m = b.model()?;
    let name = m.schema.idents[":sh/name"];
    if m.values(second, name).into_iter().all(|v| v == V::Str("third".into())) {
        ctx.finding("merge-reuses-entities", format!("after a merge, the entity of \"second\" ({}) is given to \"third\": {:?}", second, m.values(second, name)));
        return Ok(());
    }
    if diff_facts(&localised(&m, &a)?.facts, &a.facts()?).is_some() { return bad("replicas differ after a merge"); }
    Ok(())
}

/// Have some replicas cache some attributes.
fn caches(ctx: &mut Ctx, real: &mut Real, m: &Model) -> R {
    let user: Vec<String> = m.schema.attrs.keys().filter(|a| **a >= USER0).filter_map(|a| m.schema.ident_of(*a).cloned()).collect();
    if user.is_empty() || ctx.rng.pct(50) { return Ok(()); }
    for _ in 0..1 + ctx.rng.below(6) {
        let k = ctx.rng.pick(&user).clone();
        let dir = match ctx.rng.below(4) { 0 => CacheDirection::Forward, 1 => CacheDirection::Reverse, _ => CacheDirection::Both };
        let schema = real.conn.current_schema();
        let Real { ref mut sqlite, ref mut conn, .. } = *real;
        if let Err(e) = call("cache", || conn.cache(sqlite, &schema, &kw(&k), dir, CacheAction::Register).map_err(|e| e.to_string()))? { return bad(format!("caching {} failed: {}", k, e)); }
        ctx.count("cached_attributes");
    }
    Ok(())
}

fn p21(ctx: &mut Ctx) -> R { replicas(ctx, false) }
fn p26(ctx: &mut Ctx) -> R {
    // Mentat's client reads the system's certificates anew for each request, even to talk HTTP.
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    if ctx.index % 4 == 3 { return stores(ctx); }
    replicas(ctx, true)
}

/// Two `Store`s that only ever call `Store::sync`, which follows up by itself what a merge leaves to upload.
fn stores(ctx: &mut Ctx) -> R {
    let listener = TcpListener::bind("127.0.0.1:0").h("listen")?;
    let uri = format!("http://127.0.0.1:{}/api/0.1", listener.local_addr().h("port")?.port());
    let user = Uuid::new_v4();
    let mut start = Remote::new();
    start.http = true;
    let shared = Arc::new(Mutex::new(start));
    let stop = Arc::new(AtomicBool::new(false));
    let server = { let (shared, stop) = (shared.clone(), stop.clone()); std::thread::spawn(move || serve(listener, user, shared, stop)) };
    let r = stores_with(ctx, &uri, user, &shared);
    stop.store(true, Ordering::SeqCst);
    let _ = TcpStream::connect(uri.trim_start_matches("http://").split('/').next().unwrap_or(""));
    let _ = server.join();
    r
}

fn stores_with(ctx: &mut Ctx, uri: &str, user: Uuid, shared: &Mutex<Remote>) -> R {
    let mut stores = vec![];
    for _ in 0..2 {
        let mut s = match call("open", || mentat::Store::open("").map_err(|e| e.to_string()))? { Ok(s) => s, Err(e) => return bad(e) };
        limit_work(s.sqlite_mut());
        stores.push(s);
    }
    let mut want: BTreeMap<String, Option<i64>> = BTreeMap::new();
    let run = |s: &mut mentat::Store, t: &str| -> R { match call("transact", || s.transact(t).map(|_| ()).map_err(|e| e.to_string()))? { Ok(()) => Ok(()), Err(e) => bad(format!("{} refused: {}", t, e)) } };
    for s in stores.iter_mut() { let t = shared_schema(Some(&mut ctx.rng)); run(s, &t)?; }
    let mut seen = String::new();
    for round in 0..1 + ctx.rng.below(3) {
        let mut order = vec![0, 1];
        ctx.rng.shuffle(&mut order);
        let mut wrote = [0usize, 0];
        let mut plain: Vec<String> = vec![];
        for &i in &order {
            let least = if round == 0 { 1 } else { 0 };
            for t in 0..least + ctx.rng.below(3) {
                let mut text = vec![];
                // one of its own, and maybe some that the other writes, too
                let mut ks = vec![(format!("own{}.{}.{}", round, i, t), true)];
                for k in &KEYS[..3] { if ctx.rng.pct(30) { ks.push((format!("{}{}", k, round), false)); } }
                for (k, own) in ks {
                    let n = ctx.rng.range(-9, 9);
                    if own && ctx.rng.pct(70) { text.push(format!("{{:sh/key {:?} :sh/n {}}}", k, n)); want.insert(k, Some(n)); } else { text.push(format!("{{:sh/key {:?}}}", k)); want.entry(k).or_insert(None); }
                }
                let text = format!("[{}]", text.join(" "));
                ctx.note(format!("store {}: {}", i, text));
                seen.push_str(&text);
                run(&mut stores[i], &text)?;
                wrote[i] += 1;
                for k in &KEYS[..3] { if text.contains(&format!("{:?}", format!("{}{}", k, round))) && i == order[0] { plain.push(format!("{}{}", k, round)); } }
            }
            // The last to sync ends with what the other wrote already, so that nothing is left of it after the merge.
            if i == order[1] && wrote[i] > 0 && !plain.is_empty() && ctx.rng.pct(60) {
                let text = format!("[{{:sh/key {:?}}}]", ctx.rng.pick(&plain).clone());
                ctx.note(format!("store {}: {}", i, text));
                run(&mut stores[i], &text)?;
                wrote[i] += 1;
                ctx.count("rebased_to_nothing");
            }
        }
        for (at, i) in order.iter().chain(order.iter().take(1)).enumerate() {
            let fails = ctx.rng.pct(30);
            if fails {
                let mut r = shared.lock().unwrap();
                let n = r.calls.get() + 1 + ctx.rng.below(*ctx.rng.clone().pick(&[3, 12, 60])) as u64;
                r.fail_at.set(Some(n));
                r.fail_how = ctx.rng.below(5) as u32;
            }
            let mut sync = |ctx: &mut Ctx| -> R<(Result<(bool, Vec<SyncReport>), String>, bool)> {
                let s = &mut stores[*i];
                let r = call("sync of a store over HTTP", || s.sync(uri, &user.to_string()).map(|r| match r { SyncResult::Atomic(r) => (true, vec![r]), SyncResult::NonAtomic(v) => (false, v) }).map_err(|e| e.to_string()))?;
                let rem = shared.lock().unwrap_or_else(|e| e.into_inner());
                let hit = rem.fail_at.get().map_or(false, |n| n <= rem.calls.get());
                rem.fail_at.set(None);
                if let Some(ref p) = rem.problem { return bad(p.clone()); }
                ctx.note(format!("store {} syncs: {:?}", i, r));
                Ok((r, hit))
            };
            let (mut r, hit) = sync(ctx)?;
            if hit {
                if r.is_ok() { return bad("a sync of a store succeeded although a request failed"); }
                ctx.count("failed_syncs");
                r = sync(ctx)?.0;
            }
            let r = match r { Ok(r) => r, Err(e) => return bad(format!("store {} can't sync: {}", i, e)) };
            let (first, second) = (wrote[order[0]], wrote[order[1]]);
            let expected = match (at, round == 0) {
                (0, true) => (true, vec![SyncReport::RemoteFastForward]),
                (0, _) => (true, vec![if first > 0 { SyncReport::RemoteFastForward } else { SyncReport::NoChanges }]),
                (1, true) => (false, vec![SyncReport::Merge(SyncFollowup::FullSync), SyncReport::RemoteFastForward]),
                (1, _) if first > 0 && second > 0 => (false, vec![SyncReport::Merge(SyncFollowup::FullSync), SyncReport::RemoteFastForward]),
                (1, _) => (true, vec![if first > 0 { SyncReport::LocalFastForward } else if second > 0 { SyncReport::RemoteFastForward } else { SyncReport::NoChanges }]),
                _ => (true, vec![if round == 0 || second > 0 { SyncReport::LocalFastForward } else { SyncReport::NoChanges }]),
            };
            let (got, expected) = (format!("{:?}", r), format!("{:?}", expected));
            // one that failed after its merge was committed has only the upload left to do
            if got != expected && !(hit && expected.contains("FullSync") && got == "(true, [RemoteFastForward])") { return bad(format!("store {} reports {}, expected {}", i, got, expected)); }
            if expected.contains("FullSync") { ctx.count("follow_ups"); }
        }
        // both have all that either wrote
        let key = format!("{:?}", wrote);
        for (i, s) in stores.iter_mut().enumerate() {
            let q = |s: &mentat::Store, q: &str| -> R<Vec<Vec<String>>> { match call(q, || { use mentat::Queryable; s.q_once(q, None).map_err(|e| e.to_string()) })? { Ok(o) => match o.results { QueryResults::Rel(r) => Ok(r.into_iter().map(|row| row.into_iter().map(|b| b.into_scalar().map_or(String::new(), |t| match V::of(&t) { V::Str(s) => s, v => v.text() })).collect()).collect()), r => bad(format!("{:?}", r)) }, Err(e) => bad(format!("{}: {}", q, e)) } };
            let keys: BTreeSet<String> = q(s, "[:find ?k :where [_ :sh/key ?k]]")?.into_iter().flatten().collect();
            let all: BTreeSet<String> = want.keys().cloned().collect();
            if keys != all { return bad(format!("store {} has the keys {:?}, written were {:?}", i, keys, all)); }
            let ns: BTreeSet<(String, String)> = q(s, "[:find ?k ?n :where [?e :sh/key ?k] [?e :sh/n ?n]]")?.into_iter().map(|r| (r[0].clone(), r[1].clone())).collect();
            let all: BTreeSet<(String, String)> = want.iter().filter_map(|(k, n)| n.map(|n| (k.clone(), n.to_string()))).collect();
            if ns != all { return bad(format!("store {} has {:?}, written were {:?}", i, ns, all)); }
        }
        ctx.eval(wrote[0] > 0 && wrote[1] > 0, &format!("{} {}", key, seen));
        ctx.count("rounds_of_stores");
    }
    let mut peers: Vec<Real> = stores.into_iter().map(|s| { let (sqlite, conn) = s.dismantle(); Real { sqlite, conn } }).collect();
    let m = peers[0].model()?;
    for i in 0..2 { same(ctx, i, &mut peers[i], &m)?; }
    Ok(())
}

fn replicas(ctx: &mut Ctx, http: bool) -> R {
    let n = 2 + ctx.rng.below(2);
    let mut remote = Remote::new();
    remote.http = http;
    let mut peers: Vec<Real> = vec![];
    for _ in 0..n { let r = Real::memory()?; small_statements(ctx, &r); peers.push(r); }
    let mut rng = ctx.rng.clone();
    let pal = palette(&mut rng);
    ctx.rng = rng;
    let mut m;
    let mut base_phase = 0u32;
    if ctx.rng.pct(70) {
        m = peers[0].model()?;
        let o = TxOpts { spice: 10, tx_facts: 10, ..TxOpts::default() };
        let schema_pct = *ctx.rng.pick(&[0, 15, 40]);
        for turn in 0..2 + ctx.rng.below(3) {
            let who = if turn == 0 { 0 } else { ctx.rng.below(n) };
            m = localised(&m, &peers[who])?; m.next_user = next_user(&mut peers[who])?;
            if turn == 0 && step(ctx, &mut peers[0], &mut m, &pal.install())? != Did::Accepted { return bad("schema installation not accepted"); }
            let from = m.log.len();
            for _ in 0..ctx.rng.below(5) { let t = gen_any(ctx, &m, schema_pct, &o); step(ctx, &mut peers[who], &mut m, &t)?; }
            if turn == 0 && ctx.rng.pct(20) { // the remote has no more than the bootstrap transaction, or is empty, when another replica first comes
            }
            let mut order: Vec<usize> = (0..n).filter(|i| *i != who).collect();
            ctx.rng.shuffle(&mut order);
            let r = sync(ctx, who, &mut peers[who], &mut remote)?;
            let want = if turn == 0 || m.log.len() > from { SyncReport::RemoteFastForward } else { SyncReport::NoChanges };
            if r != vec![want.clone()] { return bad(format!("replica {}, the only one with changes ({}), reports {:?}", who, m.log.len() - from, r)); }
            for i in order {
                let r = sync(ctx, i, &mut peers[i], &mut remote)?;
                let want = if turn == 0 { SyncReport::Merge(SyncFollowup::None) } else if m.log.len() > from { SyncReport::LocalFastForward } else { SyncReport::NoChanges };
                if r != vec![want] { return bad(format!("replica {}, without changes ({} to come), reports {:?}", i, m.log.len() - from, r)); }
            }
            for i in 0..n { same(ctx, i, &mut peers[i], &m)?; }
            if turn == 0 { for i in 0..n { caches(ctx, &mut peers[i], &m)?; } }
            ctx.add("transactions_replicated", (m.log.len() - from) as u64);
            let text = format!("{:?}", &m.log[from..]);
            ctx.eval(m.log.len() > from, &text);
            if m.log.len() > from { ctx.count("replications"); if turn == 1 { ctx.sample(|| text.chars().take(500).collect()); } }
        }
        let who = ctx.rng.below(n);
        m = localised(&m, &peers[who])?; m.next_user = next_user(&mut peers[who])?;
        match peers[who].transact(&shared_schema(None))? { Ok(_) => (), Err(e) => return bad(format!("shared schema refused: {}", e)) }
        sync(ctx, who, &mut peers[who], &mut remote)?;
        for i in 0..n { sync(ctx, i, &mut peers[i], &mut remote)?; }
        m = peers[who].model()?;
        for i in 0..n { same(ctx, i, &mut peers[i], &m)?; }
    } else {
        // each starts on its own, with the same vocabulary
        for p in peers.iter_mut() { match p.transact(&shared_schema(Some(&mut ctx.rng)))? { Ok(_) => (), Err(e) => return bad(format!("shared schema refused: {}", e)) } }
        m = peers[0].model()?;
        base_phase = 1;
    }
    for i in 0..n { caches(ctx, &mut peers[i], &m)?; }
    // changes on several replicas at once
    let mut used = 0;
    for phase in 0..1 + ctx.rng.below(3) {
        let keys: Vec<String> = KEYS.iter().map(|k| format!("{}{}", k, phase)).collect();
        let (mut want, rest) = keyed(&m);
        let mut changes: Vec<Vec<Vec<(String, Vec<(usize, V)>)>>> = vec![];
        let mut removed: Vec<Option<String>> = vec![None; n];
        // one replica may change nothing but what another one also does, in steps of its own
        let echo = if ctx.rng.pct(30) { let i = ctx.rng.below(n); Some((i, (i + 1 + ctx.rng.below(n - 1)) % n)) } else { None };
        for i in 0..n {
            if echo.map_or(false, |x| x.0 == i) { changes.push(vec![]); continue; }
            let mut mine = keys[..*ctx.rng.pick(&[3, 5, 10])].to_vec();
            ctx.rng.shuffle(&mut mine);
            let mut txs = vec![];
            let few = if i == 0 && phase == 0 { 1 } else { 0 };
            let last = few + ctx.rng.below(3);
            // one entity of an earlier phase, which has nothing but its key, goes again
            let gone = format!("own{}.{}", phase as i64 - 1, i);
            if phase > 0 && last > 0 && want.get(&gone).map_or(false, |f| f.len() == 1) && ctx.rng.pct(40) {
                let key = m.schema.idents[":sh/key"];
                let e = m.by_av(key, &V::Str(gone.clone())).ok_or("no entity").h(&gone)?;
                let text = if ctx.rng.pct(50) { format!("[[:db/retract {} :sh/key \"{}\"]]", e, gone) } else { format!("[[:db/retract (lookup-ref :sh/key \"{}\") :sh/key \"{}\"]]", gone, gone) };
                ctx.note(format!("replica {}: {}", i, text));
                match peers[i].transact(&text)? { Ok(_) => (), Err(e) => return bad(format!("replica {} refuses {}: {}", i, text, e)) }
                ctx.count("entities_retracted");
                removed[i] = Some(gone);
            }
            for t in 1..=last {
                let mut es = vec![];
                for _ in 0..1 + ctx.rng.below(2) {
                    if let Some(k) = mine.pop() {
                        let mut avs = vec![];
                        for (j, (_, ty, many)) in shared_attrs().iter().enumerate().skip(1) {
                            if ctx.rng.pct(40) { for _ in 0..if *many { 1 + ctx.rng.below(2) } else { 1 } { avs.push((j, shared_value(&mut ctx.rng, ty))); } }
                        }
                        es.push((k, avs));
                    }
                }
                // The last transaction makes an entity of its own: see the known finding below.
                if t == last { es.push((format!("own{}.{}", phase, i), vec![])); }
                if es.is_empty() { continue; }
                let text = written(&es);
                ctx.note(format!("replica {}: {}", i, text));
                match peers[i].transact(&text)? { Ok(_) => (), Err(e) => return bad(format!("replica {} refuses {}: {}", i, text, e)) }
                used += 1;
                txs.push(es);
            }
            changes.push(txs);
        }
        let mut order: Vec<usize> = (0..n).collect();
        ctx.rng.shuffle(&mut order);
        if let Some((i, j)) = echo {
            // straight after the other
            order.retain(|x| *x != i);
            let at = order.iter().position(|x| *x == j).unwrap();
            order.insert(at + 1, i);
            for es in changes[j].clone() {
                if ctx.rng.pct(15) { continue; }
                for es in if ctx.rng.pct(70) { es.into_iter().map(|e| vec![e]).collect() } else { vec![es] } {
                    let text = written(&es);
                    ctx.note(format!("replica {}: {}", i, text));
                    match peers[i].transact(&text)? { Ok(_) => (), Err(e) => return bad(format!("replica {} refuses {}: {}", i, text, e)) }
                    used += 1;
                    changes[i].push(es);
                }
            }
        }
        for i in &order {
            let head = remote.head;
            let r = sync(ctx, *i, &mut peers[*i], &mut remote)?;
            if let Some((_, j)) = echo.filter(|x| x.0 == *i && !changes[*i].is_empty()) {
                if head != remote.head { return bad(format!("replica {} adds to the remote although it did nothing but what was there ({:?})", i, r)); }
                let other = peers[j].model()?;
                same(ctx, *i, &mut peers[*i], &other)?;
                ctx.count("echoes");
            }
            for r in r { ctx.count(match r { SyncReport::NoChanges => "reports_no_changes", SyncReport::RemoteFastForward => "reports_remote_forward", SyncReport::LocalFastForward => "reports_local_forward", SyncReport::Merge(SyncFollowup::None) => "reports_merge", SyncReport::Merge(_) => "reports_merge_and_follow_up", _ => return bad(format!("replica {} reports {:?}", i, r)) }); }
            if let Some(ref k) = removed[*i] { want.remove(k); }
            for (k, avs) in changes[*i].iter().flatten() {
                let e = want.entry(k.clone()).or_default();
                e.insert(":sh/key".into(), std::iter::once(V::Str(k.clone())).collect());
                for (j, v) in avs {
                    let (a, _, many) = shared_attrs()[*j];
                    let s = e.entry(a.to_string()).or_default();
                    if !many { s.clear(); }
                    s.insert(v.clone());
                }
            }
        }
        // those that came first learn of the rest
        let mut rounds = 0;
        loop {
            let mut quiet = true;
            for i in 0..n { if sync(ctx, i, &mut peers[i], &mut remote)? != vec![SyncReport::NoChanges] { quiet = false; } }
            if quiet { break; }
            rounds += 1;
            if rounds > 3 { return bad("replicas never come to rest"); }
        }
        let now = peers[0].model()?;
        for i in 0..n { same(ctx, i, &mut peers[i], &now)?; }
        let (got, other) = keyed(&now);
        if got != want {
            let k = want.keys().chain(got.keys()).find(|k| want.get(*k) != got.get(*k)).unwrap();
            return bad(format!("replicas agree that {:?} has {:?}, expected {:?}", k, got.get(k), want.get(k)));
        }
        if base_phase == 0 || phase > 0 {
            if let Some(d) = diff_facts(&no_tx(&rest), &no_tx(&other)) { return bad(format!("facts that nobody changed differ: {}", d)); }
        } else if other.keys().filter(|k| k.0 >= USER0 && k.0 < TX0).count() != rest.keys().filter(|k| k.0 >= USER0 && k.0 < TX0).count() {
            return bad("there are stray facts after merging");
        }
        let text = format!("{:?} {:?}", order, changes);
        let n_changed = changes.iter().filter(|c| !c.is_empty()).count();
        ctx.eval(n_changed > 1, &text);
        if n_changed > 1 { ctx.count("merged_phases"); ctx.sample(|| text.chars().take(500).collect()); }
        m = now;
    }
    ctx.add("concurrent_transactions", used);
    if !http && ctx.index % 50 == 7 { reuse(ctx)?; }
    // the replicas remain usable
    let who = ctx.rng.below(n);
    m = localised(&m, &peers[who])?; m.next_user = next_user(&mut peers[who])?;
    let o = TxOpts::default();
    let t = gen_any(ctx, &m, 0, &o);
    step(ctx, &mut peers[who], &mut m, &t)?;
    same(ctx, who, &mut peers[who], &m)
}
