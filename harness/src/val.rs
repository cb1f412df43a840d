//! The harness's own value type, independent of the code under test, with conversions.
use std::fmt;
use core_traits::TypedValue;
use chrono::{DateTime, Utc, Datelike, Timelike};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum VT { Ref, Bool, Inst, Long, Dbl, Str, Kw, Uuid }

pub const ALL_VT: [VT; 8] = [VT::Ref, VT::Bool, VT::Inst, VT::Long, VT::Dbl, VT::Str, VT::Kw, VT::Uuid];

impl VT {
    pub fn kw(self) -> &'static str {
        match self {
            VT::Ref => ":db.type/ref",
            VT::Bool => ":db.type/boolean",
            VT::Inst => ":db.type/instant",
            VT::Long => ":db.type/long",
            VT::Dbl => ":db.type/double",
            VT::Str => ":db.type/string",
            VT::Kw => ":db.type/keyword",
            VT::Uuid => ":db.type/uuid",
        }
    }
    pub fn of_core(v: core_traits::ValueType) -> VT {
        use core_traits::ValueType as C;
        match v {
            C::Ref => VT::Ref, C::Boolean => VT::Bool, C::Instant => VT::Inst, C::Long => VT::Long,
            C::Double => VT::Dbl, C::String => VT::Str, C::Keyword => VT::Kw, C::Uuid => VT::Uuid,
        }
    }
    pub fn core(self) -> core_traits::ValueType {
        use core_traits::ValueType as C;
        match self {
            VT::Ref => C::Ref, VT::Bool => C::Boolean, VT::Inst => C::Instant, VT::Long => C::Long,
            VT::Dbl => C::Double, VT::Str => C::String, VT::Kw => C::Keyword, VT::Uuid => C::Uuid,
        }
    }
}

/// A double with total order; -0.0 is normalised to 0.0, NaN never occurs.
#[derive(Clone, Copy, Debug)]
pub struct D(pub f64);
impl D {
    pub fn new(f: f64) -> D { if f == 0.0 { D(0.0) } else { D(f) } }
}
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.cmp(o) == std::cmp::Ordering::Equal } }
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> std::cmp::Ordering { self.0.partial_cmp(&o.0).unwrap_or(std::cmp::Ordering::Equal) } }
impl std::hash::Hash for D { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum V {
    Ref(i64),
    Bool(bool),
    Inst(i64), // microseconds since 1970
    Long(i64),
    Dbl(D),
    Str(String),
    Kw(String), // with leading colon
    Uuid([u8; 16]),
}

/// Civil-from-days (Howard Hinnant), so instants are printed by our own code.
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d)
}
fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = if m > 2 { i64::from(m) - 3 } else { i64::from(m) + 9 };
    let doy = (153 * mp + 2) / 5 + i64::from(d) - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn inst_text(us: i64) -> String {
    let secs = us.div_euclid(1_000_000);
    let frac = us.rem_euclid(1_000_000);
    let days = secs.div_euclid(86_400);
    let sod = secs.rem_euclid(86_400);
    let (y, m, d) = civil(days);
    let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, sod / 3600, (sod / 60) % 60, sod % 60);
    if frac != 0 {
        if frac % 1000 == 0 { s.push_str(&format!(".{:03}", frac / 1000)); } else { s.push_str(&format!(".{:06}", frac)); }
    }
    s.push('Z');
    s
}

/// Microseconds of a chrono instant computed from its calendar fields (independently of the
/// conversion code under test).
pub fn inst_micros(t: &DateTime<Utc>) -> i64 {
    let days = days_from_civil(i64::from(t.year()), t.month(), t.day());
    let secs = days * 86_400 + i64::from(t.hour()) * 3600 + i64::from(t.minute()) * 60 + i64::from(t.second());
    secs * 1_000_000 + i64::from(t.nanosecond() / 1000)
}

pub fn uuid_text(b: &[u8; 16]) -> String {
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

/// EDN text for a string: only `\` and `"` need escaping.
pub fn str_text(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        if c == '"' || c == '\\' { o.push('\\'); }
        o.push(c);
    }
    o.push('"');
    o
}

pub fn dbl_text(f: f64) -> String {
    if f.is_nan() { return "#f NaN".into(); }
    if f.is_infinite() { return if f > 0.0 { "#f +Infinity".into() } else { "#f -Infinity".into() }; }
    let s = format!("{:?}", f);
    if s.contains('e') || s.contains('.') { s } else { format!("{}.0", s) }
}

impl V {
    pub fn vt(&self) -> VT {
        match self {
            V::Ref(_) => VT::Ref, V::Bool(_) => VT::Bool, V::Inst(_) => VT::Inst, V::Long(_) => VT::Long,
            V::Dbl(_) => VT::Dbl, V::Str(_) => VT::Str, V::Kw(_) => VT::Kw, V::Uuid(_) => VT::Uuid,
        }
    }
    pub fn dbl(f: f64) -> V { V::Dbl(D::new(f)) }
    pub fn text(&self) -> String {
        match self {
            V::Ref(x) | V::Long(x) => x.to_string(),
            V::Bool(b) => b.to_string(),
            V::Inst(us) => format!("#inst \"{}\"", inst_text(*us)),
            V::Dbl(d) => dbl_text(d.0),
            V::Str(s) => str_text(s),
            V::Kw(k) => k.clone(),
            V::Uuid(u) => format!("#uuid \"{}\"", uuid_text(u)),
        }
    }
    pub fn of(tv: &TypedValue) -> V {
        match tv {
            TypedValue::Ref(x) => V::Ref(*x),
            TypedValue::Boolean(b) => V::Bool(*b),
            TypedValue::Instant(t) => V::Inst(inst_micros(t)),
            TypedValue::Long(x) => V::Long(*x),
            TypedValue::Double(d) => V::Dbl(D::new(d.into_inner())),
            TypedValue::String(s) => V::Str(s.as_ref().to_string()),
            TypedValue::Keyword(k) => V::Kw(k.to_string()),
            TypedValue::Uuid(u) => V::Uuid(*u.as_bytes()),
        }
    }
    pub fn typed(&self) -> TypedValue {
        use chrono::TimeZone;
        match self {
            V::Ref(x) => TypedValue::Ref(*x),
            V::Bool(b) => TypedValue::Boolean(*b),
            V::Inst(us) => TypedValue::Instant(Utc.timestamp_opt(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32).unwrap()),
            V::Long(x) => TypedValue::Long(*x),
            V::Dbl(d) => TypedValue::Double(d.0.into()),
            V::Str(s) => TypedValue::typed_string(s.as_str()),
            V::Kw(k) => TypedValue::from(kw(k)),
            V::Uuid(u) => TypedValue::Uuid(uuid::Uuid::from_bytes(*u)),
        }
    }
    /// Decode a stored (v, tag) pair with our own code.
    pub fn of_sql(v: rusqlite::types::Value, tag: i64) -> Result<V, String> {
        use rusqlite::types::Value as S;
        Ok(match (tag, v) {
            (0, S::Integer(x)) => V::Ref(x),
            (1, S::Integer(x)) => V::Bool(x != 0),
            (4, S::Integer(x)) => V::Inst(x),
            (5, S::Integer(x)) => V::Long(x),
            (5, S::Real(x)) => V::Dbl(D::new(x)),
            (10, S::Text(s)) => V::Str(s),
            (11, S::Blob(b)) => {
                let mut u = [0u8; 16];
                if b.len() != 16 { return Err(format!("uuid of {} bytes", b.len())); }
                u.copy_from_slice(&b);
                V::Uuid(u)
            }
            (13, S::Text(s)) => V::Kw(s),
            (t, v) => return Err(format!("unexpected stored pair {:?} tag {}", v, t)),
        })
    }
}

impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Ref(x) => write!(f, "ref:{}", x),
            _ => f.write_str(&self.text()),
        }
    }
}

/// ":ns/name" -> edn Keyword
pub fn kw(s: &str) -> edn::Keyword {
    let t = s.trim_start_matches(':');
    match t.find('/') {
        Some(i) => edn::Keyword::namespaced(&t[..i], &t[i + 1..]),
        None => edn::Keyword::plain(t),
    }
}
