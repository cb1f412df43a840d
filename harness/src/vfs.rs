//! A shim over SQLite's file layer: takes copies of the store's files as a killed process or a power failure would leave
//! them, at chosen operations; and makes chosen operations fail.
use rusqlite::ffi::*;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::path::PathBuf;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, Once};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Op { Read, Write, Sync, Truncate, Delete, Open }

#[derive(Clone, Debug)]
enum Pend { Write(i64, Vec<u8>), Trunc(i64) }

#[derive(Clone, Debug)]
pub struct Snap { pub dir: PathBuf, pub at: String, pub n: u64, pub kind: &'static str }

#[derive(Clone, Debug)]
pub struct Fault { pub ops: Vec<Op>, pub skip: u64, pub count: u64, pub code: c_int, pub partial: bool }

#[derive(Default)]
pub struct Ctl {
    pub db: PathBuf,
    on: bool,
    paused: bool,
    pub n: u64,
    snap_at: Vec<(u64, u8)>,
    fault: Option<Fault>,
    pub fired: u64,
    pub fired_at: String,
    pub snaps: Vec<Snap>,
    pub seen: BTreeMap<Op, u64>,
    durable: BTreeMap<String, Vec<u8>>,
    pending: BTreeMap<String, Vec<Pend>>,
    seed: u64,
    dir: PathBuf,
    made: u64,
}

const FILES: [&str; 3] = ["", "-wal", "-journal"];

impl Ctl {
    fn rnd(&mut self) -> u64 { self.seed ^= self.seed << 13; self.seed ^= self.seed >> 7; self.seed ^= self.seed << 17; self.seed }
    fn path(&self, suffix: &str) -> PathBuf { PathBuf::from(format!("{}{}", self.db.display(), suffix)) }

    /// Copy the files: as they are (0), with half of the write that is about to happen (1), or as they may be after a loss of power (2).
    fn snapshot(&mut self, kind: u8, at: String, torn: Option<(&str, i64, &[u8])>) {
        self.made += 1;
        let d = self.dir.join(format!("snap{}", self.made));
        if std::fs::create_dir_all(&d).is_err() { return; }
        let name = self.db.file_name().unwrap().to_string_lossy().into_owned();
        for s in &FILES {
            let from = self.path(s);
            let to = d.join(format!("{}{}", name, s));
            if kind < 2 {
                if from.exists() { let _ = std::fs::copy(&from, &to); }
                if let (1, Some((suf, off, data))) = (kind, torn) {
                    if suf == *s {
                        use std::os::unix::fs::FileExt;
                        if let Ok(f) = std::fs::OpenOptions::new().write(true).create(true).open(&to) { let _ = f.write_all_at(&data[..data.len() / 2], off as u64); }
                    }
                }
            } else {
                let mut img = match self.durable.get(*s) { Some(x) => x.clone(), None => continue };
                for p in self.pending.get(*s).cloned().unwrap_or_default() {
                    if self.rnd() % 2 == 0 { continue; }
                    apply(&mut img, &p);
                }
                let _ = std::fs::write(&to, &img);
            }
        }
        let kind = ["killed", "killed within the write", "power lost"][kind as usize];
        self.snaps.push(Snap { dir: d, at: format!("{} {}", kind, at), n: self.n, kind });
    }

    /// Called before each operation; what to fail it with, and whether part of it happens.
    fn op(&mut self, op: Op, suffix: &str, write: Option<(i64, &[u8])>) -> Option<(c_int, bool)> {
        if !self.on || self.paused { return None; }
        *self.seen.entry(op).or_insert(0) += 1;
        if op != Op::Read {
            self.n += 1;
            let n = self.n;
            let at = format!("before operation {} ({:?} of file {:?})", n, op, suffix);
            let due: Vec<u8> = self.snap_at.iter().filter(|x| x.0 == n).map(|x| x.1).collect();
            for k in due { self.snapshot(k, at.clone(), write.map(|w| (suffix, w.0, w.1))); }
        }
        if let Some(ref mut f) = self.fault {
            if f.ops.contains(&op) {
                if f.skip > 0 { f.skip -= 1; }
                else if f.count > 0 {
                    f.count -= 1;
                    self.fired += 1;
                    if self.fired == 1 { self.fired_at = format!("{:?} of file {:?}", op, suffix); }
                    return Some((if f.code != 0 { f.code } else { match op { Op::Read => SQLITE_IOERR_READ, Op::Write => SQLITE_IOERR_WRITE, Op::Sync => SQLITE_IOERR_FSYNC, Op::Truncate => SQLITE_IOERR_TRUNCATE, Op::Delete => SQLITE_IOERR_DELETE, Op::Open => SQLITE_CANTOPEN } }, f.partial));
                }
            }
        }
        None
    }
    fn did(&mut self, suffix: &str, p: Pend) { if self.on { self.pending.entry(suffix.to_string()).or_default().push(p); } }
}

fn apply(img: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Trunc(n) => img.truncate(*n as usize),
        Pend::Write(o, d) => { let e = *o as usize + d.len(); if img.len() < e { img.resize(e, 0); } img[*o as usize..e].copy_from_slice(d); }
    }
}

static CTL: Mutex<Option<Ctl>> = Mutex::new(None);

pub fn with<T>(f: impl FnOnce(&mut Ctl) -> T) -> T {
    let mut g = CTL.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some(Ctl::default()); }
    f(g.as_mut().unwrap())
}

/// Watch this store's files from now on; what they hold is taken to be safely on the disk.
pub fn arm(db: PathBuf, dir: PathBuf, snap_at: Vec<(u64, u8)>, fault: Option<Fault>, seed: u64) {
    with(|c| {
        let made = c.made;
        *c = Ctl { db, dir, snap_at, fault, seed: seed | 1, made, on: true, ..Ctl::default() };
        for s in &FILES { if let Ok(b) = std::fs::read(c.path(s)) { c.durable.insert(s.to_string(), b); } }
    })
}
/// Stop; what happened since.
pub fn disarm() -> Seen {
    with(|c| { c.on = false; c.durable.clear(); c.pending.clear(); Seen { fired: c.fired, fired_at: c.fired_at.clone(), snaps: std::mem::take(&mut c.snaps), seen: std::mem::take(&mut c.seen) } })
}
pub struct Seen { pub fired: u64, pub fired_at: String, pub snaps: Vec<Snap>, pub seen: BTreeMap<Op, u64> }
pub fn pause(p: bool) { with(|c| c.paused = p) }
pub fn fired() -> u64 { with(|c| c.fired) }

static DELAYS: AtomicU32 = AtomicU32::new(0);
thread_local! { static RND: Cell<u64> = Cell::new(0); }
/// Have this many per thousand of the operations (and locks) take a little longer.
pub fn delays(per_mille: u32) { DELAYS.store(per_mille, Ordering::SeqCst) }
fn delay() {
    let d = DELAYS.load(Ordering::Relaxed);
    if d == 0 { return; }
    let r = RND.with(|x| { let mut v = x.get(); if v == 0 { v = x as *const _ as u64 | 1; } v ^= v << 13; v ^= v >> 7; v ^= v << 17; x.set(v); v >> 11 });
    if r % 1000 < d as u64 { std::thread::sleep(std::time::Duration::from_micros(r / 1000 % 400)); }
}

#[repr(C)]
struct File { base: sqlite3_file, suffix: c_int }
const OFF: usize = (std::mem::size_of::<File>() + 15) / 16 * 16;

unsafe fn real(f: *mut sqlite3_file) -> *mut sqlite3_file { (f as *mut u8).add(OFF) as *mut sqlite3_file }
unsafe fn m(f: *mut sqlite3_file) -> &'static sqlite3_io_methods { &*(*real(f)).pMethods }
unsafe fn suffix(f: *mut sqlite3_file) -> Option<&'static str> { let i = (*(f as *mut File)).suffix; if i < 0 { None } else { Some(FILES[i as usize]) } }

unsafe extern "C" fn x_close(f: *mut sqlite3_file) -> c_int { m(f).xClose.unwrap()(real(f)) }
unsafe extern "C" fn x_read(f: *mut sqlite3_file, p: *mut c_void, n: c_int, o: i64) -> c_int { delay();
    if let Some(s) = suffix(f) { if let Some((e, _)) = with(|c| c.op(Op::Read, s, None)) { return e; } }
    m(f).xRead.unwrap()(real(f), p, n, o)
}
unsafe extern "C" fn x_write(f: *mut sqlite3_file, p: *const c_void, n: c_int, o: i64) -> c_int { delay();
    if let Some(s) = suffix(f) {
        let data = std::slice::from_raw_parts(p as *const u8, n as usize);
        if let Some((e, partial)) = with(|c| c.op(Op::Write, s, Some((o, data)))) {
            if partial && n > 1 { let h = n / 2; m(f).xWrite.unwrap()(real(f), p, h, o); with(|c| c.did(s, Pend::Write(o, data[..h as usize].to_vec()))); }
            return e;
        }
        let r = m(f).xWrite.unwrap()(real(f), p, n, o);
        with(|c| c.did(s, Pend::Write(o, data.to_vec())));
        return r;
    }
    m(f).xWrite.unwrap()(real(f), p, n, o)
}
unsafe extern "C" fn x_truncate(f: *mut sqlite3_file, n: i64) -> c_int {
    if let Some(s) = suffix(f) {
        if let Some((e, _)) = with(|c| c.op(Op::Truncate, s, None)) { return e; }
        with(|c| c.did(s, Pend::Trunc(n)));
    }
    m(f).xTruncate.unwrap()(real(f), n)
}
unsafe extern "C" fn x_sync(f: *mut sqlite3_file, fl: c_int) -> c_int { delay();
    if let Some(s) = suffix(f) {
        if let Some((e, _)) = with(|c| c.op(Op::Sync, s, None)) { return e; }
        // the disk itself is not part of the experiment
        with(|c| if c.on {
            let mut img = c.durable.remove(s).unwrap_or_default();
            for p in c.pending.remove(s).unwrap_or_default() { apply(&mut img, &p); }
            c.durable.insert(s.to_string(), img);
        });
        return SQLITE_OK;
    }
    m(f).xSync.unwrap()(real(f), fl)
}
unsafe extern "C" fn x_size(f: *mut sqlite3_file, p: *mut i64) -> c_int { m(f).xFileSize.unwrap()(real(f), p) }
unsafe extern "C" fn x_lock(f: *mut sqlite3_file, l: c_int) -> c_int { m(f).xLock.unwrap()(real(f), l) }
unsafe extern "C" fn x_unlock(f: *mut sqlite3_file, l: c_int) -> c_int { m(f).xUnlock.unwrap()(real(f), l) }
unsafe extern "C" fn x_reserved(f: *mut sqlite3_file, p: *mut c_int) -> c_int { m(f).xCheckReservedLock.unwrap()(real(f), p) }
unsafe extern "C" fn x_control(f: *mut sqlite3_file, op: c_int, p: *mut c_void) -> c_int { m(f).xFileControl.unwrap()(real(f), op, p) }
unsafe extern "C" fn x_sector(f: *mut sqlite3_file) -> c_int { m(f).xSectorSize.unwrap()(real(f)) }
unsafe extern "C" fn x_char(f: *mut sqlite3_file) -> c_int { m(f).xDeviceCharacteristics.unwrap()(real(f)) }
unsafe extern "C" fn x_shm_map(f: *mut sqlite3_file, a: c_int, b: c_int, c: c_int, p: *mut *mut c_void) -> c_int { m(f).xShmMap.unwrap()(real(f), a, b, c, p) }
unsafe extern "C" fn x_shm_lock(f: *mut sqlite3_file, a: c_int, b: c_int, c: c_int) -> c_int { delay(); m(f).xShmLock.unwrap()(real(f), a, b, c) }
unsafe extern "C" fn x_shm_barrier(f: *mut sqlite3_file) { m(f).xShmBarrier.unwrap()(real(f)) }
unsafe extern "C" fn x_shm_unmap(f: *mut sqlite3_file, d: c_int) -> c_int { m(f).xShmUnmap.unwrap()(real(f), d) }

static METHODS: sqlite3_io_methods = sqlite3_io_methods {
    iVersion: 2, xClose: Some(x_close), xRead: Some(x_read), xWrite: Some(x_write), xTruncate: Some(x_truncate), xSync: Some(x_sync), xFileSize: Some(x_size),
    xLock: Some(x_lock), xUnlock: Some(x_unlock), xCheckReservedLock: Some(x_reserved), xFileControl: Some(x_control), xSectorSize: Some(x_sector), xDeviceCharacteristics: Some(x_char),
    xShmMap: Some(x_shm_map), xShmLock: Some(x_shm_lock), xShmBarrier: Some(x_shm_barrier), xShmUnmap: Some(x_shm_unmap), xFetch: None, xUnfetch: None,
};

static mut BASE: *mut sqlite3_vfs = std::ptr::null_mut();

unsafe fn of_path(p: *const c_char) -> c_int {
    if p.is_null() { return -1; }
    let p = CStr::from_ptr(p).to_string_lossy().into_owned();
    with(|c| if !c.on { -1 } else { let d = c.db.to_string_lossy().into_owned(); FILES.iter().position(|s| p == format!("{}{}", d, s)).map_or(-1, |i| i as c_int) })
}

unsafe extern "C" fn v_open(_: *mut sqlite3_vfs, name: *const c_char, f: *mut sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    let i = of_path_any(name);
    (*f).pMethods = std::ptr::null();
    (*(f as *mut File)).suffix = i;
    if i >= 0 { if let Some((e, _)) = with(|c| c.op(Op::Open, FILES[i as usize], None)) { return e; } }
    let r = (*BASE).xOpen.unwrap()(BASE, name, real(f), flags, out);
    if !(*real(f)).pMethods.is_null() { (*f).pMethods = &METHODS; }
    r
}
/// Which of the watched store's files this is, whether or not operations count now.
unsafe fn of_path_any(p: *const c_char) -> c_int {
    if p.is_null() { return -1; }
    let p = CStr::from_ptr(p).to_string_lossy().into_owned();
    with(|c| { let d = c.db.to_string_lossy().into_owned(); if d.is_empty() { -1 } else { FILES.iter().position(|s| p == format!("{}{}", d, s)).map_or(-1, |i| i as c_int) } })
}
unsafe extern "C" fn v_delete(_: *mut sqlite3_vfs, name: *const c_char, dir: c_int) -> c_int {
    let i = of_path(name);
    if i >= 0 {
        let s = FILES[i as usize];
        if let Some((e, _)) = with(|c| c.op(Op::Delete, s, None)) { return e; }
        with(|c| { c.durable.remove(s); c.pending.remove(s); });
    }
    (*BASE).xDelete.unwrap()(BASE, name, dir)
}

/// All stores of this process are opened through the shim; only the named one is tampered with.
pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        sqlite3_initialize();
        BASE = sqlite3_vfs_find(std::ptr::null());
        let mut v: sqlite3_vfs = *BASE;
        v.szOsFile = (*BASE).szOsFile + OFF as c_int;
        v.pNext = std::ptr::null_mut();
        v.zName = b"mverif\0".as_ptr() as *const c_char;
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        sqlite3_vfs_register(Box::into_raw(Box::new(v)), 1);
    });
}

/// Name the store whose files are watched once armed; before opening it.
pub fn name(db: PathBuf) { with(|c| { c.db = db; c.on = false; }) }
